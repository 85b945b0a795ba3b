// C16: advection carries the field downstream: upwind limited fluxes, conservative, exact for
// uniform data, the same for either flow direction.
#define QKV_LARGE 150, 13, 11, 6, 5, 4
#include "phys.h"
#include "solver/ssprk2_advection.h"

typedef qk::solver::ssprk2_advection adv_t;

// limited upwind value of the face whose upstream neighbours are up2, up and downstream one is dn
static double upwind(double up2, double up, double dn)
{
    double r = dn != up ? (up - up2) / (dn - up) : 1.0;
    double phi = r * (r + 1.0) / (r * r + 1.0);
    return up + 0.25 * phi * (dn - up2);
}

struct setup_t {
    mesh_t g;
    int n, comps;
    double dt, v[3];
    std::vector<double> vel;
    setup_t(int maxcomps, int nmax = 3)
    {
        n = qkv_pick("n", 1, nmax);
        comps = maxcomps == 1 ? 1 : any_comps(maxcomps - 1);
        g = std_mesh(n, comps == 1);
        dt = qkv_real("dt", 0, 0.05, 0.5);
        qkv_assume(dt > 0);
        for (int i = 0; i < n; ++i) { v[i] = qkv_real("v", i, -2, 2); vel.push_back(v[i]); }
    }
};

QKV_HARNESS(upwindStages)
{
    setup_t u(2);
    mesh_t & g = u.g;
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    mgr.set_dt(u.dt);
    vid_t a = field_id("a", u.comps), b = field_id("b", u.comps), c = field_id("c", u.comps), o = field_id("o", u.comps);
    load(chunk_of(mgr, a), g, u.comps, "a");
    load(chunk_of(mgr, b), g, u.comps, "b");
    load(chunk_of(mgr, c), g, u.comps, "c");
    load(chunk_of(mgr, o), g, u.comps, "o");
    adv_t s;
    s.setup(u.vel);
    s.add_input_variable(a);
    s.add_output_variable(b);
    s.add_output_variable(c);
    int stage = qkv_pick("stage", 0, 1);
    s.solve(mgr, stage == 0 ? adv_t::STAGE_0 : adv_t::STAGE_1);
    const char * src = stage == 0 ? "a" : "b";
    double h = stage == 0 ? u.dt : 0.5 * u.dt;
    int p[5];
    begin(g.m, p);
    do {
        for (int k = 0; k < u.comps; ++k) {
            double n0 = orig(g, p, u.comps, k, "a");
            double want = stage == 0 ? n0 : 0.5 * (n0 + orig(g, p, u.comps, k, "b"));
            for (int d = 0; d < u.n; ++d) {
                int t[5];
                for (int i = 0; i < u.n; ++i) t[i] = p[i];
                double q[5];
                for (int j = -2; j <= 2; ++j) { t[d] = p[d] + j; q[j + 2] = orig(g, t, u.comps, k, src); }
                double cfl = std::fabs(h * u.v[d] / g.dx(d));
                double in, out;
                if (u.v[d] > 0) { in = upwind(q[0], q[1], q[2]); out = upwind(q[1], q[2], q[3]); }
                else { in = upwind(q[4], q[3], q[2]); out = upwind(q[3], q[2], q[1]); }
                want += cfl * (in - out);
            }
            qkv_check_eq(at(chunk_of(mgr, stage == 0 ? b : c), g, p, k), want, stage == 0 ? "first-stage" : "second-stage");
        }
    } while (step(g.m, p));
    unchanged_in(g.m, chunk_of(mgr, a), g, u.comps, "a", "input-not-modified");
    if (stage == 1) unchanged_in(g.m, chunk_of(mgr, b), g, u.comps, "b", "input-not-modified");
    unchanged(chunk_of(mgr, o), g, u.comps, "o", "other-variables-untouched");
    qkv_reach("end");
}

QKV_HARNESS(conserves)
{
    setup_t u(2);
    mesh_t & g = u.g;
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    mgr.set_dt(u.dt);
    vid_t a = field_id("a", u.comps), b = field_id("b", u.comps), c = field_id("c", u.comps);
    load_periodic(chunk_of(mgr, a), g, u.comps, "a", EM_LO, EM_HI);
    load_periodic(chunk_of(mgr, b), g, u.comps, "b", EM_LO, EM_HI);
    load(chunk_of(mgr, c), g, u.comps, "c");
    adv_t s;
    s.setup(u.vel);
    s.add_input_variable(a);
    s.add_output_variable(b);
    s.add_output_variable(c);
    int stage = qkv_pick("stage", 0, 1);
    s.solve(mgr, stage == 0 ? adv_t::STAGE_0 : adv_t::STAGE_1);
    for (int k = 0; k < u.comps; ++k) {
        double before = 0, after = 0;
        int p[5];
        begin(g.m, p);
        do {
            before += stage == 0 ? pvar(g, p, u.comps, k, "a", EM_LO, EM_HI)
                                 : 0.5 * (pvar(g, p, u.comps, k, "a", EM_LO, EM_HI) + pvar(g, p, u.comps, k, "b", EM_LO, EM_HI));
            after += at(chunk_of(mgr, stage == 0 ? b : c), g, p, k);
        } while (step(g.m, p));
        qkv_check_eq(after, before, "total-is-conserved");
    }
    qkv_reach("end");
}

QKV_HARNESS(uniform)
{
    setup_t u(2);
    mesh_t & g = u.g;
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    mgr.set_dt(u.dt);
    vid_t a = field_id("a", u.comps), b = field_id("b", u.comps), c = field_id("c", u.comps);
    load_uniform(chunk_of(mgr, a), g, u.comps, "a", EM_LO, EM_HI);
    load_uniform(chunk_of(mgr, b), g, u.comps, "a", EM_LO, EM_HI);
    load(chunk_of(mgr, c), g, u.comps, "c");
    adv_t s;
    s.setup(u.vel);
    s.add_input_variable(a);
    s.add_output_variable(b);
    s.add_output_variable(c);
    int stage = qkv_pick("stage", 0, 1);
    s.solve(mgr, stage == 0 ? adv_t::STAGE_0 : adv_t::STAGE_1);
    for (int k = 0; k < u.comps; ++k) {
        int p[5];
        begin(g.m, p);
        do {
            qkv_check_eq(at(chunk_of(mgr, stage == 0 ? b : c), g, p, k), qkv_real("a", k, -2, 2), "uniform-field-stays");
        } while (step(g.m, p));
    }
    qkv_reach("end");
}

// a velocity needs a component for every dimension; more are ignored
QKV_HARNESS(velocityLength)
{
    int n = qkv_pick("n", 1, 3), given = qkv_pick("given", 0, 3), stage = qkv_pick("stage", 0, 1);
    mesh_t g = any_mesh(n, n == 1 ? 2 : 1, 2);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid), ref(grid);
    std::vector<double> v, w;
    for (int i = 0; i < given; ++i) { double x = qkv_real("v", i, 0.2, 1); qkv_assume(x > 0); v.push_back(x); if (i < n) w.push_back(x); }
    const char * nm[3] = {"a", "b", "c"};
    vid_t id[3] = {field_id("a", 1), field_id("b", 1), field_id("c", 1)};
    adv_t s, t;
    s.setup(v);
    t.setup(w);
    for (int k = 0; k < 3; ++k) {
        load(chunk_of(mgr, id[k]), g, 1, nm[k]);
        load(chunk_of(ref, id[k]), g, 1, nm[k]);
        if (k) { s.add_output_variable(id[k]); t.add_output_variable(id[k]); }
        else { s.add_input_variable(id[k]); t.add_input_variable(id[k]); }
    }
    mgr.set_dt(qkv_real("dt", 0, 0.05, 0.5));
    ref.set_dt(mgr.dt());
    bool threw = false;
    try { s.solve(mgr, stage); } catch (const qk::exception &) { threw = true; }
    qkv_check(threw == (given < n), "short-velocity-is-refused");
    if (threw)
        for (int k = 0; k < 3; ++k) unchanged(chunk_of(mgr, id[k]), g, 1, nm[k], "refusal-changes-nothing");
    else {
        t.solve(ref, stage);
        for (int k = 0; k < 3; ++k)
            for (int i = 0; i < chunk_of(mgr, id[k]).volume(); ++i) qkv_check_eq(chunk_of(mgr, id[k]).data()[i], chunk_of(ref, id[k]).data()[i], "further-components-are-ignored");
    }
    qkv_reach("end");
}
