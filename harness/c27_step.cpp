// C27: a whole time step - boundaries, rates, stages, swap - conserves on a periodic domain,
// whatever the ghost cells, stage fields and rate field held before.
#include "phys.h"
#include "solver/bc_free_slip.h"
#include "solver/bc_no_slip.h"
#include "solver/bc_periodic.h"
#include "solver/euler.h"
#include "solver/fill.h"
#include "solver/maxwell.h"
#include "solver/rk1.h"
#include "solver/ssprk2_advection.h"
#include "solver/ssprk3.h"
#include "solver/swap.h"

static mesh_t step_mesh(int n)
{
    int lmax[3] = {n == 1 ? qkv_bound(4, 6) : (n == 2 ? qkv_bound(2, 3) : 2), 2, 2};
    return any_mesh3(n, lmax, 2);
}
struct fields {
    mesh_t g;
    int n, comps;
    const double * lo, * hi;
    qk::grid::rectilinear grid;
    manager_t mgr;
    vid_t q[4], r;
    qk::solver::ssprk3 rk;
    qk::solver::fill reset;
    fields(int dims, int k, const double * l, const double * h) : g(step_mesh(dims)), n(dims), comps(k), lo(l), hi(h), grid(grid_of(g)), mgr(grid)
    {
        const char * nm[5] = {"q0", "q1", "q2", "q3", "r"};
        const char * jk[5] = {"q", "junk1", "junk2", "junk3", "junkr"};
        for (int i = 0; i < 5; ++i) {
            vid_t v = field_id(nm[i], comps);
            if (i < 4) q[i] = v; else r = v;
            load_h(chunk_of(mgr, v), g, comps, jk[i], lo, hi);
        }
        mgr.set_dt(qkv_real("dt", 0, 0.01, 0.02));
        rk.add_input_variable(q[0]);
        rk.add_input_variable(r);
        for (int i = 1; i < 4; ++i) rk.add_output_variable(q[i]);
        reset.setup(0.);
        reset.add_output_variable(r);
    }
    double before(int k)
    {
        double s = 0;
        int p[5];
        begin(g.m, p);
        do { s += orig_h(g, p, comps, k, "q", lo, hi); } while (step(g.m, p));
        return s;
    }
    double after(const vid_t & v, int k)
    {
        double s = 0;
        int p[5];
        chunk_t & c = chunk_of(mgr, v);
        begin(g.m, p);
        do { s += at(c, g, p, k); } while (step(g.m, p));
        return s;
    }
    void swap_in()
    {
        qk::solver::swap sw;
        sw.add_output_variable(q[0]);
        sw.add_output_variable(q[3]);
        sw.solve(mgr);
    }
};
static std::vector<int> all_dims(int n)
{
    std::vector<int> dims;
    for (int d = 0; d < n; ++d) dims.push_back(d);
    return dims;
}
template<class RATE> static void periodic_step(RATE & proto, int dims, int comps, const double * lo, const double * hi)
{
    int n = qkv_pick("n", 1, qkv_bound(dims, 3)), steps = 1;
    fields f(n, comps, lo, hi);
    for (int t = 0; t < steps; ++t) {
        for (int s = 0; s < 3; ++s) {
            qk::solver::bc_periodic bc;
            bc.setup(all_dims(n));
            bc.add_output_variable(f.q[s]);
            RATE rate(proto);
            rate.add_input_variable(f.q[s]);
            rate.add_output_variable(f.r);
            bc.solve(f.mgr);
            f.reset.solve(f.mgr);
            rate.solve(f.mgr);
            f.rk.solve(f.mgr, s);
        }
        f.swap_in();
    }
    for (int k = 0; k < comps; ++k) qkv_check_eq(f.after(f.q[0], k), f.before(k), "total-conserved-by-the-step");
    qkv_reach("end");
}
QKV_HARNESS(gas)
{
    qk::solver::euler e;
    e.setup(qkv_real("gamma", 0, 1.2, 1.8));
    periodic_step(e, 3, 5, EULER_LO, EULER_HI);
}
QKV_HARNESS(field)
{
    qk::solver::maxwell e;
    e.setup(qkv_real("c", 0, 0.5, 2));
    periodic_step(e, 2, 6, EM_LO, EM_HI);
}
// one stage in a box closed by walls in one dimension: no mass or energy leaves, nor momentum along the wall (free slip)
template<class WALL> static void closed_box(bool slip)
{
    int n = qkv_pick("n", 1, 2), wall = qkv_pick("wall", 0, n - 1);
    qk::solver::euler e;
    e.setup(qkv_real("gamma", 0, 1.2, 1.8));
    fields f(n, 5, EULER_LO, EULER_HI);
    WALL w;
    w.setup(std::vector<int>(1, wall));
    w.add_output_variable(f.q[0]);
    qk::solver::bc_periodic bc;
    std::vector<int> rest;
    for (int d = 0; d < n; ++d) if (d != wall) rest.push_back(d);
    bc.setup(rest);
    bc.add_output_variable(f.q[0]);
    e.add_input_variable(f.q[0]);
    e.add_output_variable(f.r);
    w.solve(f.mgr);
    bc.solve(f.mgr);
    f.reset.solve(f.mgr);
    e.solve(f.mgr);
    f.rk.solve(f.mgr, 0);
    for (int k = 0; k < 5; ++k)
        if (k == 0 || k == 4 || (slip && k != 1 + wall))
            qkv_check_eq(f.after(f.q[1], k), f.before(k), k == 0 ? "walls-keep-the-mass" : (k == 4 ? "walls-keep-the-energy" : "no-friction"));
    qkv_reach("end");
}
QKV_HARNESS(noSlipBox) { closed_box<qk::solver::bc_no_slip>(false); }
QKV_HARNESS(freeSlipBox) { closed_box<qk::solver::bc_free_slip>(true); }
QKV_HARNESS(advection)
{
    int n = qkv_pick("n", 1, 3), steps = qkv_pick("steps", 1, n == 1 ? 2 : 1);
    static const double lo[2] = {-2, -2}, hi[2] = {2, 2};
    int comps = qkv_pick("comps", 1, 2);
    fields f(n, comps, lo, hi);
    std::vector<double> v;
    for (int d = 0; d < n; ++d) {
        v.push_back(qkv_real("v", d, -1, 1));
        qkv_assume(v[d] != 0);
    }
    qk::solver::ssprk2_advection a;
    a.setup(v);
    a.add_input_variable(f.q[0]);
    a.add_output_variable(f.q[1]);
    a.add_output_variable(f.q[3]);
    for (int t = 0; t < steps; ++t) {
        for (int s = 0; s < 2; ++s) {
            qk::solver::bc_periodic bc;
            bc.setup(all_dims(n));
            bc.add_output_variable(f.q[s]);
            bc.solve(f.mgr);
            a.solve(f.mgr, s);
        }
        f.swap_in();
    }
    for (int k = 0; k < comps; ++k) qkv_check_eq(f.after(f.q[0], k), f.before(k), "total-conserved-by-the-step");
    qkv_reach("end");
}
