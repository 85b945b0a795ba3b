// C15: the Runge-Kutta combinators perform exactly one strong-stability-preserving stage.
#define QKV_LARGE 1100, 23, 17, 11, 7, 5
#include "phys.h"
#include "solver/ssprk3.h"
#include "solver/rk1.h"

static void zero(chunk_t & ch, const mesh_t & g, int comps)
{
    box b = ghosted(g, ch.num_ghost_layers());
    int p[5];
    begin(b, p);
    do { for (int c = 0; c < comps; ++c) at(ch, g, p, c) = 0; } while (step(b, p));
}

QKV_HARNESS(stages)
{
    int n = qkv_pick("n", 1, 3), comps = any_comps(2);
    mesh_t g = std_mesh(n, comps == 1);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    double dt = qkv_real("dt", 0, 0.1, 1);
    mgr.set_dt(dt);
    vid_t q[4] = {field_id("q0", comps), field_id("q1", comps), field_id("q2", comps), field_id("q3", comps)};
    vid_t r = field_id("r", comps), o = field_id("o", comps);
    const char * nm[4] = {"q0", "q1", "q2", "q3"};
    qk::solver::ssprk3 s;
    s.add_input_variable(q[0]);
    s.add_input_variable(r);
    for (int i = 0; i < 4; ++i) load(chunk_of(mgr, q[i]), g, comps, nm[i]);
    for (int i = 1; i < 4; ++i) s.add_output_variable(q[i]);
    load(chunk_of(mgr, r), g, comps, "r");
    load(chunk_of(mgr, o), g, comps, "o");
    int stage = qkv_pick("stage", 0, 2);
    s.solve(mgr, stage == 0 ? qk::solver::ssprk3::STAGE_0 : (stage == 1 ? qk::solver::ssprk3::STAGE_1 : qk::solver::ssprk3::STAGE_2));
    int p[5];
    begin(g.m, p);
    do {
        for (int c = 0; c < comps; ++c) {
            double n0 = orig(g, p, comps, c, "q0"), n1 = orig(g, p, comps, c, "q1"), n2 = orig(g, p, comps, c, "q2");
            double k = orig(g, p, comps, c, "r");
            double want = stage == 0 ? n0 + dt * k : (stage == 1 ? 0.75 * n0 + 0.25 * (n1 + dt * k) : (n0 + 2 * (n2 + dt * k)) / 3.);
            qkv_check_eq(at(chunk_of(mgr, q[1 + stage]), g, p, c), want, "stage-value");
        }
    } while (step(g.m, p));
    for (int i = 0; i < 4; ++i)
        if (i != 1 + stage) unchanged_in(g.m, chunk_of(mgr, q[i]), g, comps, nm[i], "other-stages-not-modified");
    unchanged_in(g.m, chunk_of(mgr, r), g, comps, "r", "rate-not-modified");
    unchanged(chunk_of(mgr, o), g, comps, "o", "other-variables-untouched");
    qkv_reach("end");
}

// all three stages: exact for rates that are constant in time, third order for linear rates
QKV_HARNESS(thirdOrder)
{
    int n = qkv_pick("n", 1, 2);
    mesh_t g = std_mesh(n);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    double dt = qkv_real("dt", 0, 0.1, 1), lam = qkv_real("lambda", 0, -1, 1), cst = qkv_real("const", 0, -1, 1);
    mgr.set_dt(dt);
    vid_t q[4] = {field_id("q0", 1), field_id("q1", 1), field_id("q2", 1), field_id("q3", 1)};
    vid_t r = field_id("r", 1);
    qk::solver::ssprk3 s;
    s.add_input_variable(q[0]);
    s.add_input_variable(r);
    load(chunk_of(mgr, q[0]), g, 1, "q0");
    for (int i = 1; i < 4; ++i) { zero(chunk_of(mgr, q[i]), g, 1); s.add_output_variable(q[i]); }
    zero(chunk_of(mgr, r), g, 1);
    int p[5];
    for (int stage = 0; stage < 3; ++stage) {
        box b = ghosted(g);
        begin(b, p);
        do { at(chunk_of(mgr, r), g, p, 0) = lam * at(chunk_of(mgr, q[stage]), g, p, 0) + cst; } while (step(b, p));
        s.solve(mgr, stage);
    }
    double z = lam * dt;
    begin(g.m, p);
    do {
        double u = orig(g, p, 1, 0, "q0");
        double want = u * (1 + z + z * z / 2 + z * z * z / 6) + cst * dt * (1 + z / 2 + z * z / 6);
        qkv_check_eq(at(chunk_of(mgr, q[3]), g, p, 0), want, "third-order-in-time");
    } while (step(g.m, p));
    qkv_reach("end");
}

QKV_HARNESS(euler1)
{
    int n = qkv_pick("n", 1, 3), comps = any_comps(2);
    mesh_t g = std_mesh(n, comps == 1);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    double dt = qkv_real("dt", 0, 0.1, 1);
    mgr.set_dt(dt);
    vid_t a = field_id("a", comps), r = field_id("r", comps), b = field_id("b", comps), o = field_id("o", comps);
    load(chunk_of(mgr, a), g, comps, "a");
    load(chunk_of(mgr, r), g, comps, "r");
    load(chunk_of(mgr, b), g, comps, "b");
    load(chunk_of(mgr, o), g, comps, "o");
    qk::solver::rk1 s;
    s.add_input_variable(a);
    s.add_input_variable(r);
    s.add_output_variable(b);
    s.solve(mgr, qk::solver::rk1::STAGE_0);
    int p[5];
    begin(g.m, p);
    do {
        for (int c = 0; c < comps; ++c)
            qkv_check_eq(at(chunk_of(mgr, b), g, p, c), orig(g, p, comps, c, "a") + dt * orig(g, p, comps, c, "r"), "forward-euler");
    } while (step(g.m, p));
    unchanged_in(g.m, chunk_of(mgr, a), g, comps, "a", "input-not-modified");
    unchanged_in(g.m, chunk_of(mgr, r), g, comps, "r", "rate-not-modified");
    unchanged(chunk_of(mgr, o), g, comps, "o", "other-variables-untouched");
    qkv_reach("end");
}
