// C09: the compressible gas solver neither creates nor destroys mass, momentum or energy,
// leaves a uniform gas at rest in its frame alone, and treats all axes alike.
#include "phys.h"
#include "solver/euler.h"

QKV_HARNESS(conservation)
{
    int n = qkv_pick("n", 1, 3);
    mesh_t g = fv_mesh(n, true);
    double gamma = qkv_real("gamma", 0, 1.2, 1.8);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    mgr.set_dt(qkv_real("dt", 0, 0.1, 1));
    vid_t q = field_id("q", 5), r = field_id("r", 5);
    chunk_t & cq = chunk_of(mgr, q);
    chunk_t & cr = chunk_of(mgr, r);
    load_periodic(cq, g, 5, "q", EULER_LO, EULER_HI);
    load(cr, g, 5, "r");
    qk::solver::euler s;
    s.setup(gamma);
    s.add_input_variable(q);
    s.add_output_variable(r);
    s.solve(mgr);
    double sum[5] = {0, 0, 0, 0, 0};
    int p[5];
    begin(g.m, p);
    do {
        for (int c = 0; c < 5; ++c) sum[c] += at(cr, g, p, c) - orig(g, p, 5, c, "r");
    } while (step(g.m, p));
    qkv_check_eq(sum[0], 0., "mass");
    qkv_check_eq(sum[1], 0., "momentum-x");
    qkv_check_eq(sum[2], 0., "momentum-y");
    qkv_check_eq(sum[3], 0., "momentum-z");
    qkv_check_eq(sum[4], 0., "energy");
    qkv_reach("end");
}

QKV_HARNESS(uniformFlow)
{
    int n = qkv_pick("n", 1, 3);
    mesh_t g = fv_mesh(n, true);
    double gamma = qkv_real("gamma", 0, 1.2, 1.8);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    mgr.set_dt(qkv_real("dt", 0, 0.1, 1));
    vid_t q = field_id("q", 5), r = field_id("r", 5);
    chunk_t & cq = chunk_of(mgr, q);
    chunk_t & cr = chunk_of(mgr, r);
    load_uniform(cq, g, 5, "q", EULER_LO, EULER_HI);
    load(cr, g, 5, "r");
    qk::solver::euler s;
    s.setup(gamma);
    s.add_input_variable(q);
    s.add_output_variable(r);
    s.solve(mgr);
    unchanged_in(g.m, cr, g, 5, "r", "uniform-flow-has-no-rate-of-change");
    qkv_reach("end");
}

// relabelling two axes relabels the result
QKV_HARNESS(axesAlike)
{
    int n = qkv_pick("n", 2, 3);
    int sw = qkv_pick("swap", 0, n == 3 ? 2 : 0);
    int a = sw == 2 ? 1 : 0, b = sw == 0 ? 1 : 2;
    int lmax[3] = {2, 2, 2};
    mesh_t g = any_mesh3(n, lmax, 1), h = g;
    h.m.up[a] = g.m.up[b]; h.m.up[b] = g.m.up[a];
    h.start[a] = g.start[b]; h.start[b] = g.start[a];
    h.width[a] = g.width[b]; h.width[b] = g.width[a];
    double gamma = qkv_real("gamma", 0, 1.2, 1.8);
    qk::grid::rectilinear gg = grid_of(g), gh = grid_of(h);
    manager_t m1(gg), m2(gh);
    vid_t q = field_id("q", 5), r = field_id("r", 5);
    chunk_t & q1 = chunk_of(m1, q);
    chunk_t & r1 = chunk_of(m1, r);
    chunk_t & q2 = chunk_of(m2, q);
    chunk_t & r2 = chunk_of(m2, r);
    load_h(q1, g, 5, "q", EULER_LO, EULER_HI);
    int p[5], pp[5];
    box all = ghosted(g);
    begin(all, p);
    do {
        for (int i = 0; i < n; ++i) pp[i] = p[i];
        pp[a] = p[b]; pp[b] = p[a];
        for (int c = 0; c < 5; ++c) {
            int cc = c == 1 + a ? 1 + b : (c == 1 + b ? 1 + a : c);
            at(q2, h, pp, cc) = at(q1, g, p, c);
            at(r1, g, p, c) = 0;
            at(r2, h, pp, cc) = 0;
        }
    } while (step(all, p));
    qk::solver::euler s;
    s.setup(gamma);
    s.add_input_variable(q);
    s.add_output_variable(r);
    s.solve(m1);
    s.solve(m2);
    begin(g.m, p);
    do {
        for (int i = 0; i < n; ++i) pp[i] = p[i];
        pp[a] = p[b]; pp[b] = p[a];
        for (int c = 0; c < 5; ++c) {
            int cc = c == 1 + a ? 1 + b : (c == 1 + b ? 1 + a : c);
            qkv_check_eq(at(r2, h, pp, cc), at(r1, g, p, c), "axes-alike");
        }
    } while (step(g.m, p));
    qkv_reach("end");
}
