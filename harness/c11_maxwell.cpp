// C11: the field solver advances Maxwell's curl equations with limited Rusanov fluxes.
#define QKV_LARGE 70, 11, 9, 6, 4, 5
#include "phys.h"
#include "solver/maxwell.h"

QKV_HARNESS(rusanov)
{
    int n = qkv_pick("n", 1, 3);
    mesh_t g = std_mesh(n, true);
    double c0 = qkv_real("c", 0, -3, 3);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    mgr.set_dt(qkv_real("dt", 0, 0.1, 1));
    vid_t q = field_id("q", 6), r = field_id("r", 6), o = field_id("o", 6);
    chunk_t & cq = chunk_of(mgr, q);
    chunk_t & cr = chunk_of(mgr, r);
    chunk_t & co = chunk_of(mgr, o);
    load_h(cq, g, 6, "q", EM_LO, EM_HI);
    load(cr, g, 6, "r");
    load(co, g, 6, "o");
    qk::solver::maxwell s;
    s.setup(c0);
    s.add_input_variable(q);
    s.add_output_variable(r);
    s.solve(mgr);
    int p[5];
    begin(g.m, p);
    do {
        double want[6];
        for (int c = 0; c < 6; ++c) want[c] = orig(g, p, 6, c, "r");
        for (int d = 0; d < n; ++d)
            for (int side = 0; side < 2; ++side) {
                double ql[6], qr[6], F[6];
                for (int c = 0; c < 6; ++c) {
                    double v[4];
                    int t[5];
                    for (int i = 0; i < n; ++i) t[i] = p[i];
                    for (int j = 0; j < 4; ++j) {
                        t[d] = p[d] - 2 + side + j;
                        v[j] = orig_h(g, t, 6, c, "q", EM_LO, EM_HI);
                    }
                    face(v[0], v[1], v[2], v[3], ql[c], qr[c]);
                }
                maxwell_flux(d, c0, ql, qr, F);
                for (int c = 0; c < 6; ++c)
                    if (side == 0) want[c] += F[c] / g.dx(d);
                    else want[c] -= F[c] / g.dx(d);
            }
        for (int c = 0; c < 6; ++c)
            qkv_check_eq(at(cr, g, p, c), want[c], c < 3 ? "electric-rate" : "magnetic-rate");
    } while (step(g.m, p));
    unchanged_h(cq, g, 6, "q", EM_LO, EM_HI, "state-not-modified");
    unchanged(co, g, 6, "o", "other-variables-untouched");
    qkv_reach("end");
}

QKV_HARNESS(conservation)
{
    int n = qkv_pick("n", 1, 3);
    mesh_t g = fv_mesh(n);
    double c0 = qkv_real("c", 0, -3, 3);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    vid_t q = field_id("q", 6), r = field_id("r", 6);
    chunk_t & cq = chunk_of(mgr, q);
    chunk_t & cr = chunk_of(mgr, r);
    load_periodic(cq, g, 6, "q", EM_LO, EM_HI);
    load(cr, g, 6, "r");
    qk::solver::maxwell s;
    s.setup(c0);
    s.add_input_variable(q);
    s.add_output_variable(r);
    s.solve(mgr);
    double sum[6] = {0, 0, 0, 0, 0, 0};
    int p[5];
    begin(g.m, p);
    do {
        for (int c = 0; c < 6; ++c) sum[c] += at(cr, g, p, c) - orig(g, p, 6, c, "r");
    } while (step(g.m, p));
    for (int c = 0; c < 6; ++c) qkv_check_eq(sum[c], 0., c < 3 ? "total-electric-field" : "total-magnetic-field");
    qkv_reach("end");
}

QKV_HARNESS(uniformField)
{
    int n = qkv_pick("n", 1, 3);
    mesh_t g = fv_mesh(n);
    double c0 = qkv_real("c", 0, -3, 3);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    vid_t q = field_id("q", 6), r = field_id("r", 6);
    chunk_t & cq = chunk_of(mgr, q);
    chunk_t & cr = chunk_of(mgr, r);
    load_uniform(cq, g, 6, "q", EM_LO, EM_HI);
    load(cr, g, 6, "r");
    qk::solver::maxwell s;
    s.setup(c0);
    s.add_input_variable(q);
    s.add_output_variable(r);
    s.solve(mgr);
    unchanged_in(g.m, cr, g, 6, "r", "uniform-field-has-no-rate-of-change");
    qkv_reach("end");
}
