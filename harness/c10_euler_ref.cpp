// C10: the gas solver's rate of change is the limited finite-volume HLL discretisation.
#include "phys.h"
#include "solver/euler.h"

QKV_HARNESS(hll)
{
    int n = qkv_pick("n", 1, 3);
    mesh_t g = std_mesh(n, true);
    double gamma = qkv_real("gamma", 0, 1.2, 1.8);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    mgr.set_dt(qkv_real("dt", 0, 0.1, 1));
    vid_t q = field_id("q", 5), r = field_id("r", 5), o = field_id("o", 5);
    chunk_t & cq = chunk_of(mgr, q);
    chunk_t & cr = chunk_of(mgr, r);
    chunk_t & co = chunk_of(mgr, o);
    load_h(cq, g, 5, "q", EULER_LO, EULER_HI);
    load(cr, g, 5, "r");
    load(co, g, 5, "o");
    // reference, at one interior cell (every one in turn; ten of them on a large mesh)
    double want[5];
    int p[5], last = g.m.volume() - 1, k = last > 26 ? qkv_pick("tenth", 0, 9) * last / 9 : qkv_pick("cell", 0, last);
    begin(g.m, p);
    for (int i = 0; i < k; ++i) step(g.m, p);
    for (int c = 0; c < 5; ++c) want[c] = orig(g, p, 5, c, "r");
    for (int d = 0; d < n; ++d)
        for (int side = 0; side < 2; ++side) {
            double ql[5], qr[5], F[5];
            for (int c = 0; c < 5; ++c) {
                double v[4];
                int t[5];
                for (int i = 0; i < n; ++i) t[i] = p[i];
                for (int j = 0; j < 4; ++j) {
                    t[d] = p[d] - 2 + side + j;
                    v[j] = orig_h(g, t, 5, c, "q", EULER_LO, EULER_HI);
                }
                face(v[0], v[1], v[2], v[3], ql[c], qr[c]);
            }
            euler_flux(d, gamma, ql, qr, F, true);
            for (int c = 0; c < 5; ++c)
                if (side == 0) want[c] += F[c] / g.dx(d);
                else want[c] -= F[c] / g.dx(d);
        }
    qk::solver::euler s;
    s.setup(gamma);
    s.add_input_variable(q);
    s.add_output_variable(r);
    s.solve(mgr);
    for (int c = 0; c < 5; ++c)
        qkv_check_eq(at(cr, g, p, c), want[c], c == 0 ? "mass-rate" : (c == 4 ? "energy-rate" : "momentum-rate"));
    unchanged_h(cq, g, 5, "q", EULER_LO, EULER_HI, "state-not-modified");
    unchanged(co, g, 5, "o", "other-variables-untouched");
    qkv_reach("end");
}
