// C13: fluid currents drive the electric field.
#define QKV_LARGE 270, 23, 17, 11, 7, 5
#include "phys.h"
#include "lib/exception.h"
#include "solver/current_source.h"

QKV_HARNESS(current)
{
    int n = qkv_pick("n", 1, 3);
    int species = qkv_pick("species", 0, 3);
    mesh_t g = std_mesh(n, species == 2);
    double eps0 = qkv_real("eps0", 0, 0.5, 3);
    qkv_assume(eps0 > 0);
    std::vector<double> charges, masses;
    for (int i = 0; i < species; ++i) {
        charges.push_back(qkv_real("charge", i, -3, 3));
        masses.push_back(qkv_real("mass", i, 0.5, 3));
        qkv_assume(masses[i] > 0);
    }
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    mgr.set_dt(qkv_real("dt", 0, 0.1, 1));
    vid_t f[3] = {field_id("f0", 5), field_id("f1", 5), field_id("f2", 5)};
    const char * nm[3] = {"f0", "f1", "f2"};
    vid_t r = field_id("r", 6);
    qk::solver::current_source s;
    s.setup(eps0, charges, masses);
    for (int i = 0; i < species; ++i) {
        load_h(chunk_of(mgr, f[i]), g, 5, nm[i], EULER_LO, EULER_HI);
        s.add_input_variable(f[i]);
    }
    chunk_t & cr = chunk_of(mgr, r);
    load(cr, g, 6, "r");
    s.add_output_variable(r);
    s.solve(mgr);
    int p[5];
    begin(g.m, p);
    do {
        for (int c = 0; c < 6; ++c) {
            double want = orig(g, p, 6, c, "r");
            if (c < 3)
                for (int i = 0; i < species; ++i)
                    want -= charges[i] / masses[i] / eps0 * orig_h(g, p, 5, 1 + c, nm[i], EULER_LO, EULER_HI);
            qkv_check_eq(at(cr, g, p, c), want, c < 3 ? "displacement-current" : "magnetic-field-not-driven");
        }
    } while (step(g.m, p));
    for (int i = 0; i < species; ++i)
        unchanged_h(chunk_of(mgr, f[i]), g, 5, nm[i], EULER_LO, EULER_HI, "fluids-not-modified");
    qkv_reach("end");
}
