// C12: charged fluids feel the Lorentz force.
#define QKV_LARGE 270, 23, 17, 11, 7, 5
#include "phys.h"
#include "solver/lorentz_force.h"

QKV_HARNESS(lorentz)
{
    int n = qkv_pick("n", 1, 3);
    mesh_t g = std_mesh(n, true);
    double charge = qkv_real("charge", 0, -3, 3), mass = qkv_real("mass", 0, 0.5, 3);
    qkv_assume(mass > 0);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    mgr.set_dt(qkv_real("dt", 0, 0.1, 1));
    vid_t f = field_id("fluid", 5), e = field_id("field", 6), r = field_id("r", 5), o = field_id("o", 5);
    chunk_t & cf = chunk_of(mgr, f);
    chunk_t & ce = chunk_of(mgr, e);
    chunk_t & cr = chunk_of(mgr, r);
    chunk_t & co = chunk_of(mgr, o);
    load_h(cf, g, 5, "f", EULER_LO, EULER_HI);
    load_h(ce, g, 6, "e", EM_LO, EM_HI);
    load(cr, g, 5, "r");
    load(co, g, 5, "o");
    qk::solver::lorentz_force s;
    s.setup(charge, mass);
    s.add_input_variable(f);
    s.add_input_variable(e);
    s.add_output_variable(r);
    s.solve(mgr);
    double com = charge / mass;
    int p[5];
    begin(g.m, p);
    do {
        double q[5], E[6];
        for (int c = 0; c < 5; ++c) q[c] = orig_h(g, p, 5, c, "f", EULER_LO, EULER_HI);
        for (int c = 0; c < 6; ++c) E[c] = orig_h(g, p, 6, c, "e", EM_LO, EM_HI);
        double work = 0;
        qkv_check_eq(at(cr, g, p, 0) - orig(g, p, 5, 0, "r"), 0., "no-mass-source");
        for (int i = 0; i < 3; ++i) {
            int j = (i + 1) % 3, k = (i + 2) % 3;
            double force = com * (q[0] * E[i] + q[1 + j] * E[3 + k] - q[1 + k] * E[3 + j]);
            qkv_check_eq(at(cr, g, p, 1 + i) - orig(g, p, 5, 1 + i, "r"), force, "lorentz-force");
            work += com * q[1 + i] * E[i];
        }
        qkv_check_eq(at(cr, g, p, 4) - orig(g, p, 5, 4, "r"), work, "work-of-the-electric-field");
    } while (step(g.m, p));
    unchanged_h(cf, g, 5, "f", EULER_LO, EULER_HI, "fluid-not-modified");
    unchanged_h(ce, g, 6, "e", EM_LO, EM_HI, "field-not-modified");
    unchanged(co, g, 5, "o", "other-variables-untouched");
    qkv_reach("end");
}
