// C14: what the field does to the fluids it pays for: energy leaving the field through the
// currents is the energy the Lorentz force gives to the fluids, and the magnetic field does no work.
#define QKV_LARGE 270, 23, 17, 11, 7, 5
#include "phys.h"
#include "lib/exception.h"
#include "solver/current_source.h"
#include "solver/lorentz_force.h"

QKV_HARNESS(energyExchange)
{
    int n = qkv_pick("n", 1, 3);
    int species = qkv_pick("species", 1, 2);
    mesh_t g = std_mesh(n, species == 2);
    double eps0 = qkv_real("eps0", 0, 0.5, 3);
    qkv_assume(eps0 > 0);
    std::vector<double> charges, masses;
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    vid_t e = field_id("e", 6), re = field_id("re", 6);
    vid_t f[2] = {field_id("f0", 5), field_id("f1", 5)};
    vid_t rf[2] = {field_id("rf0", 5), field_id("rf1", 5)};
    const char * nm[2] = {"f0", "f1"}, * rn[2] = {"rf0", "rf1"};
    chunk_t & ce = chunk_of(mgr, e);
    chunk_t & cre = chunk_of(mgr, re);
    load_h(ce, g, 6, "e", EM_LO, EM_HI);
    int p[5];
    // the rates already hold other contributions
    load_h(cre, g, 6, "re", EM_LO, EM_HI);
    qk::solver::current_source cs;
    for (int i = 0; i < species; ++i) {
        charges.push_back(qkv_real("charge", i, -3, 3));
        masses.push_back(qkv_real("mass", i, 0.5, 3));
        qkv_assume(masses[i] > 0);
        load_h(chunk_of(mgr, f[i]), g, 5, nm[i], EULER_LO, EULER_HI);
        chunk_t & x = chunk_of(mgr, rf[i]);
        load_h(x, g, 5, rn[i], EM_LO, EM_HI);
        qk::solver::lorentz_force s;
        s.setup(charges[i], masses[i]);
        s.add_input_variable(f[i]);
        s.add_input_variable(e);
        s.add_output_variable(rf[i]);
        s.solve(mgr);
        cs.add_input_variable(f[i]);
    }
    cs.setup(eps0, charges, masses);
    cs.add_output_variable(re);
    cs.solve(mgr);
    begin(g.m, p);
    do {
        double fluid = 0, field = 0;
        for (int i = 0; i < species; ++i) {
            chunk_t & x = chunk_of(mgr, rf[i]);
            double de = at(x, g, p, 4) - orig_h(g, p, 5, 4, rn[i], EM_LO, EM_HI);
            fluid += de;
            // rate of kinetic energy p.dp/dt / rho is the rate of total energy: B does no work
            double w = 0, rho = orig_h(g, p, 5, 0, nm[i], EULER_LO, EULER_HI);
            for (int c = 0; c < 3; ++c)
                w += orig_h(g, p, 5, 1 + c, nm[i], EULER_LO, EULER_HI) * (at(x, g, p, 1 + c) - orig_h(g, p, 5, 1 + c, rn[i], EM_LO, EM_HI));
            qkv_assume(rho > 0);
            qkv_check_eq(w / rho, de, "magnetic-field-does-no-work");
        }
        for (int c = 0; c < 3; ++c) field += eps0 * orig_h(g, p, 6, c, "e", EM_LO, EM_HI) * (at(cre, g, p, c) - orig_h(g, p, 6, c, "re", EM_LO, EM_HI));
        qkv_check_eq(fluid + field, 0., "energy-exchange-balances");
    } while (step(g.m, p));
    qkv_reach("end");
}
