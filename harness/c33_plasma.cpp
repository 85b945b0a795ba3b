// C33: one step of a two-fluid plasma, composed as the drivers do, obeys the global balances.
#include "phys.h"
#include "solver/bc_periodic.h"
#include "solver/current_source.h"
#include "solver/euler.h"
#include "solver/fill.h"
#include "solver/lorentz_force.h"
#include "solver/maxwell.h"
#include "solver/rk1.h"

static const char * NM[9] = {"e", "i", "f", "e1", "i1", "f1", "re", "ri", "rf"};
static const int COMPS[3] = {5, 5, 6};
struct plasma {
    mesh_t g;
    int n;
    qk::grid::rectilinear grid;
    manager_t mgr;
    vid_t id[9];
    plasma(const mesh_t & m) : g(m), n(m.n()), grid(grid_of(g)), mgr(grid)
    {
        for (int v = 0; v < 9; ++v) {
            id[v] = field_id(NM[v], COMPS[v % 3]);
            const bool em = v % 3 == 2;
            load_h(chunk_of(mgr, id[v]), g, COMPS[v % 3], NM[v], em ? EM_LO : EULER_LO, em ? EM_HI : EULER_HI);
        }
        mgr.set_dt(qkv_real("dt", 0, 0.01, 0.02));
    }
    double first(int v, const int * p, int k) { return orig_h(g, p, COMPS[v], k, NM[v], v == 2 ? EM_LO : EULER_LO, v == 2 ? EM_HI : EULER_HI); }
    double before(int v, int k)
    {
        double s = 0;
        int p[5];
        begin(g.m, p);
        do { s += first(v, p, k); } while (step(g.m, p));
        return s;
    }
    double after(int v, int k)
    {
        double s = 0;
        int p[5];
        chunk_t & c = chunk_of(mgr, id[3 + v]);
        begin(g.m, p);
        do { s += at(c, g, p, k); } while (step(g.m, p));
        return s;
    }
};
QKV_HARNESS(balances)
{
    int n = qkv_pick("n", 1, qkv_bound(2, 3));
    int lmax[3] = {n == 1 ? qkv_bound(3, 4) : 2, 2, 2};
    plasma s(any_mesh3(n, lmax, 2));
    double q[2], m[2], eps = qkv_real("eps", 0, 0.5, 2);
    for (int k = 0; k < 2; ++k) {
        q[k] = qkv_real("q", k, k ? 0.5 : -2, k ? 2 : -0.5);
        m[k] = qkv_real("m", k, 0.5, 2);
        qkv_assume(m[k] > 0);
    }
    qkv_assume(eps > 0);
    double dt = s.mgr.dt();
    std::vector<int> dims;
    for (int d = 0; d < n; ++d) dims.push_back(d);
    qk::solver::bc_periodic bc;
    bc.setup(dims);
    qk::solver::fill reset;
    reset.setup(0.);
    for (int v = 0; v < 3; ++v) { bc.add_output_variable(s.id[v]); reset.add_output_variable(s.id[6 + v]); }
    qk::solver::euler eu;
    eu.setup(qkv_real("gamma", 0, 1.2, 1.8));
    qk::solver::maxwell mx;
    mx.setup(qkv_real("c", 0, 0.5, 2));
    mx.add_input_variable(s.id[2]);
    mx.add_output_variable(s.id[8]);
    qk::solver::current_source cs;
    cs.setup(eps, std::vector<double>(q, q + 2), std::vector<double>(m, m + 2));
    cs.add_output_variable(s.id[8]);
    bc.solve(s.mgr);
    reset.solve(s.mgr);
    int order = qkv_pick("order", 0, 1);
    for (int part = 0; part < 2; ++part) {
        if (part == order)
            for (int k = 0; k < 2; ++k) {
                qk::solver::euler e(eu);
                e.add_input_variable(s.id[k]);
                e.add_output_variable(s.id[6 + k]);
                e.solve(s.mgr);
            }
        else
            for (int k = 0; k < 2; ++k) {
                qk::solver::lorentz_force l;
                l.setup(q[k], m[k]);
                l.add_input_variable(s.id[k]);
                l.add_input_variable(s.id[2]);
                l.add_output_variable(s.id[6 + k]);
                l.solve(s.mgr);
                cs.add_input_variable(s.id[k]);
            }
    }
    mx.solve(s.mgr);
    cs.solve(s.mgr);
    for (int v = 0; v < 3; ++v) {
        qk::solver::rk1 rk;
        rk.add_input_variable(s.id[v]);
        rk.add_input_variable(s.id[6 + v]);
        rk.add_output_variable(s.id[3 + v]);
        rk.solve(s.mgr);
    }
    // the totals, from the state before the step
    double work[2] = {0, 0}, force[2][3] = {{0, 0, 0}, {0, 0, 0}};
    int p[5];
    begin(s.g.m, p);
    do {
        for (int k = 0; k < 2; ++k) {
            double E[3], B[3], P[3];
            for (int d = 0; d < 3; ++d) { E[d] = s.first(2, p, d); B[d] = s.first(2, p, 3 + d); P[d] = s.first(k, p, 1 + d); work[k] += P[d] * E[d]; }
            for (int d = 0; d < 3; ++d) {
                int a = (d + 1) % 3, b = (d + 2) % 3;
                force[k][d] += s.first(k, p, 0) * E[d] + P[a] * B[b] - P[b] * B[a];
            }
        }
    } while (step(s.g.m, p));
    for (int k = 0; k < 2; ++k) {
        qkv_check_eq(s.after(k, 0), s.before(k, 0), "mass-of-each-species-conserved");
        for (int d = 0; d < 3; ++d)
            qkv_check_eq(s.after(k, 1 + d) - s.before(k, 1 + d), dt * (q[k] / m[k]) * force[k][d], "momentum-changes-by-the-force");
        qkv_check_eq(s.after(k, 4) - s.before(k, 4), dt * (q[k] / m[k]) * work[k], "energy-changes-by-the-work");
    }
    for (int d = 0; d < 3; ++d) {
        double J = 0;
        for (int k = 0; k < 2; ++k) J += (q[k] / m[k]) * s.before(k, 1 + d);
        qkv_check_eq(s.after(2, d) - s.before(2, d), -dt * J / eps, "electric-field-changes-by-the-current");
        qkv_check_eq(s.after(2, 3 + d), s.before(2, 3 + d), "magnetic-flux-conserved");
    }
    qkv_reach("end");
}
