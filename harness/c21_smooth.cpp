// C21: the smooth set-ups are the functions of position they are named after.
#include "ic.h"
#include "solver/electromagnetic_wave_1D.h"
#include "solver/gaussian.h"
#include "solver/gem_challenge.h"
#include "solver/magnetic_pulse.h"

QKV_HARNESS(gaussian)
{
    int n = qkv_pick("n", 1, 3);
    mesh_t g = ic_mesh(n);
    int comps = qkv_pick("comps", 1, 2);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    vid_t a = field_id("a", comps), b = field_id("b", comps), o = field_id("o", 2);
    chunk_t * ch[2] = {&chunk_of(mgr, a), &chunk_of(mgr, b)};
    chunk_t & co = chunk_of(mgr, o);
    load(*ch[0], g, comps, "a");
    load(*ch[1], g, comps, "b");
    load(co, g, 2, "o");
    double A = qkv_real("A", 0, -2, 2), sd = qkv_real("sd", 0, 0.5, 2);
    qkv_assume(sd > 0);
    std::vector<double> avg;
    // the centre may be given with fewer or more coordinates than the mesh has; missing ones are zero
    int given = qkv_pick("given", 0, 3);
    for (int i = 0; i < given; ++i) avg.push_back(qkv_real("avg", i, -1, 1));
    qk::solver::gaussian s;
    s.setup(A, avg, sd);
    int outs = qkv_pick("outs", 1, 2);
    s.add_output_variable(a);
    if (outs == 2) s.add_output_variable(b);
    s.solve(mgr);
    box all = ghosted(g, 2);
    for (int v = 0; v < outs; ++v) {
        int p[5];
        begin(all, p);
        do {
            double x[3], w = 0;
            centre(g, p, x);
            for (int d = 0; d < 3; ++d) {
                double y = (d < n ? x[d] : 0.) - (d < given ? avg[d] : 0.);
                w += y * y / (sd * sd);
            }
            for (int c = 0; c < comps; ++c) qkv_check_eq(at(*ch[v], g, p, c), A * std::exp(-w), "gaussian");
        } while (step(all, p));
    }
    if (outs == 1) unchanged(*ch[1], g, comps, "b", "other-variables-untouched");
    unchanged(co, g, 2, "o", "other-variables-untouched");
    qkv_reach("end");
}
QKV_HARNESS(magneticPulse)
{
    int n = qkv_pick("n", 1, 3);
    mesh_t g = ic_mesh(n);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    vid_t a = field_id("a", 6), o = field_id("o", 2);
    chunk_t & ch = chunk_of(mgr, a);
    chunk_t & co = chunk_of(mgr, o);
    load(ch, g, 6, "a");
    load(co, g, 2, "o");
    double A = qkv_real("A", 0, -2, 2), sd = qkv_real("sd", 0, 0.5, 2);
    qkv_assume(sd > 0);
    qk::solver::magnetic_pulse s;
    s.setup(A, sd);
    s.add_output_variable(a);
    s.solve(mgr);
    box all = ghosted(g, 2);
    int p[5];
    begin(all, p);
    do {
        double x[3], r2 = 0;
        centre(g, p, x);
        for (int d = 0; d < n; ++d) r2 += x[d] * x[d];
        for (int c = 0; c < 5; ++c) qkv_check_eq(at(ch, g, p, c), 0., "only-Bz");
        qkv_check_eq(at(ch, g, p, 5), A * std::exp(-0.5 * r2 / sd), "pulse");
    } while (step(all, p));
    unchanged(co, g, 2, "o", "other-variables-untouched");
    qkv_reach("end");
}
QKV_HARNESS(wave)
{
    int n = qkv_pick("n", 1, 3);
    mesh_t g = ic_mesh(n);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    vid_t a = field_id("a", 6), o = field_id("o", 2);
    chunk_t & ch = chunk_of(mgr, a);
    chunk_t & co = chunk_of(mgr, o);
    load(ch, g, 6, "a");
    load(co, g, 2, "o");
    int d = qkv_pick("dim", 0, 2);      // a coordinate the mesh does not have is zero
    double c = qkv_real("c", 0, 0.5, 2), k = qkv_real("k", 0, 0.5, 3), B[3];
    for (int i = 0; i < 3; ++i) B[i] = qkv_real("B", i, -2, 2);
    qk::solver::electromagnetic_wave_1D s;
    s.setup(d, c, k, B[0], B[1], B[2]);
    s.add_output_variable(a);
    s.solve(mgr);
    int u = (d + 1) % 3, v = (d + 2) % 3;
    box all = ghosted(g, 2);
    int p[5];
    begin(all, p);
    do {
        double x[3];
        centre(g, p, x);
        double w = std::sin(k * (d < n ? x[d] : 0.));
        // a wave running in +d: E = c B x d
        qkv_check_eq(at(ch, g, p, d), 0., "E-is-transverse");
        qkv_check_eq(at(ch, g, p, u), c * B[v] * w, "E-belongs-to-B");
        qkv_check_eq(at(ch, g, p, v), -c * B[u] * w, "E-belongs-to-B");
        qkv_check_eq(at(ch, g, p, 3 + d), B[d], "uniform-background");
        qkv_check_eq(at(ch, g, p, 3 + u), B[u] * w, "B-wave");
        qkv_check_eq(at(ch, g, p, 3 + v), B[v] * w, "B-wave");
    } while (step(all, p));
    unchanged(co, g, 2, "o", "other-variables-untouched");
    qkv_reach("end");
}
QKV_HARNESS(gem)
{
    int n = qkv_pick("n", 1, 3);
    mesh_t g = ic_mesh(n);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    vid_t e = field_id("e", 5), i = field_id("i", 5), f = field_id("f", 6), o = field_id("o", 2);
    chunk_t & ce = chunk_of(mgr, e);
    chunk_t & ci = chunk_of(mgr, i);
    chunk_t & cf = chunk_of(mgr, f);
    chunk_t & co = chunk_of(mgr, o);
    load(ce, g, 5, "e");
    load(ci, g, 5, "i");
    load(cf, g, 6, "f");
    load(co, g, 2, "o");
    double lambda = qkv_real("lambda", 0, 0.5, 2), Lx = qkv_real("Lx", 0, 2, 4), n0 = qkv_real("n0", 0, 1, 2), n1 = qkv_real("n1", 0, 0.2, 1);
    double gamma = qkv_real("gamma", 0, 1.2, 1.8), B0 = qkv_real("B0", 0, 0.5, 2);
    double q[2], m[2], T[2];
    for (int k = 0; k < 2; ++k) {
        q[k] = qkv_real("q", k, 0.5, 2);
        m[k] = qkv_real("m", k, 0.5, 2);
        T[k] = qkv_real("T", k, 0.5, 2);
        qkv_assume(m[k] > 0);
        qkv_assume(q[k] != 0);
    }
    qkv_assume(lambda > 0); qkv_assume(Lx > 0); qkv_assume(n0 > 0); qkv_assume(n1 > 0); qkv_assume(gamma > 1); qkv_assume(B0 != 0);
    qk::solver::gem_challenge s;
    s.setup(lambda, Lx, n0, n1, gamma, q[0], m[0], 0., T[0], q[1], m[1], 0., T[1], B0);
    s.add_output_variable(e);
    s.add_output_variable(i);
    s.add_output_variable(f);
    s.solve(mgr);
    const double kx = M_PI / Lx, ky = 2 * M_PI / (2 * Lx);
    box all = ghosted(g, 2);
    int p[5];
    begin(all, p);
    do {
        double x[3];
        centre(g, p, x);
        double ch = std::cosh(x[0] / lambda), sech2 = 1. / (ch * ch);
        double N = n0 * sech2 + n1;
        for (int k = 0; k < 2; ++k) {
            chunk_t & c = k ? ci : ce;
            double rho = at(c, g, p, 0), pz = at(c, g, p, 3);
            qkv_check_eq(rho, m[k] * N, "harris-sheet-density");
            qkv_check_eq(at(c, g, p, 1), 0., "no-in-plane-flow");
            qkv_check_eq(at(c, g, p, 2), 0., "no-in-plane-flow");
            // the drift that carries the sheet current: n u = n0 sech^2 * 2T/(q lambda B0)
            qkv_check_eq(pz, m[k] * n0 * sech2 * 2 * T[k] / q[k] / lambda / B0, "sheet-current");
            qkv_check_eq(at(c, g, p, 4), N * T[k] / (gamma - 1.) + 0.5 * (pz * pz) / rho, "pressure-and-kinetic-energy");
        }
        for (int k = 0; k < 3; ++k) qkv_check_eq(at(cf, g, p, k), 0., "no-electric-field");
        qkv_check_eq(at(cf, g, p, 3), 0.1 * B0 * ky * std::cos(kx * x[0]) * std::sin(ky * x[1]), "perturbed-Bx");
        qkv_check_eq(at(cf, g, p, 4), B0 * std::tanh(x[0] / lambda) - 0.1 * B0 * kx * std::sin(kx * x[0]) * std::cos(ky * x[1]), "sheet-By");
        qkv_check_eq(at(cf, g, p, 5), 0., "no-guide-field");
    } while (step(all, p));
    unchanged(co, g, 2, "o", "other-variables-untouched");
    qkv_reach("end");
}
