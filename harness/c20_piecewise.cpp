// C20: the shock-tube set-ups are the Riemann problems they are named after.
#include "ic.h"
#include "solver/brio_wu_shock_tube.h"
#include "solver/radial_shock_tube.h"
#include "solver/shock_tube.h"

QKV_HARNESS(planar)
{
    int n = qkv_pick("n", 1, 3);
    mesh_t g = ic_mesh(n);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    vid_t a = field_id("a", 5), b = field_id("b", 5), o = field_id("o", 5);
    chunk_t * ch[2] = {&chunk_of(mgr, a), &chunk_of(mgr, b)};
    chunk_t & co = chunk_of(mgr, o);
    load(*ch[0], g, 5, "a");
    load(*ch[1], g, 5, "b");
    load(co, g, 5, "o");
    qk::solver::shock_tube s;
    double rj = 0.125, pj = 0.1, gamma = 1.4;
    if (qkv_pick("setup", 0, 1)) {
        rj = qkv_real("rho", 0, 0.1, 3);
        pj = qkv_real("P", 0, 0.1, 3);
        gamma = qkv_real("gamma", 0, 1.2, 1.8);
        qkv_assume(gamma > 1);
        s.setup(rj, pj, gamma);
    }
    int outs = qkv_pick("outs", 1, 2);
    s.add_output_variable(a);
    if (outs == 2) s.add_output_variable(b);
    s.solve(mgr);
    for (int v = 0; v < outs; ++v) {
        int p[5];
        begin(g.m, p);
        do {
            double x[3];
            centre(g, p, x);
            bool left = x[0] < 0;
            qkv_check_eq(at(*ch[v], g, p, 0), left ? 1. : rj, "density");
            qkv_check_eq((gamma - 1.) * at(*ch[v], g, p, 4), left ? 1. : pj, "pressure");
            for (int c = 1; c < 4; ++c) qkv_check_eq(at(*ch[v], g, p, c), 0., "at-rest");
        } while (step(g.m, p));
    }
    if (outs == 1) unchanged(*ch[1], g, 5, "b", "other-variables-untouched");
    unchanged(co, g, 5, "o", "other-variables-untouched");
    qkv_reach("end");
}
QKV_HARNESS(radial)
{
    int n = qkv_pick("n", 1, 3);
    mesh_t g = ic_mesh(n);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    vid_t a = field_id("a", 5), o = field_id("o", 5);
    chunk_t & ch = chunk_of(mgr, a);
    chunk_t & co = chunk_of(mgr, o);
    load(ch, g, 5, "a");
    load(co, g, 5, "o");
    qk::solver::radial_shock_tube s;
    double R = 0.125, rj = 0.125, pj = 0.1, gamma = 1.4, c3[3] = {0, 0, 0};
    int set = qkv_pick("setup", 0, 2);          // 0 defaults, 1 no centre, 2 centre of any length
    if (set > 0) {
        R = qkv_real("R", 0, 0.3, 2);
        rj = qkv_real("rho", 0, 0.1, 3);
        pj = qkv_real("P", 0, 0.1, 3);
        gamma = qkv_real("gamma", 0, 1.2, 1.8);
        qkv_assume(gamma > 1);
        if (set == 2) {
            std::vector<double> centre;
            int l = qkv_pick("clen", n, 3);
            for (int i = 0; i < l; ++i) {
                double v = qkv_real("c", i, -1, 1);
                centre.push_back(v);
                // a coordinate the mesh does not have does not exist
                if (i < n) c3[i] = v; else qkv_assume(v == 0);
            }
            s.setup(R, rj, pj, gamma, centre);
        } else s.setup(R, rj, pj, gamma);
    }
    s.add_output_variable(a);
    s.solve(mgr);
    box all = ghosted(g, 2);
    int p[5];
    begin(all, p);
    do {
        double x[3], r2 = 0;
        centre(g, p, x);
        for (int d = 0; d < n; ++d) r2 += (x[d] - c3[d]) * (x[d] - c3[d]);
        bool in = r2 < R * R;
        qkv_check_eq(at(ch, g, p, 0), in ? 1. : rj, "density");
        qkv_check_eq((gamma - 1.) * at(ch, g, p, 4), in ? 1. : pj, "pressure");
        for (int c = 1; c < 4; ++c) qkv_check_eq(at(ch, g, p, c), 0., "at-rest");
    } while (step(all, p));
    unchanged(co, g, 5, "o", "other-variables-untouched");
    qkv_reach("end");
}
QKV_HARNESS(brioWu)
{
    int n = qkv_pick("n", 1, 3);
    mesh_t g = ic_mesh(n);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    vid_t e = field_id("e", 5), i = field_id("i", 5), f = field_id("f", 6), o = field_id("o", 5);
    chunk_t & ce = chunk_of(mgr, e);
    chunk_t & ci = chunk_of(mgr, i);
    chunk_t & cf = chunk_of(mgr, f);
    chunk_t & co = chunk_of(mgr, o);
    load(ce, g, 5, "e");
    load(ci, g, 5, "i");
    load(cf, g, 6, "f");
    load(co, g, 5, "o");
    qk::solver::brio_wu_shock_tube s;
    double gamma = 2, me = 0.04, mi = 1, nl = 1, nr = 0.125, Pl = 1, Pr = 0.1, Bx = 0.75, By = 1;
    if (qkv_pick("setup", 0, 1)) {
        gamma = qkv_real("gamma", 0, 1.2, 1.8);
        me = qkv_real("me", 0, 0.1, 1);
        mi = qkv_real("mi", 0, 1, 2);
        nl = qkv_real("nl", 0, 1, 2);
        nr = qkv_real("nr", 0, 0.1, 1);
        Pl = qkv_real("Pl", 0, 1, 2);
        Pr = qkv_real("Pr", 0, 0.1, 1);
        Bx = qkv_real("Bx", 0, -2, 2);
        By = qkv_real("By", 0, -2, 2);
        qkv_assume(gamma > 1);
        qkv_assume(me > 0);
        s.setup(gamma, me, mi, nl, nr, Pl, Pr, Bx, By);
    }
    s.add_output_variable(e);
    s.add_output_variable(i);
    s.add_output_variable(f);
    s.solve(mgr);
    int p[5];
    begin(g.m, p);
    do {
        double x[3];
        centre(g, p, x);
        bool left = x[0] < 0;
        qkv_check_eq(at(ce, g, p, 0), me * (left ? nl : nr), "electron-density");
        qkv_check_eq(at(ci, g, p, 0), mi * (left ? nl : nr), "ion-density");
        qkv_check_eq((gamma - 1.) * at(ce, g, p, 4), left ? Pl : Pr, "electron-pressure");
        qkv_check_eq((gamma - 1.) * at(ci, g, p, 4), left ? Pl : Pr, "ion-pressure");
        for (int c = 1; c < 4; ++c) {
            qkv_check_eq(at(ce, g, p, c), 0., "at-rest");
            qkv_check_eq(at(ci, g, p, c), 0., "at-rest");
        }
        for (int c = 0; c < 3; ++c) qkv_check_eq(at(cf, g, p, c), 0., "no-electric-field");
        qkv_check_eq(at(cf, g, p, 3), Bx, "normal-magnetic-field");
        qkv_check_eq(at(cf, g, p, 4), left ? By : -By, "transverse-magnetic-field");
        qkv_check_eq(at(cf, g, p, 5), 0., "third-magnetic-component");
    } while (step(g.m, p));
    unchanged(co, g, 5, "o", "other-variables-untouched");
    qkv_reach("end");
}
