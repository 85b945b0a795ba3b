// C19: a rectilinear grid cuts the domain into equal cells and knows where each one is.
#include "phys.h"

// symbolic index bounds: any lower bound, any number of cells
QKV_HARNESS(cells)
{
    int n = qkv_pick("n", 1, 3);
    box b;
    b.n = n;
    double start[3], width[3];
    for (int i = 0; i < n; ++i) {
        b.lo[i] = qkv_inti("lower", i, -1000, 1000);
        b.up[i] = b.lo[i] + qkv_inti("len", i, 1, 1000);
        start[i] = qkv_real("start", i, -2, 2);
        width[i] = qkv_real("width", i, 0.5, 3);
        qkv_assume(width[i] > 0);
    }
    qk::grid::rectilinear g(range_of(b), start, width);
    check_box(g, b, "mesh-range");
    check_box(g.range(), b, "mesh-range");
    for (int d = 0; d < n; ++d) {
        qkv_check_eq(g.start(d), start[d], "origin");
        qkv_check_eq(g.width(d), width[d], "extent");
        double len = b.len(d);
        qkv_check_eq(g.dx(d) * len, width[d], "cells-fill-the-extent");
        int i = qkv_inti("i", d, -1000, 2000);
        qkv_assume(i >= b.lo[d] && i < b.up[d]);
        qkv_check_eq(g.centroid(d, i), start[d] + (i + 0.5) * g.dx(d), "cell-centre");
    }
    qkv_reach("end");
}
// every cell of a field, ghosts included
QKV_HARNESS(fieldCells)
{
    int n = qkv_pick("n", 1, 3);
    int lmax[3] = {3, 2, 2};
    mesh_t g = any_mesh3(n, lmax, 1);
    int sh = qkv_pick("lower", -2, 2);
    for (int i = 0; i < n; ++i) { g.m.lo[i] += sh; g.m.up[i] += sh; }
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    vid_t q = field_id("q", qkv_pick("comps", 1, 2));
    chunk_t & ch = chunk_of(mgr, q);
    int cells = 0;
    for (qk::indexer idx = ch.indexer(); idx.exists(); idx.next()) {
        double x[3] = {7, 7, 7};
        grid.xc(idx, x);
        for (int d = 0; d < 3; ++d) {
            if (d < n) qkv_check_eq(x[d], g.start[d] + (idx[d] + 0.5) * g.dx(d), "cell-centre");
            else qkv_check_eq(x[d], 7, "only-mesh-dimensions-are-written");
        }
        ++cells;
    }
    qkv_check(cells == ch.volume(), "every-cell-visited");
    qkv_reach("end");
}
// a copied grid is the same grid; questions outside the mesh are refused
QKV_HARNESS(copiesAndRefusals)
{
    int n = qkv_pick("n", 1, 3);
    mesh_t g = any_mesh(n, 1, 2);
    qk::grid::rectilinear a = grid_of(g);
    qk::grid::rectilinear b(a), c;
    c = a;
    for (int d = 0; d < n; ++d) {
        qkv_check_eq(b.dx(d), g.dx(d), "copy");
        qkv_check_eq(c.dx(d), g.dx(d), "copy");
        qkv_check_eq(b.start(d), g.start[d], "copy");
        qkv_check_eq(c.width(d), g.width[d], "copy");
        for (int i = g.m.lo[d]; i < g.m.up[d]; ++i) qkv_check_eq(c.centroid(d, i), g.start[d] + (i + 0.5) * g.dx(d), "copy");
    }
    check_box(c, g.m, "copy");
    int d = qkv_int("d", -1000, 1000), i = qkv_int("i", -1000, 1000);
    bool dim_ok = d >= 0 && d < n;
    bool t1 = false, t2 = false, t3 = false, t4 = false;
    try { a.dx(d); } catch (qk::exception &) { t1 = true; }
    try { a.start(d); } catch (qk::exception &) { t2 = true; }
    try { a.width(d); } catch (qk::exception &) { t3 = true; }
    qkv_check(t1 == !dim_ok && t2 == !dim_ok && t3 == !dim_ok, "dimension-outside-the-mesh-refused");
    try { a.centroid(d, i); } catch (qk::exception &) { t4 = true; }
    bool ok = dim_ok && i >= g.m.lo[dim_ok ? d : 0] && i < g.m.up[dim_ok ? d : 0];
    qkv_check(t4 == !ok, "cell-outside-the-mesh-refused");
    qkv_reach("end");
}
