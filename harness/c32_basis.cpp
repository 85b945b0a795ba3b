// C32: a basis describes the points it holds, and fields are shaped by their basis.
#include <fstream>
#include "phys.h"
#include "basis/face_basis.h"
#include "basis/volume_average.h"

QKV_HARNESS(points)
{
    qk::basis::volume_average v;
    qkv_check(v.num_points() == 1, "one-average-per-cell");
    int n = qkv_pick("n", 1, 4), m = qkv_pick("m", 1, 4), k = qkv_pick("k", -1, 3);
    qk::basis::face_basis f, h;
    qkv_check(f.num_points() == 0 && f == h, "no-points-until-set-up");
    f.setup(n, 1);
    qkv_check(f.num_points() == n, "one-point-per-face-direction");
    h.setup(m, 1);
    qkv_check((f == h) == (n == m) && (f != h) == (n != m), "equal-if-set-up-equally");
    qkv_check(f != v && !(f == v), "kinds-differ");
    bool threw = false;
    try { f.setup(m, k); } catch (const qk::exception &) { threw = true; }
    qkv_check(threw == (k != 1), "unsupported-points-refused");
    qkv_check(f.num_points() == (k == 1 ? m : n), k == 1 ? "set-up-again-replaces" : "refusal-changes-nothing");
    qk::basis::face_basis c(f);
    h = f;
    qkv_check(c == f && h == f && h.num_points() == f.num_points(), "copies");
    qkv_reach("end");
}
// a field holds, per cell, points x components numbers, whatever the basis; fields on different bases are different fields
QKV_HARNESS(fields)
{
    int n = qkv_pick("n", 1, 2), comps = qkv_pick("comps", 1, 2), pts = qkv_pick("pts", 1, 3);
    int lmax[3] = {2, 2, 1};
    mesh_t g = any_mesh3(n, lmax, 2);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    std::vector<std::string> cn;
    for (int i = 0; i < comps; ++i) cn.push_back(std::string(1, 'a' + i));
    qk::basis::face_basis f;
    f.setup(pts, 1);
    vid_t a("u", cn, f), b("u", cn, qk::basis::volume_average());
    chunk_t & x = chunk_of(mgr, a);
    chunk_t & y = chunk_of(mgr, b);
    qkv_check(&x != &y && x.data() != y.data(), "bases-are-kept-apart");
    box e = ghosted(g, x.num_ghost_layers());
    e.lo[n] = e.lo[n + 1] = 0;
    e.up[n] = pts;
    e.up[n + 1] = comps;
    e.n = n + 2;
    check_box(x, e, "points-and-components-per-cell");
    e.up[n] = 1;
    check_box(y, e, "points-and-components-per-cell");
    qkv_check(x.volume() == y.volume() * pts, "storage");
    for (int i = 0; i < x.volume(); ++i) x.data()[i] = qkv_real("x", i, -1, 1);
    for (int i = 0; i < y.volume(); ++i) y.data()[i] = qkv_real("y", i, -1, 1);
    for (int i = 0; i < x.volume(); ++i) qkv_check_eq(x.data()[i], qkv_real("x", i, -1, 1), "no-shared-storage");
    // a basis that is only named like the cell averages is not one
    vid_t o("o", cn, qk::basis::basis("volume_average", 1 + pts));
    chunk_of(mgr, o).fill(0.5);
    bool other = false;
    try { mgr.write_vtk("qkv_basis", ".vtk", std::vector<vid_t>(1, o)); } catch (const qk::exception &) { other = true; }
    qkv_check(other, "several-points-per-cell-are-refused");
    for (int k = 0; k < 2; ++k) {
        bool alone = false;
        std::ofstream file("qkv_basis.field");
        try { mgr.input_variable(k ? o : a).write_vtk(file); } catch (const qk::exception &) { alone = true; }
        qkv_check(alone, "fields-refuse-it-too");
        alone = false;
        try { grid.write_vtk(file, k ? o.basis() : a.basis()); } catch (const qk::exception &) { alone = true; }
        qkv_check(alone, "meshes-refuse-it-too");
    }
    // frames hold cell averages only, and one basis at a time
    std::vector<vid_t> l;
    int which = qkv_pick("which", 0, 2);
    if (which != 1) l.push_back(a);
    if (which != 0) l.push_back(b);
    bool threw = false;
    try { mgr.write_vtk("qkv_basis", ".vtk", l); } catch (const qk::exception &) { threw = true; }
    qkv_check(threw == (which != 1), "other-bases-are-refused");
    qkv_reach("end");
}
