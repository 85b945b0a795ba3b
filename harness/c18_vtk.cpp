// C18: a written frame, read back the way a viewer reads it, is the mesh and the interior data.
#include "phys.h"

static int find(int from, int n, const char * w)
{
    for (int i = from; i < n; ++i)
        if (qkv_tok_is(i, w)) return i;
    return -1;
}

// read the file "<prefix><suffix>" as a VTK viewer would
static void frame_of(const mesh_t & g, int vars)
{
    const int n = g.n();
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    const char * nm[2] = {"rho", "B"};
    int comps[2] = {any_comps(2), 3};
    std::vector<vid_t> ids;
    for (int v = 0; v < vars; ++v) {
        ids.push_back(field_id(nm[v], comps[v]));
        load(chunk_of(mgr, ids[v]), g, comps[v], nm[v]);
    }
    vid_t extra = field_id("unlisted", 1);
    load(chunk_of(mgr, extra), g, 1, "unlisted");
    mgr.write_vtk("qkv_frame_7", ".vtk", ids);
    int k = qkv_file_read("qkv_frame_7.vtk");
    qkv_check(k > 0, "file-exists");
    if (k <= 0) return;
    qkv_check(qkv_tok_is(0, "#") && qkv_tok_is(1, "vtk") && qkv_tok_is(2, "DataFile"), "header");
    int a = find(0, k, "ASCII"), d = find(0, k, "DATASET"), dim = find(0, k, "DIMENSIONS"), o = find(0, k, "ORIGIN"),
        sp = find(0, k, "SPACING"), cd = find(0, k, "CELL_DATA");
    qkv_check(a > 0 && d > a && dim > d && o > d && sp > d && cd > dim && cd > o && cd > sp, "header");
    if (!(a > 0 && d > a && dim > d && o > d && sp > d && cd > dim && cd > o && cd > sp)) return;
    qkv_check(qkv_tok_is(d + 1, "STRUCTURED_POINTS"), "header");
    for (int i = 0; i < 3; ++i)
        qkv_check_eq(qkv_tok_real(dim + 1 + i), i < n ? g.m.len(i) + 1 : 1, "dimensions");
    for (int i = 0; i < n; ++i) {
        qkv_check_eq(qkv_tok_real(sp + 1 + i), g.dx(i), "spacing");
        // the first listed cell lies half a spacing beyond the origin
        qkv_check_eq(qkv_tok_real(o + 1 + i) + 0.5 * g.dx(i), g.start[i] + (g.m.lo[i] + 0.5) * g.dx(i), "origin");
    }
    qkv_check_eq(qkv_tok_real(cd + 1), g.m.volume(), "cell-count");
    int at_ = cd + 2;
    for (int v = 0; v < vars; ++v)
        for (int c = 0; c < comps[v]; ++c) {
            std::string name = std::string(nm[v]) + "." + std::string(1, 'a' + c);
            qkv_check(qkv_tok_is(at_, "SCALARS") && qkv_tok_is(at_ + 1, name.c_str()), "scalars-in-order");
            int lt = find(at_, k, "LOOKUP_TABLE");
            qkv_check(lt > at_ && lt <= at_ + 4 && qkv_tok_is(lt + 1, "default"), "scalars-in-order");
            if (!(lt > at_ && lt <= at_ + 4)) return;
            int t = lt + 2;
            // x runs fastest
            int p[5];
            box b = g.m;
            box r;
            r.n = n;
            for (int i = 0; i < n; ++i) { r.lo[i] = b.lo[n - 1 - i]; r.up[i] = b.up[n - 1 - i]; }
            int q[5];
            begin(r, q);
            do {
                for (int i = 0; i < n; ++i) p[i] = q[n - 1 - i];
                qkv_check_tight(qkv_tok_real(t), orig(g, p, comps[v], c, nm[v]), "values");
                ++t;
            } while (step(r, q));
            at_ = t;
        }
    qkv_check(at_ == k, "nothing-else-is-written");
    for (int v = 0; v < vars; ++v) unchanged(chunk_of(mgr, ids[v]), g, comps[v], nm[v], "writing-changes-nothing");
    qkv_reach("end");
}

QKV_HARNESS(frame)
{
    int n = qkv_pick("n", 1, 3), vars = qkv_pick("vars", 1, 2);
    int lmax[3] = {3, 2, 2};
    mesh_t g = any_mesh3(n, lmax, 1);
    for (int i = 0; i < n; ++i) {
        int lo = qkv_picki("lower", qkv_bound(0, i), -1, 1);
        g.m.lo[i] += lo;
        g.m.up[i] += lo;
    }
    frame_of(g, vars);
}
QKV_HARNESS(largeFrame)
{
    int n = qkv_pick("n", 1, 3), vars = qkv_pick("vars", 1, 2);
    frame_of(n == 1 ? large_mesh(1, 150) : (n == 2 ? large_mesh(2, 11, 7) : large_mesh(3, 6, 5, 4)), vars);
}

// a frame of one mesh, then one of another under the same file name
QKV_HARNESS(otherMesh)
{
    int n = qkv_pick("n", 1, 3), n2 = qkv_pick("n2", 1, 3);
    frame_of(large_mesh(n, 5 - n, 2, 2), 1);
    frame_of(large_mesh(n2, 2, 4, 3), qkv_pick("vars", 1, 2));
}
// successive frames of one run do not disturb each other
QKV_HARNESS(frames)
{
    mesh_t g = any_mesh(1, 1, 2);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    vid_t q = field_id("q", 1);
    load(chunk_of(mgr, q), g, 1, "a");
    std::vector<vid_t> ids(1, q);
    mgr.write_vtk("qkv_frame_1", ".vtk", ids);
    load(chunk_of(mgr, q), g, 1, "b");
    mgr.write_vtk("qkv_frame_2", ".vtk", ids);
    int again = qkv_pick("rewrite-first", 0, 1);
    if (again) mgr.write_vtk("qkv_frame_1", ".vtk", ids);
    for (int f = 0; f < 2; ++f) {
        int k = qkv_file_read(f ? "qkv_frame_2.vtk" : "qkv_frame_1.vtk");
        qkv_check(k > 0, "file-exists");
        if (k <= 0) return;
        int lt = find(0, k, "LOOKUP_TABLE");
        qkv_check(lt > 0 && lt + 2 + g.m.len(0) == k, "one-field-in-the-file");
        if (lt <= 0) return;
        for (int i = 0; i < g.m.len(0); ++i) {
            int p[1] = {g.m.lo[0] + i};
            qkv_check_tight(qkv_tok_real(lt + 2 + i), orig(g, p, 1, 0, f || again ? "b" : "a"), "frame-holds-the-data-of-its-time");
        }
    }
    qkv_reach("end");
}
