// Boundary-condition contract, shared by the harnesses: for every requested dimension the
// ghost slabs facing the interior hold the image of an interior cell, scaled per component.
#include "field.h"

// kind 0: periodic image; 1: mirror image.  sign(dim, comp) in {+1,-1}
template<class BC, class SIGN>
static void bc_contract(int kind, int comps, SIGN sign)
{
    int n = qkv_pick("n", 1, 3);
    int lmax[3] = {n == 1 ? 5 : 3, 3, n == 3 ? 2 : 3};
    if (n == 3) lmax[0] = lmax[1] = qkv_bound(2, 3);
    int mask = qkv_pick("mask", 0, (1 << n) - 1);
    bool rev = qkv_pick("order", 0, 1);
    bool large = mask == (1 << n) - 1 && !rev && qkv_pick("large", 0, 1);
    mesh_t g = !large ? any_mesh3(n, lmax) : (n == 1 ? large_mesh(1, 300) : (n == 2 ? large_mesh(2, 17, 11) : large_mesh(3, 7, 5, 6)));
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    vid_t a = field_id("A", comps), b = field_id("B", comps), o = field_id("other", comps);
    chunk_t & ca = chunk_of(mgr, a);
    chunk_t & cb = chunk_of(mgr, b);
    chunk_t & co = chunk_of(mgr, o);
    load(ca, g, comps, "a");
    load(cb, g, comps, "b");
    load(co, g, comps, "o");
    std::vector<int> dims;
    if (!rev) { for (int d = 0; d < n; ++d) if (mask >> d & 1) dims.push_back(d); }
    else { for (int d = n - 1; d >= 0; --d) if (mask >> d & 1) dims.push_back(d); }
    BC bc;
    bc.setup(dims);
    bc.add_output_variable(a);
    bc.add_output_variable(b);
    bc.solve(mgr);
    for (int w = 0; w < 2; ++w) {
        chunk_t & ch = w ? cb : ca;
        const char * nm = w ? "b" : "a";
        unchanged_in(g.m, ch, g, comps, nm, "interior-unchanged");
        for (int d = 0; d < n; ++d)
            for (int side = 0; side < 2; ++side) {
                box s = g.m;
                if (side == 0) { s.lo[d] = g.m.lo[d] - 2; s.up[d] = g.m.lo[d]; }
                else { s.lo[d] = g.m.up[d]; s.up[d] = g.m.up[d] + 2; }
                int p[5], q[5];
                begin(s, p);
                do {
                    for (int i = 0; i < n; ++i) q[i] = p[i];
                    bool on = mask >> d & 1;
                    if (on) {
                        if (kind == 0) q[d] = side == 0 ? p[d] + g.m.len(d) : p[d] - g.m.len(d);
                        else q[d] = side == 0 ? 2 * g.m.lo[d] - 1 - p[d] : 2 * g.m.up[d] - 1 - p[d];
                    }
                    for (int c = 0; c < comps; ++c) {
                        double want = orig(g, q, comps, c, nm);
                        if (on && sign(d, c) < 0) want = -want;
                        qkv_check_eq(at(ch, g, p, c), want, on ? (side ? "upper-ghosts" : "lower-ghosts") : "unrequested-boundary-untouched");
                    }
                } while (step(s, p));
            }
    }
    unchanged(co, g, comps, "o", "other-variables-untouched");
    qkv_reach("end");
}
