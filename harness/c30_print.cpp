// C30: what is printed is what is stored.
#include "phys.h"
#include "solver/print.h"
#include <sstream>
#include <iostream>

static mesh_t some_mesh(int n)
{
    if (qkv_pick("large", 0, 1)) return n == 1 ? large_mesh(1, 150) : (n == 2 ? large_mesh(2, 11, 7) : large_mesh(3, 6, 5, 4));
    int lmax[3] = {qkv_bound(3, 4), 2, 2};
    mesh_t g = any_mesh3(n, lmax, 2);
    for (int i = 0; i < n; ++i) {
        int lo = qkv_picki("lower", qkv_bound(0, i), -1, 1);
        g.m.lo[i] += lo;
        g.m.up[i] += lo;
    }
    return g;
}
// printing lists every interior cell of every given variable once, with its index and value
static void listing(const mesh_t & g, int vars)
{
    qkv_digits(6);
    const int n = g.n();
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    const char * nm[3] = {"rho", "B", "unlisted"};
    int comps[3] = {1, qkv_pick("comps", 1, 2), 1};
    std::vector<vid_t> ids;
    for (int v = 0; v < 3; ++v) {
        ids.push_back(field_id(nm[v], comps[v]));
        load(chunk_of(mgr, ids[v]), g, comps[v], nm[v]);
    }
    int order = qkv_pick("order", 0, 1);
    qk::solver::print s;
    for (int v = 0; v < vars; ++v) s.add_input_variable(ids[order ? vars - 1 - v : v]);
    qkv_console_begin();
    s.solve(mgr, qkv_pick("tag", 0, 1));
    int k = qkv_console_read(), at_ = 0;
    for (int w = 0; w < vars; ++w) {
        int v = order ? vars - 1 - w : w;
        box b = g.m;
        b.lo[n] = b.lo[n + 1] = 0;
        b.up[n] = 1;
        b.up[n + 1] = comps[v];
        b.n = n + 2;
        std::vector<int> seen(b.volume(), 0);
        for (int c = 0; c < b.volume(); ++c) {
            qkv_check(at_ + b.n < k, "every-cell-is-printed");
            if (at_ + b.n >= k) return;
            int p[5];
            for (int i = 0; i < b.n; ++i) p[i] = qkv_tok_int(at_ + i);
            bool in = true;
            int o = 0;
            for (int i = 0; i < b.n; ++i) { in = in && p[i] >= b.lo[i] && p[i] < b.up[i]; o = o * b.len(i) + p[i] - b.lo[i]; }
            qkv_check(in, "only-interior-cells");
            if (!in) return;
            qkv_check(!seen[o], "each-cell-once");
            seen[o] = 1;
            qkv_check_digits(qkv_tok_real(at_ + b.n), orig(g, p, comps[v], p[n + 1], nm[v]), "its-value");
            at_ += b.n + 1;
        }
        qkv_check(qkv_console_count(nm[v]) >= 1, "variable-is-named");
    }
    qkv_check(at_ == k, "nothing-else-is-printed");
    for (int v = 0; v < 3; ++v) unchanged(chunk_of(mgr, ids[v]), g, comps[v], nm[v], "printing-changes-nothing");
    qkv_reach("end");
}
QKV_HARNESS(variables)
{
    int n = qkv_pick("n", 1, 3), vars = qkv_pick("vars", 0, 2);
    listing(some_mesh(n), vars);
}
// one mesh, then another
QKV_HARNESS(otherMesh)
{
    int n = qkv_pick("n", 1, 2), n2 = qkv_pick("n2", 1, 2);
    listing(large_mesh(n, 5 - n, 2), 1);
    listing(large_mesh(n2, 2, 3), qkv_pick("vars", 1, 2));
}
// a range prints its bounds, the lower ones first
QKV_HARNESS(ranges)
{
    int n = qkv_pick("n", 0, 4);
    int lo[4], up[4], least = qkv_pick("negative", 0, 1) ? -1000 : 0;
    for (int i = 0; i < n; ++i) {
        lo[i] = qkv_inti("lo", i, -1000, 1000);
        up[i] = qkv_inti("up", i, -1000, 1000);
        qkv_assume(least <= lo[i] && lo[i] <= up[i]);
    }
    qk::range r(n, lo, up);
    std::ostringstream os;
    std::ostream & back = (os << r);
    qkv_check(&back == &os, "printing-returns-the-stream");
    std::string t = os.str();
    int k = qkv_text_read(t.data(), t.size());
    qkv_check_int(k, 2 * n, "every-bound-once");
    if (k != 2 * n) return;
    for (int i = 0; i < n; ++i) {
        qkv_check_eq(qkv_tok_real(i), r.lower(i), "lower-bounds");
        qkv_check_eq(qkv_tok_real(n + i), r.upper(i), "upper-bounds");
    }
    qkv_reach("end");
}
