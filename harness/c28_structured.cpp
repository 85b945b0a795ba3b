// C28: stretched meshes cut the extent into adjoining cells whose edges follow the requested law.
#include "common.h"
#include "grid/structured.h"
#include <fstream>

struct stretched : qk::grid::structured {
    stretched(const qk::range & r, const double * s, const double * w) : qk::grid::structured(r, s, w) {}
    void write_vtk(std::ofstream &, const qk::basis::basis &) const {}
};
struct world {
    box b;
    double start[3], width[3];
};
static int length(int lmax)
{
    int l = qkv_pick("cells", 1, lmax + 2);
    return l > lmax ? 30 + (l - lmax) : l;
}
static world any_world(int n, int bias, int lmax)
{
    world w;
    w.b.n = n;
    int sh = qkv_pick("lower", -1, 1);
    for (int i = 0; i < n; ++i) {
        w.b.lo[i] = sh * (i + 1);
        w.b.up[i] = w.b.lo[i] + (i == bias ? length(lmax) : 2);
        w.start[i] = qkv_real("start", i, -2, 2);
        w.width[i] = qkv_real("width", i, 0.5, 3);
        qkv_assume(w.width[i] > 0);
    }
    return w;
}
// dimension d is cut at start + width * edge[0..N]
static void cut_at(const stretched & g, const world & w, int d, const double * edge)
{
    double used = 0;
    for (int k = 0; k < w.b.len(d); ++k) {
        int i = w.b.lo[d] + k;
        qkv_check_eq(g.dx(d, i), w.width[d] * (edge[k + 1] - edge[k]), "cell-width");
        qkv_check_eq(g.centroid(d, i), w.start[d] + used + 0.5 * g.dx(d, i), "cells-adjoin");
        used += g.dx(d, i);
    }
    qkv_check_eq(used, w.width[d], "cells-fill-the-extent");
}
static void uniform(const stretched & g, const world & w, int d, const char *)
{
    double e[64];
    for (int k = 0; k <= w.b.len(d); ++k) e[k] = (double)k / w.b.len(d);
    cut_at(g, w, d, e);
}
QKV_HARNESS(plain)
{
    int n = qkv_pick("n", 1, 3);
    world w = any_world(n, qkv_pick("long", 0, n - 1), qkv_bound(5, 9));
    stretched g(range_of(w.b), w.start, w.width);
    for (int d = 0; d < n; ++d) uniform(g, w, d, "uniform");
    qkv_reach("end");
}
QKV_HARNESS(linear)
{
    int n = qkv_pick("n", 1, 3), d = qkv_pick("dim", 0, n - 1);
    world w = any_world(n, d, qkv_bound(5, 9));
    stretched g(range_of(w.b), w.start, w.width);
    double p = qkv_real("pow", 0, 1.1, 3);
    qkv_assume(p > 0);
    g.apply_bias_linear(d, p);
    int N = w.b.len(d);
    double e[64];
    for (int k = 0; k <= N; ++k) e[k] = 1. - std::pow((double)(N - k) / N, 1. / p);
    cut_at(g, w, d, e);
    for (int o = 0; o < n; ++o) if (o != d) uniform(g, w, o, "other");
    qkv_reach("end");
}
QKV_HARNESS(symmetric)
{
    int n = qkv_pick("n", 1, 3), d = qkv_pick("dim", 0, n - 1);
    world w = any_world(n, d, qkv_bound(6, 10));
    stretched g(range_of(w.b), w.start, w.width);
    double p = qkv_real("pow", 0, 1.1, 3);
    qkv_assume(p > 0);
    int N = w.b.len(d);
    bool refused = false;
    try { g.apply_bias_symmetric(d, p); } catch (const qk::exception &) { refused = true; }
    qkv_check(refused == (N % 2 == 1), "odd-meshes-have-no-symmetric-law");
    if (refused) uniform(g, w, d, "unchanged");
    else {
        double e[64];
        for (int k = 0; k <= N / 2; ++k) {
            e[k] = 0.5 * std::pow((double)k / (N / 2), 1. / p);
            e[N - k] = 1. - e[k];
        }
        cut_at(g, w, d, e);
    }
    for (int o = 0; o < n; ++o) if (o != d) uniform(g, w, o, "other");
    qkv_reach("end");
}
QKV_HARNESS(refusals)
{
    int n = qkv_pick("n", 1, 3);
    world w = any_world(n, 0, 2);
    stretched g(range_of(w.b), w.start, w.width);
    int d = qkv_int("d", -1000, 1000), i = qkv_int("i", -1000, 1000);
    bool dim_ok = d >= 0 && d < n;
    bool ok = dim_ok && i >= w.b.lo[dim_ok ? d : 0] && i < w.b.up[dim_ok ? d : 0];
    bool t[4] = {false, false, false, false};
    try { g.dx(d, i); } catch (const qk::exception &) { t[0] = true; }
    try { g.centroid(d, i); } catch (const qk::exception &) { t[1] = true; }
    qkv_check(t[0] == !ok && t[1] == !ok, "cell-outside-the-mesh-refused");
    if (!dim_ok) {
        try { g.apply_bias_linear(d, 2.); } catch (const qk::exception &) { t[2] = true; }
        try { g.apply_bias_symmetric(d, 2.); } catch (const qk::exception &) { t[3] = true; }
        qkv_check(t[2] && t[3], "dimension-outside-the-mesh-refused");
    }
    qkv_reach("end");
}
