// Meshes, managers and symbolic field data for the solver harnesses.
#ifndef QKV_FIELD_H
#define QKV_FIELD_H
#include "common.h"
#include "lib/indexer.h"
#include "grid/rectilinear.h"
#include "basis/volume_average.h"
#include "variable/variable.h"
#include "variable/variable_id.h"
#include "variable/variable_manager.h"

typedef qk::data::extended_datachunk chunk_t;
typedef qk::variable::variable_manager manager_t;
typedef qk::variable::variable_id vid_t;
typedef qk::variable::variable var_t;

struct mesh_t {
    box m;
    double start[3], width[3];
    int n() const { return m.n; }
    double dx(int d) const { return width[d] / (double)m.len(d); }
};

// first cell index of the mesh: 0, or anything near it (1D always, 2D/3D in the thorough tier)
inline int any_shift(int n)
{
    if (n == 1 || qkv_bound(0, 1)) return qkv_pick("shift", -1, 1);
    return 0;
}
// lengths picked in [lmin,lmax]; every origin and positive extent
inline mesh_t any_mesh(int n, int lmin, int lmax)
{
    int sh = any_shift(n);
    mesh_t g;
    g.m.n = n;
    for (int i = 0; i < n; ++i) {
        g.m.lo[i] = sh;
        g.m.up[i] = sh + qkv_picki("len", i, lmin, lmax);
        g.start[i] = qkv_real("start", i, -2, 2);
        g.width[i] = qkv_real("width", i, 0.5, 3);
        qkv_assume(g.width[i] > 0);
    }
    return g;
}
inline mesh_t any_mesh3(int n, const int * lmax, int lmin = 2)
{
    int sh = any_shift(n);
    mesh_t g;
    g.m.n = n;
    for (int i = 0; i < n; ++i) {
        g.m.lo[i] = sh;
        g.m.up[i] = sh + qkv_picki("len", i, lmin, lmax[i]);
        g.start[i] = qkv_real("start", i, -2, 2);
        g.width[i] = qkv_real("width", i, 0.5, 3);
        qkv_assume(g.width[i] > 0);
    }
    return g;
}
// one large mesh per number of dimensions; lengths and first indices have nothing in common
inline mesh_t large_mesh(int n, int l0, int l1 = 1, int l2 = 1)
{
    static const int first[3] = {-7, 3, 2};
    int len[3] = {l0, l1, l2};
    mesh_t g;
    g.m.n = n;
    for (int i = 0; i < n; ++i) {
        g.m.lo[i] = first[i];
        g.m.up[i] = first[i] + len[i];
        g.start[i] = qkv_real("start", i, -2, 2);
        g.width[i] = qkv_real("width", i, 0.5, 3);
        qkv_assume(g.width[i] > 0);
    }
    return g;
}
// the meshes most solver harnesses quantify over: every small one, and where a harness asks for it a large one
#ifndef QKV_LARGE
#define QKV_LARGE 33, 9, 7, 5, 4, 3
#endif
inline mesh_t std_mesh(int n, bool large = false)
{
#ifdef QKV_SMALL
    int smax[3] = {n == 1 ? qkv_bound(3, 5) : 2, n == 2 ? 2 : qkv_bound(1, 2), 1};
    return any_mesh3(n, smax, 1);
#endif
    static const int big[6] = {QKV_LARGE};
    if (large && qkv_pick("large", 0, 1)) return n == 1 ? large_mesh(1, big[0]) : (n == 2 ? large_mesh(2, big[1], big[2]) : large_mesh(3, big[3], big[4], big[5]));
    int lmax[3] = {n == 1 ? qkv_bound(5, 8) : (n == 2 ? qkv_bound(3, 4) : qkv_bound(2, 3)), n == 2 ? 3 : 2, 2};
    return any_mesh3(n, lmax, 1);
}
// a number of components: the first few and one beyond
inline int any_comps(int hi)
{
    int c = qkv_pick("comps", 1, hi + 1);
    return c > hi ? 6 : c;
}
inline qk::grid::rectilinear grid_of(const mesh_t & g)
{
    return qk::grid::rectilinear(range_of(g.m), g.start, g.width);
}
inline vid_t field_id(const char * name, int comps)
{
    std::vector<std::string> c;
    for (int i = 0; i < comps; ++i) c.push_back(std::string(1, 'a' + i));
    return vid_t(name, c, qk::basis::volume_average());
}
inline chunk_t & chunk_of(manager_t & mgr, const vid_t & id)
{
    var_t & v = mgr.output_variable(id);
    return v[v.indexer()];
}
// value of component c at mesh coordinates p (may lie in the ghost layers)
inline double & at(chunk_t & ch, const mesh_t & g, const int * p, int c)
{
    int q[5];
    for (int i = 0; i < g.n(); ++i) q[i] = p[i];
    q[g.n()] = 0;
    q[g.n() + 1] = c;
    return *ch.data(q);
}
inline box ghosted(const mesh_t & g, int k = 2)
{
    box b = g.m;
    for (int i = 0; i < g.n(); ++i) { b.lo[i] -= k; b.up[i] += k; }
    return b;
}
// fill every cell (ghosts included) with its own unknown; comps components
inline void load(chunk_t & ch, const mesh_t & g, int comps, const char * nm, double lo = -2, double hi = 2)
{
    box b = ghosted(g, ch.num_ghost_layers());
    int p[5], k = 0;
    begin(b, p);
    do {
        for (int c = 0; c < comps; ++c) at(ch, g, p, c) = qkv_real(nm, k * comps + c, lo, hi);
        ++k;
    } while (step(b, p));
}
inline int cell_no(const mesh_t & g, const int * p, int ghosts = 2) { return flat(ghosted(g, ghosts), p); }
inline double orig(const mesh_t & g, const int * p, int comps, int c, const char * nm, double lo = -2, double hi = 2)
{
    return qkv_real(nm, cell_no(g, p) * comps + c, lo, hi);
}
// the field still holds what load() put there
inline void unchanged(chunk_t & ch, const mesh_t & g, int comps, const char * nm, const char * label, double lo = -2, double hi = 2)
{
    box b = ghosted(g, ch.num_ghost_layers());
    int p[5];
    begin(b, p);
    do {
        for (int c = 0; c < comps; ++c) qkv_check_eq(at(ch, g, p, c), orig(g, p, comps, c, nm, lo, hi), label);
    } while (step(b, p));
}
inline void unchanged_in(const box & b, chunk_t & ch, const mesh_t & g, int comps, const char * nm, const char * label, double lo = -2, double hi = 2)
{
    int p[5];
    begin(b, p);
    do {
        for (int c = 0; c < comps; ++c) qkv_check_eq(at(ch, g, p, c), orig(g, p, comps, c, nm, lo, hi), label);
    } while (step(b, p));
}
#endif
