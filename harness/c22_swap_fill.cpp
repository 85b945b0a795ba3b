// C22: swapping exchanges whole fields pairwise; filling sets every value of every output.
#include "phys.h"
#include "solver/fill.h"
#include "solver/swap.h"

static const char * NM[6] = {"a", "b", "c", "d", "e", "f"};

static mesh_t some_mesh(int n)
{
    if (qkv_pick("large", 0, 1)) return n == 1 ? large_mesh(1, 400) : (n == 2 ? large_mesh(2, 17, 13) : large_mesh(3, 7, 5, 6));
    int lmax[3] = {n == 1 ? 4 : 2, 2, 2};
    return any_mesh3(n, lmax, 1);
}
QKV_HARNESS(swap)
{
    int n = qkv_pick("n", 1, 3);
    mesh_t g = some_mesh(n);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    int pairs = qkv_pick("pairs", 0, 3);
    std::vector<vid_t> ids;
    int comps[6];
    qk::solver::swap s;
    for (int i = 0; i < 6; ++i) {
        comps[i] = 1 + 2 * ((i / 2 + n) % 3);
        ids.push_back(field_id(NM[i], comps[i]));
        load(chunk_of(mgr, ids[i]), g, comps[i], NM[i]);
    }
    bool rev = qkv_pick("reversed", 0, 1);
    for (int i = 0; i < pairs; ++i) {
        s.add_output_variable(ids[2 * i + (rev ? 1 : 0)]);
        s.add_output_variable(ids[2 * i + (rev ? 0 : 1)]);
    }
    int times = qkv_pick("times", 1, 2);
    for (int t = 0; t < times; ++t) s.solve(mgr);
    for (int i = 0; i < 6; ++i) {
        int from = i / 2 < pairs && times == 1 ? (i ^ 1) : i;
        unchanged(chunk_of(mgr, ids[i]), g, comps[i], NM[from], from == i ? "others-untouched" : "exchanged");
        var_t & v = mgr.output_variable(ids[i]);
        qkv_check(v.name() == NM[i] && (int)v.component_names().size() == comps[i], "keeps-its-name");
        chunk_t & ch = v[v.indexer()];
        for (int d = 0; d < n; ++d) {
            qkv_check(ch.internal_range().lower(d) == g.m.lo[d] && ch.internal_range().upper(d) == g.m.up[d], "keeps-its-shape");
            qkv_check(ch.lower(d) == g.m.lo[d] - 2 && ch.upper(d) == g.m.up[d] + 2, "keeps-its-shape");
        }
        qkv_check(ch.num_dims() == n + 2 && ch.upper(n + 1) == comps[i], "keeps-its-shape");
    }
    qkv_reach("end");
}
QKV_HARNESS(fill)
{
    int n = qkv_pick("n", 1, 3);
    mesh_t g = some_mesh(n);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    std::vector<vid_t> ids;
    int mask = qkv_pick("mask", 0, 7), set = qkv_pick("setup", 0, 1);
    qk::solver::fill s;
    double v = set ? qkv_real("v", 0, -2, 2) : 0;
    if (set) s.setup(v);
    for (int i = 0; i < 3; ++i) {
        ids.push_back(field_id(NM[i], 1 + i));
        load(chunk_of(mgr, ids[i]), g, 1 + i, NM[i]);
        if (mask >> i & 1) s.add_output_variable(ids[i]);
    }
    s.solve(mgr);
    for (int i = 0; i < 3; ++i) {
        chunk_t & ch = chunk_of(mgr, ids[i]);
        if (mask >> i & 1) {
            for (int k = 0; k < ch.volume(); ++k) qkv_check_eq(ch.data()[k], v, "filled");
        } else unchanged(ch, g, 1 + i, NM[i], "others-untouched");
    }
    qkv_reach("end");
}
