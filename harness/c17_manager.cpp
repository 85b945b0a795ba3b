// C17: a variable identifier always names the same field, and different identifiers name
// fields that share no storage.
#include "phys.h"
#include <set>

static const char * NAMES[5] = {"q", "q1", "Q", "rho", "q_clone_0"};

struct named : qk::basis::basis {
    named(const char * n, int k) : qk::basis::basis(n, k) {}
};
static qk::basis::basis basis_no(int b)
{
    if (b == 0) return qk::basis::volume_average();
    if (b == 1) return named("alpha", 2);
    if (b == 2) return named("zeta", 1);
    return named("volume_average", 2);
}
static std::vector<std::string> comps_of(int nm)
{
    int k = 1 + nm % 3;
    std::vector<std::string> c;
    for (int i = 0; i < k; ++i) c.push_back(std::string(1, 'a' + i));
    return c;
}

QKV_HARNESS(identity)
{
    int n = qkv_pick("n", 1, 2);
    int lmax[3] = {2, 2, 1};
    mesh_t g = any_mesh3(n, lmax, 1);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    const int K = qkv_bound(3, 4);
    int nm[4], bs[4];
    var_t * vp[4];
    double * dp[4];
    int vol[4];
    for (int i = 0; i < K; ++i) {
        nm[i] = qkv_picki("name", i, 0, qkv_bound(2, 4));
        bs[i] = qkv_picki("basis", i, 0, qkv_bound(2, 3));
        qk::basis::basis b = basis_no(bs[i]);
        vid_t id(NAMES[nm[i]], comps_of(nm[i]), b);
        var_t & v = mgr.output_variable(id);
        vp[i] = &v;
        qkv_check(v.name() == NAMES[nm[i]], "carries-its-name");
        qkv_check(v.component_names() == comps_of(nm[i]), "carries-its-components");
        qkv_check(v.volume() == 1, "one-chunk");
        chunk_t & ch = v[v.indexer()];
        dp[i] = ch.data();
        vol[i] = ch.volume();
        // shape: mesh with two ghost layers on every side, then basis points, then components
        qkv_check(ch.num_dims() == n + 2, "shape");
        int want = 1;
        for (int d = 0; d < n; ++d) {
            qkv_check(ch.lower(d) == g.m.lo[d] - 2 && ch.upper(d) == g.m.up[d] + 2, "shape");
            qkv_check(ch.internal_range().lower(d) == g.m.lo[d] && ch.internal_range().upper(d) == g.m.up[d], "shape");
            want *= g.m.len(d) + 4;
        }
        qkv_check(ch.lower(n) == 0 && ch.upper(n) == b.num_points(), "shape");
        qkv_check(ch.lower(n + 1) == 0 && ch.upper(n + 1) == (int)comps_of(nm[i]).size(), "shape");
        qkv_check(vol[i] == want * b.num_points() * (int)comps_of(nm[i]).size(), "shape");
        const var_t & in = mgr.input_variable(vid_t(NAMES[nm[i]], comps_of(nm[i]), basis_no(bs[i])));
        qkv_check(&in == vp[i], "same-field-for-reading-and-writing");
        for (int j = 0; j < i; ++j) {
            bool same = nm[i] == nm[j] && bs[i] == bs[j];
            qkv_check((vp[i] == vp[j]) == same, "one-field-per-identifier");
        }
        for (int e = 0; e < vol[i]; ++e) dp[i][e] = 1 + i;
    }
    // everything written is still there: the last writer of each field wins, nobody else interferes
    for (int i = 0; i < K; ++i) {
        int last = i;
        for (int j = i + 1; j < K; ++j)
            if (nm[j] == nm[i] && bs[j] == bs[i]) last = j;
        const var_t & in = mgr.input_variable(vid_t(NAMES[nm[i]], comps_of(nm[i]), basis_no(bs[i])));
        qkv_check(&in == vp[i], "reference-stays-valid");
        for (int e = 0; e < vol[i]; ++e) qkv_check(in.data()[0].data()[e] == 1 + last, "no-shared-storage");
    }
    qkv_reach("end");
}

// clones are new fields of the same shape, whatever the history of cloning
QKV_HARNESS(clones)
{
    mesh_t g = any_mesh(1, 1, 2);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    vid_t base = field_id("q", qkv_pick("comps", 1, 3)), other = field_id("q_clone", 1);
    const int K = 12;
    int pattern = qkv_pick("pattern", 0, 3);
    std::vector<vid_t> ids;
    ids.push_back(base);
    for (int i = 0; i < K; ++i) {
        // histories: always the original, always the latest clone, alternating, or any of the first clones
        int from = pattern == 0 ? 0 : (pattern == 1 ? i : (pattern == 2 ? (i % 2 ? i : 0) : (i < 4 ? qkv_picki("from", i, 0, i) : i - 1)));
        vid_t c = ids[from].unique_clone();
        qkv_check(c.component_names() == base.component_names(), "clone-has-the-same-components");
        qkv_check(c.basis() == base.basis(), "clone-has-the-same-basis");
        ids.push_back(c);
    }
    for (int i = 0; i <= K; ++i)
        for (int j = 0; j < i; ++j) {
            qkv_check(!(ids[i] == ids[j]), "clones-are-distinct");
            qkv_check(&mgr.output_variable(ids[i]) != &mgr.output_variable(ids[j]), "clones-are-distinct-fields");
        }
    qkv_check(&mgr.output_variable(ids[0]) == &mgr.output_variable(base), "original-is-kept");
    qkv_reach("end");
}

// a manager knows its grid, its clock, and nothing of other managers
QKV_HARNESS(clockAndGrid)
{
    mesh_t g = any_mesh(qkv_pick("n", 1, 3), 1, 2);
    qk::grid::rectilinear grid = grid_of(g), grid2 = grid_of(g);
    manager_t a(grid), b(grid2);
    a.set_time(qkv_real("t", 0, 0, 1));
    a.set_dt(qkv_real("dt", 0, 0, 1));
    b.set_time(qkv_real("t", 1, 0, 1));
    b.set_dt(qkv_real("dt", 1, 0, 1));
    vid_t q = field_id("q", 1);
    chunk_t & ca = chunk_of(a, q);
    chunk_t & cb = chunk_of(b, q);
    qkv_check(&ca != &cb && ca.data() != cb.data(), "managers-do-not-share-fields");
    qkv_check_eq(a.time(), qkv_real("t", 0, 0, 1), "time");
    qkv_check_eq(a.dt(), qkv_real("dt", 0, 0, 1), "dt");
    qkv_check_eq(b.time(), qkv_real("t", 1, 0, 1), "time");
    qkv_check_eq(b.dt(), qkv_real("dt", 1, 0, 1), "dt");
    qkv_check(&a.grid() == &grid && &b.grid() == &grid2, "grid");
    qkv_reach("end");
}

// fields whose names differ in any one character, and their clones
QKV_HARNESS(words)
{
    mesh_t g = any_mesh(1, 1, 1);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    std::string w[2];
    var_t * v[2];
    std::vector<std::string> x(1, "x");
    for (int i = 0; i < 2; ++i) {
        w[i] = any_word("w", i);
        v[i] = &mgr.output_variable(vid_t(w[i], x, qk::basis::volume_average()));
        qkv_check(v[i]->name() == w[i], "carries-its-name");
    }
    bool same = w[0].size() == w[1].size();
    for (size_t k = 0; same && k < w[0].size(); ++k) same = w[0][k] == w[1][k];
    qkv_check((v[0] == v[1]) == same, "one-field-per-name");
    for (int i = 0; i < 2; ++i) {
        qkv_check(&mgr.input_variable(vid_t(w[i], x, qk::basis::volume_average())) == v[i], "found-under-its-name");
        vid_t c = vid_t(w[i], x, qk::basis::volume_average()).unique_clone();
        var_t * z = &mgr.output_variable(c);
        qkv_check(z != v[0] && z != v[1], "a-clone-is-another-field");
    }
    qkv_reach("end");
}

// a long history: no clone repeats a name, and many fields stay apart
QKV_HARNESS(many)
{
    mesh_t g = any_mesh(1, 1, 1);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    std::vector<std::string> x(1, "x");
    vid_t base(any_word("w", 0, 3, 3), x, qk::basis::volume_average());
    std::set<std::string> names;
    names.insert(base.name());
    const int K = 300, F = 40;
    std::vector<vid_t> kept;
    for (int i = 0; i < K; ++i) {
        vid_t c = base.unique_clone();
        names.insert(c.name());
        if (i % 8 == 0 && (int)kept.size() < F) kept.push_back(c);
    }
    qkv_check((int)names.size() == K + 1, "no-clone-repeats-a-name");
    std::vector<double *> at_;
    for (size_t i = 0; i < kept.size(); ++i) {
        chunk_t & ch = chunk_of(mgr, kept[i]);
        at_.push_back(ch.data());
        for (int k = 0; k < ch.volume(); ++k) ch.data()[k] = qkv_real("f", i, -1, 1);
    }
    for (size_t i = 0; i < kept.size(); ++i) {
        chunk_t & ch = chunk_of(mgr, kept[i]);
        qkv_check(ch.data() == at_[i], "reference-stays-valid");
        for (int k = 0; k < ch.volume(); ++k) qkv_check_eq(ch.data()[k], qkv_real("f", i, -1, 1), "no-shared-storage");
    }
    qkv_reach("end");
}
