// C05: ghost-layer geometry of a field chunk.
#include "common.h"
#include "lib/indexer.h"
#include "data/extended_datachunk.h"
#include "variable/variable.h"
#include "basis/volume_average.h"

// everything the geometry of a chunk promises, for a mesh m, g ghost layers, p points and comps components
static box full_of(const box & m, int g, int p, int comps)
{
    box b = m;
    const int n = m.n;
    b.n = n + 2;
    for (int i = 0; i < n; ++i) { b.lo[i] -= g; b.up[i] += g; }
    b.lo[n] = b.lo[n + 1] = 0;
    b.up[n] = p;
    b.up[n + 1] = comps;
    return b;
}
static void check_geometry(const qk::data::extended_datachunk & c, const box & m, int g, int comps, const char * extra, int p = 1)
{
    const int n = m.n;
    box full = full_of(m, g, p, comps), in = full_of(m, 0, p, comps);
    qkv_check(c.num_ghost_layers() == g, "ghost-layer-count");
    check_box(c.range(), full, "storage-is-interior-plus-ghosts-on-every-side");
    check_box(c.internal_range(), in, "interior-is-the-mesh");
    qkv_check(c.range().includes(c.internal_range()), "interior-inside-storage");
    for (int d = 0; d < n; ++d) {
        box b = in;
        b.lo[d] = in.lo[d] - g; b.up[d] = in.lo[d];
        check_box(c.lower_external_range(d), b, "lower-ghosts-just-outside");
        b.lo[d] = in.lo[d]; b.up[d] = in.lo[d] + g;
        check_box(c.lower_internal_range(d), b, "lower-edge-just-inside");
        b.lo[d] = in.up[d] - g; b.up[d] = in.up[d];
        check_box(c.upper_internal_range(d), b, "upper-edge-just-inside");
        b.lo[d] = in.up[d]; b.up[d] = in.up[d] + g;
        check_box(c.upper_external_range(d), b, "upper-ghosts-just-outside");
        qkv_check(c.range().includes(c.lower_external_range(d)) && c.range().includes(c.upper_external_range(d)), extra);
    }
}
static box any_box(const char * lo, const char * len, int n)
{
    box m;
    m.n = n;
    for (int i = 0; i < n; ++i) {
        m.lo[i] = qkv_inti(lo, i, -100, 100);
        int l = qkv_picki(len, i, 1, n == 3 && i == 1 ? 2 : 3);
        m.up[i] = m.lo[i] + (l == 3 ? 5 + 2 * i : l);
    }
    return m;
}
QKV_HARNESS(chunk)
{
    int n = qkv_pick("n", 1, 3);
    int g = qkv_pick("ghosts", 0, 3);
    int comps = qkv_pick("comps", 1, 3);
    box m = any_box("lo", "len", n);
    int dl[2] = {0, 0}, du[2] = {1, comps};
    qk::data::extended_datachunk c;
    c.resize(range_of(m), qk::range(2, dl, du), g);
    check_geometry(c, m, g, comps, "ghosts-inside-storage");
    // the storage is really there and cells are distinct
    box full = full_of(m, g, 1, comps);
    int k = 0;
    for (qk::indexer it = c.indexer(); it.exists(); it.next()) { c[it] = (double)k; ++k; }
    qkv_check(k == full.volume(), "every-cell-addressable");
    for (int j = 0; j < full.volume(); ++j) qkv_check_eq(c.data()[j], (double)j, "cells-are-distinct");
    qkv_reach("end");
}
// resizing again leaves no trace of the earlier geometry; copies have the same geometry and contents
QKV_HARNESS(again)
{
    int n = qkv_pick("n", 1, 2), n2 = qkv_pick("n2", 1, 2);
    int g = qkv_pick("ghosts", 0, 2), g2 = qkv_pick("ghosts2", 0, 2);
    int comps = qkv_pick("comps", 1, 2), comps2 = qkv_pick("comps2", 1, 2);
    box m = any_box("lo", "len", n), m2;
    m2.n = n2;
    for (int i = 0; i < n2; ++i) { m2.lo[i] = qkv_inti("lo2", i, -100, 100); m2.up[i] = m2.lo[i] + 2; }
    int dl[2] = {0, 0}, du[2] = {1, comps};
    qk::data::extended_datachunk c;
    c.resize(range_of(m), qk::range(2, dl, du), g);
    du[1] = comps2;
    if (qkv_pick("default", 0, 1)) {
        g2 = 2;
        c.resize(range_of(m2), qk::range(2, dl, du));
    } else c.resize(range_of(m2), qk::range(2, dl, du), g2);
    check_geometry(c, m2, g2, comps2, "resize-replaces-the-geometry");
    const int vol = full_of(m2, g2, 1, comps2).volume();
    for (int j = 0; j < vol; ++j) c.data()[j] = qkv_real("v", j, -1, 1);
    qk::data::extended_datachunk d(c), e;
    e.resize(range_of(m), qk::range(2, dl, du), g);
    e = c;
    c.fill(3.);
    check_geometry(d, m2, g2, comps2, "copies-have-the-geometry");
    check_geometry(e, m2, g2, comps2, "assigned-chunks-have-the-geometry");
    for (int j = 0; j < vol; ++j) {
        qkv_check_eq(d.data()[j], qkv_real("v", j, -1, 1), "copies-have-the-contents");
        qkv_check_eq(e.data()[j], qkv_real("v", j, -1, 1), "assigned-chunks-have-the-contents");
    }
    qkv_reach("end");
}
// a dataset that is sized, then sized again by its owner
struct owner : qk::data::dataset {
    void size(const qk::range & r, const qk::basis::basis & b, int comps, int g) { resize(r, b, comps, g); }
    void size(const qk::range & r, const qk::basis::basis & b, int comps) { resize(r, b, comps); }
};
QKV_HARNESS(dataset)
{
    int n = qkv_pick("n", 1, 2), n2 = qkv_pick("n2", 1, 2), p = qkv_pick("points", 1, 2), comps = qkv_pick("comps", 1, 2), g = qkv_pick("ghosts", 0, 2);
    box m = any_box("lo", "len", n), m2;
    m2.n = n2;
    for (int i = 0; i < n2; ++i) { m2.lo[i] = qkv_inti("lo2", i, -100, 100); m2.up[i] = m2.lo[i] + 2; }
    owner d;
    qkv_check(d.volume() == 0, "nothing-until-sized");
    d.size(range_of(m), qk::basis::basis("b", p), 3 - comps, 1);
    check_geometry(d[d.indexer()], m, 1, 3 - comps, "dataset-geometry", p);
    if (qkv_pick("default", 0, 1)) {
        g = 2;
        d.size(range_of(m2), qk::basis::basis("a", 3 - p), comps);
    } else d.size(range_of(m2), qk::basis::basis("a", 3 - p), comps, g);
    qkv_check(d.basis() == qk::basis::basis("a", 3 - p), "dataset-keeps-its-basis");
    qkv_check(d.volume() == 1 && d.num_dims() == n2, "one-chunk");
    check_geometry(d[d.indexer()], m2, g, comps, "dataset-geometry-is-replaced", 3 - p);
    qk::data::dataset f(range_of(m), qk::basis::basis("b", p), comps);
    check_geometry(f[f.indexer()], m, 2, comps, "dataset-has-two-layers-by-default", p);
    qk::variable::variable v("u", std::vector<std::string>(comps, "x"), qk::basis::basis("b", p), range_of(m));
    check_geometry(v[v.indexer()], m, 2, comps, "variable-has-two-layers-by-default", p);
    qkv_reach("end");
}

// a field variable: one chunk over the whole mesh, one slot per named component
QKV_HARNESS(variable)
{
    int n = qkv_pick("n", 1, 3);
    int g = qkv_pick("ghosts", 1, 3);
    int nc = qkv_pick("comps", 1, 3);
    box m;
    m.n = n;
    for (int i = 0; i < n; ++i) {
        m.lo[i] = qkv_inti("lo", i, -100, 100);
        m.up[i] = m.lo[i] + qkv_picki("len", i, 1, 2);
    }
    std::vector<std::string> names;
    for (int i = 0; i < nc; ++i) names.push_back(std::string(1, 'a' + i));
    qk::variable::variable v("field", names, qk::basis::volume_average(), range_of(m), g);
    qkv_check(v.name() == "field", "keeps-its-name");
    qkv_check(v.component_names() == names, "keeps-its-components");
    int chunks = 0;
    for (qk::indexer it = v.indexer(); it.exists(); it.next()) {
        const qk::data::extended_datachunk & c = v[it];
        box in = m;
        in.n = n + 2;
        in.lo[n] = 0; in.up[n] = 1; in.lo[n + 1] = 0; in.up[n + 1] = nc;
        check_box(c.internal_range(), in, "chunk-covers-the-mesh");
        for (int i = 0; i < n; ++i) { in.lo[i] -= g; in.up[i] += g; }
        check_box(c.range(), in, "chunk-has-the-ghosts");
        ++chunks;
    }
    qkv_check(chunks == 1, "one-chunk");
    qkv_reach("end");
}
