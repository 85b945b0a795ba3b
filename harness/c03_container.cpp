// C03: indexed containers store, fill, copy, swap exactly the cells they are asked to.
#include "common.h"
#include "lib/indexer.h"
#include "lib/indexer_interface.h"
#include "data/datachunk.h"
#include "data/functions.h"

typedef qk::indexer_interface<double> chunk;

static box shape(const char * nm, int n, int lmax, int lmin = 1)
{
    box b;
    b.n = n;
    std::string a = std::string(nm) + "lo", c = std::string(nm) + "len";
    for (int i = 0; i < n; ++i) {
        b.lo[i] = qkv_inti(a.c_str(), i, -50, 50);
        b.up[i] = b.lo[i] + qkv_picki(c.c_str(), i, lmin, lmax);
    }
    return b;
}
// a sub-box of b, every position and extent
static box part(const char * nm, const box & b)
{
    box s = b;
    std::string a = std::string(nm) + "off", c = std::string(nm) + "ext";
    for (int i = 0; i < b.n; ++i) {
        int o = qkv_picki(a.c_str(), i, 0, b.len(i) - 1);
        int e = qkv_picki(c.c_str(), i, 1, b.len(i) - o);
        s.lo[i] = b.lo[i] + o;
        s.up[i] = s.lo[i] + e;
    }
    return s;
}
static void load(chunk & c, const box & b, const char * nm)
{
    int k = 0;
    for (qk::indexer it = c.indexer(); it.exists(); it.next()) c[it] = qkv_real(nm, k++, -4, 4);
    qkv_check(k == b.volume(), "every-cell-visited-once");
}

QKV_HARNESS(access)
{
    int n = qkv_pick("n", 1, 3);
    box b = shape("a", n, qkv_bound(n == 3 ? 2 : 3, 3));
    chunk c(range_of(b));
    const chunk & cc = c;
    qkv_check(c.range() == range_of(b), "reports-its-range");
    qkv_check(c.volume() == b.volume(), "reports-its-volume");
    load(c, b, "v");
    int p[5], k = 0;
    begin(b, p);
    for (qk::indexer it = c.indexer(); it.exists(); it.next()) {
        double want = qkv_real("v", k, -4, 4);
        qkv_check_eq(cc[it], want, "read-back-by-indexer");
        qkv_check_eq(*cc.data(it), want, "read-back-by-pointer-at-indexer");
        qkv_check_eq(*c.data(it), want, "read-back-by-pointer-at-indexer");
        qkv_check_eq(*cc.data(p), want, "read-back-by-coordinates");
        qkv_check_eq(*c.data(p), want, "read-back-by-coordinates");
        qkv_check_eq(cc.data()[k], want, "read-back-by-position");
        qkv_check_eq(c.data()[k], want, "read-back-by-position");
        ++k;
        step(b, p);
    }
    qkv_reach("end");
}

QKV_HARNESS(fill)
{
    int n = qkv_pick("n", 1, 3);
    box b = shape("a", n, n == 3 ? 2 : 3), s = part("s", b);
    chunk c(range_of(b));
    load(c, b, "v");
    double x = qkv_real("x", 0, -4, 4);
    c.fill(range_of(s), x);
    int p[5], k = 0;
    begin(b, p);
    do {
        bool in = inside(s, p);
        qkv_check_eq(c.data()[k], in ? x : qkv_real("v", k, -4, 4), in ? "fill-sets-the-sub-range" : "fill-leaves-the-rest");
        ++k;
    } while (step(b, p));
    double y = qkv_real("y", 0, -4, 4);
    c.fill(y);
    for (k = 0; k < b.volume(); ++k) qkv_check_eq(c.data()[k], y, "fill-all");
    qkv_reach("end");
}

QKV_HARNESS(fillOutside)
{
    int n = qkv_pick("n", 1, 2);
    box b = shape("a", n, 2);
    chunk c(range_of(b));
    load(c, b, "v");
    box s = b;
    bool in = true;
    for (int i = 0; i < n; ++i) {
        s.lo[i] = b.lo[i] + qkv_picki("sl", i, -2, 3);
        s.up[i] = s.lo[i] + qkv_picki("sn", i, 1, 2);
        in = in && s.lo[i] >= b.lo[i] && s.up[i] <= b.up[i];
    }
    bool thrown = false;
    try {
        c.fill(range_of(s), 7.0);
    } catch (qk::exception &) {
        thrown = true;
    }
    qkv_check(thrown == !in, "fill-outside-is-refused");
    if (!in)
        for (int k = 0; k < b.volume(); ++k) qkv_check_eq(c.data()[k], qkv_real("v", k, -4, 4), "refused-fill-changes-nothing");
    qkv_reach("end");
}

QKV_HARNESS(pull)
{
    int n = qkv_pick("n", 1, 2);
    box b = shape("a", n, qkv_bound(n == 2 ? 2 : 4, n == 2 ? 3 : 5));
    box d = shape("d", n, qkv_bound(n == 2 ? 2 : 4, n == 2 ? 3 : 5));
    box s = part("s", b);
    box t = s;
    for (int i = 0; i < n; ++i) {
        if (s.len(i) > d.len(i)) return;
        t.lo[i] = d.lo[i] + qkv_picki("toff", i, 0, d.len(i) - s.len(i));
        t.up[i] = t.lo[i] + s.len(i);
    }
    chunk src(range_of(b)), dst(range_of(d));
    load(src, b, "v");
    load(dst, d, "w");
    dst.pull(src, range_of(s), range_of(t));
    int p[5], q[5], k = 0;
    begin(d, p);
    do {
        if (inside(t, p)) {
            for (int i = 0; i < n; ++i) q[i] = p[i] - t.lo[i] + s.lo[i];
            qkv_check_eq(dst.data()[k], qkv_real("v", flat(b, q), -4, 4), "pull-copies-cell-by-cell");
        } else qkv_check_eq(dst.data()[k], qkv_real("w", k, -4, 4), "pull-leaves-the-rest");
        ++k;
    } while (step(d, p));
    for (k = 0; k < b.volume(); ++k) qkv_check_eq(src.data()[k], qkv_real("v", k, -4, 4), "pull-leaves-the-source");
    qkv_reach("end");
}

// whole-container pull between containers at different positions
QKV_HARNESS(pullAll)
{
    int n = qkv_pick("n", 1, 3);
    box b = shape("a", n, 2), d = b;
    for (int i = 0; i < n; ++i) {
        int sh = qkv_inti("sh", i, -9, 9);
        d.lo[i] += sh;
        d.up[i] += sh;
    }
    chunk src(range_of(b)), dst(range_of(d));
    load(src, b, "v");
    load(dst, d, "w");
    dst.pull(src);
    for (int k = 0; k < b.volume(); ++k) qkv_check_eq(dst.data()[k], qkv_real("v", k, -4, 4), "pull-whole-container");
    check_box(dst.range(), d, "pull-keeps-the-destination-range");
    qkv_reach("end");
}

QKV_HARNESS(pullMismatch)
{
    box b = shape("a", 1, 4), d = shape("d", 1, 4);
    chunk src(range_of(b)), dst(range_of(d));
    load(src, b, "v");
    load(dst, d, "w");
    box s = b, t = d;
    s.lo[0] += qkv_pick("so", -2, 3);
    s.up[0] = s.lo[0] + qkv_pick("sl", 1, 4);
    t.lo[0] += qkv_pick("to", -2, 3);
    t.up[0] = t.lo[0] + qkv_pick("tl", 1, 4);
    bool ok = s.len(0) == t.len(0) && s.lo[0] >= b.lo[0] && s.up[0] <= b.up[0] && t.lo[0] >= d.lo[0] && t.up[0] <= d.up[0];
    bool thrown = false;
    try {
        dst.pull(src, range_of(s), range_of(t));
    } catch (qk::exception &) {
        thrown = true;
    }
    qkv_check(thrown == !ok, "pull-outside-or-mismatched-is-refused");
    if (!ok)
        for (int k = 0; k < d.volume(); ++k) qkv_check_eq(dst.data()[k], qkv_real("w", k, -4, 4), "refused-pull-changes-nothing");
    qkv_reach("end");
}

QKV_HARNESS(swap)
{
    int n = qkv_pick("n", 1, 3);
    box b = shape("a", n, 2);
    chunk x(range_of(b)), y(range_of(b));
    load(x, b, "v");
    load(y, b, "w");
    x.swap(y);
    for (int k = 0; k < b.volume(); ++k) {
        qkv_check_eq(x.data()[k], qkv_real("w", k, -4, 4), "swap-exchanges");
        qkv_check_eq(y.data()[k], qkv_real("v", k, -4, 4), "swap-exchanges");
    }
    check_box(x.range(), b, "swap-keeps-ranges");
    box d = shape("d", 1, 3);
    chunk z(range_of(d));
    load(z, d, "z");
    bool thrown = false;
    if (d.volume() != b.volume()) {
        try {
            x.swap(z);
        } catch (qk::exception &) {
            thrown = true;
        }
        qkv_check(thrown, "swap-of-different-volumes-is-refused");
        for (int k = 0; k < b.volume(); ++k) qkv_check_eq(x.data()[k], qkv_real("w", k, -4, 4), "refused-swap-changes-nothing");
        for (int k = 0; k < d.volume(); ++k) qkv_check_eq(z.data()[k], qkv_real("z", k, -4, 4), "refused-swap-changes-nothing");
    }
    qkv_reach("end");
}

QKV_HARNESS(copies)
{
    int n = qkv_pick("n", 1, 2);
    box b = shape("a", n, 3);
    chunk x(range_of(b));
    load(x, b, "v");
    chunk y(x);
    chunk z;
    z = x;
    check_box(y.range(), b, "copy-has-the-range");
    check_box(z.range(), b, "copy-has-the-range");
    x.fill(0.5);
    for (int k = 0; k < b.volume(); ++k) {
        qkv_check_eq(y.data()[k], qkv_real("v", k, -4, 4), "copy-is-independent-and-equal");
        qkv_check_eq(z.data()[k], qkv_real("v", k, -4, 4), "assignment-is-independent-and-equal");
    }
    // resizing gives the new range and its volume
    box d = shape("d", n, 2);
    y.resize(range_of(d));
    check_box(y.range(), d, "resize-sets-the-range");
    int cnt = 0;
    for (qk::indexer it = y.indexer(); it.exists(); it.next()) { y[it] = 1.0; ++cnt; }
    qkv_check(cnt == d.volume(), "resize-provides-every-cell");
    qkv_reach("end");
}

// a chunk of a mesh carries its data dimensions after the mesh dimensions
QKV_HARNESS(datachunk)
{
    int n = qkv_pick("n", 1, 2);
    box m = shape("m", n, 2);
    int comps = qkv_pick("comps", 1, 2);
    box dr;
    dr.n = 2;
    dr.lo[0] = dr.lo[1] = 0;
    dr.up[0] = 1;
    dr.up[1] = comps;
    qk::data::datachunk c;
    c.resize(range_of(m), range_of(dr));
    box full = m;
    full.n = n + 2;
    full.lo[n] = full.lo[n + 1] = 0;
    full.up[n] = 1;
    full.up[n + 1] = comps;
    check_box(c.range(), full, "mesh-then-data-dimensions");
    load(c, full, "v");
    box s = part("s", full);
    double f = qkv_real("f", 0, -4, 4);
    c.multiply_by_scalar(range_of(s), f);
    int p[5], k = 0;
    begin(full, p);
    do {
        double v = qkv_real("v", k, -4, 4);
        qkv_check_eq(c.data()[k], inside(s, p) ? f * v : v, "scaling-touches-only-the-sub-range");
        ++k;
    } while (step(full, p));
    qk::data::datachunk d;
    d = c;
    check_box(d.range(), full, "chunk-assignment");
    for (k = 0; k < full.volume(); ++k) qkv_check_eq(d.data()[k], c.data()[k], "chunk-assignment");
    d = d;
    for (k = 0; k < full.volume(); ++k) qkv_check_eq(d.data()[k], c.data()[k], "chunk-self-assignment");
    qk::data::datachunk e(c);
    check_box(e.range(), full, "chunk-copy");
    for (k = 0; k < full.volume(); ++k) qkv_check_eq(e.data()[k], c.data()[k], "chunk-copy");
    qkv_reach("end");
}

QKV_HARNESS(copyFunctions)
{
    int n = qkv_pick("n", 1, 2);
    box m = shape("m", n, 2), dr;
    dr.n = 1;
    dr.lo[0] = 0;
    dr.up[0] = 2;
    qk::data::datachunk a, b;
    a.resize(range_of(m), range_of(dr));
    b.resize(range_of(m), range_of(dr));
    box full = m;
    full.n = n + 1;
    full.lo[n] = 0;
    full.up[n] = 2;
    load(a, full, "v");
    load(b, full, "w");
    if (qkv_pick("whole", 0, 1)) {
        qk::data::full_copy(a, b);
        for (int k = 0; k < full.volume(); ++k) qkv_check_eq(b.data()[k], qkv_real("v", k, -4, 4), "full-copy");
    } else {
        box s = part("s", full);
        bool empty = qkv_pick("empty", 0, 1);
        if (empty) s.up[0] = s.lo[0];
        qk::data::copy_to(a, range_of(s), b, range_of(s));
        int p[5], k = 0;
        begin(full, p);
        do {
            bool in = inside(s, p);
            qkv_check_eq(b.data()[k], qkv_real(in ? "v" : "w", k, -4, 4), "copy-to-touches-only-the-sub-range");
            ++k;
        } while (step(full, p));
    }
    for (int k = 0; k < full.volume(); ++k) qkv_check_eq(a.data()[k], qkv_real("v", k, -4, 4), "copy-leaves-the-source");
    qkv_reach("end");
}

// copying between sub-ranges at different places of two chunks, or of one chunk
QKV_HARNESS(copyBetween)
{
    int n = qkv_pick("n", 1, 2);
    box m = shape("m", n, n == 1 ? 3 : 2), md = shape("d", n, n == 1 ? 3 : 2), dr;
    dr.n = 1;
    dr.lo[0] = 0;
    dr.up[0] = 2;
    box b = m, d = md;
    b.n = d.n = n + 1;
    b.lo[n] = d.lo[n] = 0;
    b.up[n] = d.up[n] = 2;
    box s = part("s", b);
    box t = s;
    for (int i = 0; i <= n; ++i) {
        if (s.len(i) > d.len(i)) return;
        t.lo[i] = d.lo[i] + qkv_picki("toff", i, 0, d.len(i) - s.len(i));
        t.up[i] = t.lo[i] + s.len(i);
    }
    qk::data::datachunk src, dst;
    src.resize(range_of(m), range_of(dr));
    dst.resize(range_of(md), range_of(dr));
    load(src, b, "v");
    load(dst, d, "w");
    qk::data::copy_to(src, range_of(s), dst, range_of(t));
    int p[5], q[5], k = 0;
    begin(d, p);
    do {
        if (inside(t, p)) {
            for (int i = 0; i <= n; ++i) q[i] = p[i] - t.lo[i] + s.lo[i];
            qkv_check_eq(dst.data()[k], qkv_real("v", flat(b, q), -4, 4), "copy-to-copies-cell-by-cell");
        } else qkv_check_eq(dst.data()[k], qkv_real("w", k, -4, 4), "copy-to-leaves-the-rest");
        ++k;
    } while (step(d, p));
    for (k = 0; k < b.volume(); ++k) qkv_check_eq(src.data()[k], qkv_real("v", k, -4, 4), "copy-leaves-the-source");
    qkv_reach("end");
}

QKV_HARNESS(copyMismatch)
{
    box m = shape("m", 1, 3), md = shape("d", 1, 3), dr;
    dr.n = 1;
    dr.lo[0] = 0;
    dr.up[0] = 1;
    qk::data::datachunk src, dst;
    src.resize(range_of(m), range_of(dr));
    dst.resize(range_of(md), range_of(dr));
    box b = m, d = md;
    b.n = d.n = 2;
    b.lo[1] = d.lo[1] = 0;
    b.up[1] = d.up[1] = 1;
    load(src, b, "v");
    load(dst, d, "w");
    box s = b, t = d;
    s.lo[0] += qkv_pick("so", -2, 3);
    s.up[0] = s.lo[0] + qkv_pick("sl", 1, 3);
    t.lo[0] += qkv_pick("to", -2, 3);
    t.up[0] = t.lo[0] + qkv_pick("tl", 1, 3);
    bool ok = s.len(0) == t.len(0) && s.lo[0] >= b.lo[0] && s.up[0] <= b.up[0] && t.lo[0] >= d.lo[0] && t.up[0] <= d.up[0];
    bool thrown = false;
    try {
        qk::data::copy_to(src, range_of(s), dst, range_of(t));
    } catch (qk::exception &) {
        thrown = true;
    }
    qkv_check(thrown == !ok, "copy-outside-or-mismatched-is-refused");
    if (!ok)
        for (int k = 0; k < d.volume(); ++k) qkv_check_eq(dst.data()[k], qkv_real("w", k, -4, 4), "refused-copy-changes-nothing");
    bool all = false;
    try {
        qk::data::full_copy(src, dst);
    } catch (qk::exception &) {
        all = true;
    }
    qkv_check(all == (b.volume() != d.volume()), "full-copy-of-different-volumes-is-refused");
    qkv_reach("end");
}

// an indexer beyond the container is refused in the checked build
QKV_HARNESS(checkedPointer)
{
    box b = shape("a", 1, 3);
    chunk c(range_of(b));
    load(c, b, "v");
    box w = b;
    w.up[0] = b.lo[0] + 8;
    qk::indexer it(range_of(w), range_of(w));
    int adv = qkv_pick("adv", 0, 6);
    for (int i = 0; i < adv; ++i) it.next();
    bool thrown = false;
    try {
        double v = *c.data(it);
        qkv_check_eq(v, qkv_real("v", adv, -4, 4), "checked-pointer-reads-the-cell");
    } catch (qk::exception &) {
        thrown = true;
    }
    qkv_check(thrown == (adv >= b.volume()), "pointer-outside-is-refused");
    thrown = false;
    try {
        const chunk & cc = c;
        double v = *cc.data(it);
        qkv_check_eq(v, qkv_real("v", adv, -4, 4), "checked-pointer-reads-the-cell");
    } catch (qk::exception &) {
        thrown = true;
    }
    qkv_check(thrown == (adv >= b.volume()), "pointer-outside-is-refused");
    qkv_reach("end");
}

// the same operations on containers far larger than any block or buffer a copy might use
static box big_box(int first, int n, int grow)
{
    static const int len[3][3] = {{1500, 0, 0}, {41, 29, 0}, {11, 9, 13}};
    box b;
    b.n = n;
    for (int i = 0; i < n; ++i) {
        b.lo[i] = first + 8 * i;
        b.up[i] = b.lo[i] + len[n - 1][i] + grow;
    }
    return b;
}
static box inner(const box & b, int lo, int up)
{
    box s = b;
    for (int i = 0; i < b.n; ++i) { s.lo[i] += lo + i; s.up[i] -= up + i; }
    return s;
}
static void check_moved(const chunk & dst, const box & d, const box & t, const box & b, const box & s, const char * what)
{
    int p[5], q[5], k = 0;
    begin(d, p);
    do {
        if (inside(t, p)) {
            for (int i = 0; i < d.n; ++i) q[i] = p[i] - t.lo[i] + s.lo[i];
            qkv_check_eq(dst.data()[k], qkv_real("v", flat(b, q), -4, 4), what);
        } else qkv_check_eq(dst.data()[k], qkv_real("w", k, -4, 4), what);
        ++k;
    } while (step(d, p));
}
QKV_HARNESS(large)
{
    int n = qkv_pick("n", 1, 3), op = qkv_pick("op", 0, 6);
    box b = big_box(-7, n, 0), d = big_box(5, n, op == 0 || op == 1 ? 1 : 0);
    box s = inner(b, 2, 3), t = inner(d, 1, op == 0 || op == 1 ? 5 : 4);
    qk::data::datachunk x, y;
    int zero = 0, one = 1;
    x.resize(range_of(b), qk::range(1, &zero, &one));
    y.resize(range_of(d), qk::range(1, &zero, &one));
    box * all[4] = {&b, &d, &s, &t};
    for (int i = 0; i < 4; ++i) {
        all[i]->n = n + 1;
        all[i]->lo[n] = 0;
        all[i]->up[n] = 1;
    }
    const int vb = b.volume(), vd = d.volume();
    load(x, b, "v");
    load(y, d, "w");
    double f = qkv_real("f", 0, -4, 4);
    int p[5], k = 0;
    if (op == 0) {
        y.pull(x, range_of(s), range_of(t));
        check_moved(y, d, t, b, s, "pull-large");
    } else if (op == 1) {
        qk::data::copy_to(x, range_of(s), y, range_of(t));
        check_moved(y, d, t, b, s, "copy-to-large");
    } else if (op == 2) {
        x.swap(y);
        for (k = 0; k < vb; ++k) {
            qkv_check_eq(x.data()[k], qkv_real("w", k, -4, 4), "swap-large");
            qkv_check_eq(y.data()[k], qkv_real("v", k, -4, 4), "swap-large");
        }
    } else if (op == 3) {
        qk::data::full_copy(x, y);
        for (k = 0; k < vd; ++k) qkv_check_eq(y.data()[k], qkv_real("v", k, -4, 4), "full-copy-large");
    } else if (op == 4) {
        y = x;
        qk::data::datachunk z(x);
        y.pull(x);
        for (k = 0; k < vd; ++k) {
            qkv_check_eq(y.data()[k], qkv_real("v", k, -4, 4), "assignment-large");
            qkv_check_eq(z.data()[k], qkv_real("v", k, -4, 4), "copy-large");
        }
    } else if (op == 5) {
        x.fill(range_of(s), f);
        begin(b, p);
        do {
            qkv_check_eq(x.data()[k], inside(s, p) ? f : qkv_real("v", k, -4, 4), "fill-large");
            ++k;
        } while (step(b, p));
        x.fill(2.);
        for (k = 0; k < vb; ++k) qkv_check_eq(x.data()[k], 2., "fill-all-large");
    } else {
        x.multiply_by_scalar(range_of(s), f);
        begin(b, p);
        do {
            double v = qkv_real("v", k, -4, 4);
            qkv_check_eq(x.data()[k], inside(s, p) ? f * v : v, "scaling-large");
            ++k;
        } while (step(b, p));
    }
    if (op == 0 || op == 1 || op == 3 || op == 4)
        for (k = 0; k < vb; ++k) qkv_check_eq(x.data()[k], qkv_real("v", k, -4, 4), "source-unchanged-large");
    qkv_reach("end");
}
