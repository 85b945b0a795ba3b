// C01: index-space ranges obey box algebra for every lower/upper bound.
#include "qkv.h"
#include "lib/range.h"
#include <string>

static const char * nm(char * b, const char * p, int i)
{
    int k = 0;
    while (p[k]) { b[k] = p[k]; ++k; }
    b[k] = '0' + i;
    b[k + 1] = 0;
    return b;
}

struct box { int n; int lo[8], up[8]; };

static box any_box(const char * p, int n, int maxlen)
{
    box b;
    b.n = n;
    char t[16];
    std::string ps(p);
    for (int i = 0; i < n; ++i) {
        b.lo[i] = qkv_int(nm(t, (ps + "lo").c_str(), i), -1000, 1000);
        int len = qkv_int(nm(t, (ps + "len").c_str(), i), 0, maxlen);
        b.up[i] = b.lo[i] + len;
    }
    return b;
}

static void same(const qk::range & r, const box & b, const char * l)
{
    qkv_check(r.num_dims() == b.n, l);
    int vol = b.n ? 1 : 0;
    for (int i = b.n - 1; i >= 0; --i) {
        qkv_check(r.lower(i) == b.lo[i], l);
        qkv_check(r.upper(i) == b.up[i], l);
        qkv_check(r.length(i) == b.up[i] - b.lo[i], l);
        qkv_check(r.stride(i) == vol, l);
        vol *= b.up[i] - b.lo[i];
    }
    qkv_check(r.volume() == vol, l);
}

static int ndims(int hi) { return qkv_pick("n", 1, hi); }

QKV_HARNESS(construct)
{
    int n = ndims(5);
    box b = any_box("a", n, n > 3 ? 6 : 60);
    qk::range r(n, b.lo, b.up);
    same(r, b, "bounds-ctor");
    qk::range c(r);
    same(c, b, "copy-ctor");
    same(r, b, "copy-source-unchanged");
    qkv_check((c == r) && !(c != r), "copy-equal");
    qk::range d;
    qkv_check(d.num_dims() == 0 && d.volume() == 0, "default-empty");
    d = r;
    same(d, b, "assign");
    qk::range e;
    e.resize(r);
    same(e, b, "resize-range");
    e.resize(n, b.lo, b.up);
    same(e, b, "resize-bounds");
    d = d;
    same(d, b, "self-assign");
    box z = b;
    for (int i = 0; i < n; ++i) { z.up[i] = b.up[i] - b.lo[i]; z.lo[i] = 0; }
    qk::range f(n, z.up);
    same(f, z, "dims-ctor-starts-at-zero");
    qkv_reach("end");
}

QKV_HARNESS(modify)
{
    int n = ndims(5);
    box b = any_box("a", n, n > 3 ? 6 : 40);
    int d = qkv_pick("dim", 0, n - 1);
    int x = qkv_int("x", -50, 50), y = qkv_int("y", -50, 50);
    qk::range r(n, b.lo, b.up);
    {
        qk::range e(r);
        box w = b;
        w.lo[d] += x; w.up[d] += y;
        e.expand(d, x, y);
        same(e, w, "expand-one-dimension");
    }
    {
        qk::range e(r);
        box w = b;
        w.lo[d] += x; w.up[d] += x;
        e.shift(d, x);
        same(e, w, "shift-one-dimension");
    }
    {
        qk::range e(r);
        box w = b;
        w.lo[d] = x; w.up[d] = y;
        e.set(d, x, y);
        same(e, w, "set-one-dimension");
    }
    {
        qk::range e(r);
        box w = b;
        w.n = n + 1; w.lo[n] = x; w.up[n] = y;
        e.extrude(x, y);
        same(e, w, "extrude-adds-fastest-dimension");
    }
    same(r, b, "original-unchanged");
    qkv_reach("end");
}

QKV_HARNESS(relations)
{
    int n = ndims(5), m = qkv_pick("m", 1, 5);
    box a = any_box("a", n, n > 3 ? 6 : 60), b = any_box("b", m, m > 3 ? 6 : 60);
    qk::range ra(n, a.lo, a.up), rb(m, b.lo, b.up);
    bool inc = n == m, eq = n == m;
    if (n == m)
        for (int i = 0; i < n; ++i) {
            inc = inc & (a.lo[i] <= b.lo[i]) & (b.up[i] <= a.up[i]);
            eq = eq & (a.lo[i] == b.lo[i]) & (b.up[i] == a.up[i]);
        }
    qkv_check(ra.includes(rb) == inc, "includes-iff-box-containment");
    qkv_check((ra == rb) == eq, "equality-iff-same-bounds");
    qkv_check((ra != rb) == !eq, "inequality-negates-equality");
    qkv_reach("end");
}
