// C02: an indexer visits every cell of its sub-range exactly once, in order, with the right position.
#include "common.h"
#include "lib/indexer.h"

// lengths of the sub-range are enumerated, every position/padding is symbolic
static box any_sub(int n, int lmin, int lmax)
{
    box b;
    b.n = n;
    for (int i = 0; i < n; ++i) {
        b.lo[i] = qkv_inti("lo", i, -100, 100);
        b.up[i] = b.lo[i] + qkv_picki("len", i, lmin, lmax);
    }
    return b;
}
// one longer sub-range per number of dimensions
static box long_sub(int n)
{
    static const int len[5][5] = {{300}, {17, 13}, {7, 5, 9}, {3, 5, 4, 6}, {3, 4, 2, 2, 5}};
    box b;
    b.n = n;
    for (int i = 0; i < n; ++i) {
        b.lo[i] = qkv_inti("lo", i, -100, 100);
        b.up[i] = b.lo[i] + len[n - 1][i];
    }
    return b;
}
static box any_sup(const box & s)
{
    box b = s;
    for (int i = 0; i < s.n; ++i) {
        b.lo[i] = s.lo[i] - qkv_inti("padlo", i, 0, 9);
        b.up[i] = s.up[i] + qkv_inti("padhi", i, 0, 9);
    }
    return b;
}

static void traverse(const box & s)
{
    const int n = s.n;
    box S = any_sup(s);
    int str[5], v = 1;
    for (int i = n - 1; i >= 0; --i) { str[i] = v; v *= S.len(i); }
    qk::range sub = range_of(s), sup = range_of(S);
    qk::indexer it(sub, sup);
    qk::indexer other;
    if (s.volume() == 0) {
        qkv_check(!it.exists(), "empty-sub-range-has-no-cells");
        qkv_reach("end");
        return;
    }
    int p[5];
    begin(s, p);
    bool more = true;
    int count = 0, lin = 0;
    while (more) {
        qkv_check(it.exists(), "exists-until-all-visited");
        lin = 0;
        for (int i = 0; i < n; ++i) {
            qkv_check(it.index(i) == p[i], "row-major-order");
            qkv_check(it[i] == p[i], "row-major-order");
            lin += (p[i] - S.lo[i]) * str[i];
        }
        qkv_check(it.linear_index() == lin, "linear-position");
        if (count == 1) {
            other = it;
            qk::indexer third(it);
            qkv_check(other.exists() && third.linear_index() == lin && other.linear_index() == lin && other.index(n - 1) == p[n - 1], "copies-point-at-the-same-cell");
        }
        more = step(s, p);
        ++count;
        if (count % 2) it.next(); else ++it;
    }
    qkv_check(!it.exists(), "ends-after-last-cell");
    // the last position, as seen from a fresh indexer, bounds a linear sweep
    qk::indexer fresh(sub, sup);
    qkv_check(fresh.final_linear_index() == lin + 1, "final-position-is-one-past-the-last-cell");
    qkv_reach("end");
}

QKV_HARNESS(traverse1) { traverse(any_sub(1, 0, qkv_bound(6, 12))); }
QKV_HARNESS(traverse2) { traverse(any_sub(2, 0, qkv_bound(3, 5))); }
QKV_HARNESS(traverse3) { traverse(any_sub(3, 0, qkv_bound(2, 3))); }
QKV_HARNESS(traverse4) { traverse(any_sub(4, 1, qkv_bound(2, 2))); }
QKV_HARNESS(traverseLong) { traverse(long_sub(qkv_pick("n", 1, 5))); }

// a sub-range that is not inside the super-range is never traversed
QKV_HARNESS(foreign)
{
    int n = qkv_pick("n", 1, 3);
    box s = any_sub(n, 1, 2), S = s;
    bool in = true;
    for (int i = 0; i < n; ++i) {
        S.lo[i] = qkv_inti("slo", i, -100, 100);
        S.up[i] = S.lo[i] + qkv_inti("slen", i, 1, 30);
        in = in & (S.lo[i] <= s.lo[i]) & (s.up[i] <= S.up[i]);
    }
    qk::indexer it(range_of(s), range_of(S));
    qkv_check(it.exists() == in, "exists-iff-inside");
    qk::range other(1, s.lo, s.up);
    if (n > 1) {
        qk::indexer k(other, range_of(S));
        qkv_check(!k.exists(), "dimension-mismatch-has-no-cells");
    }
    qk::indexer none;
    qkv_check(!none.exists(), "default-has-no-cells");
    qkv_reach("end");
}

// manual moves keep index and linear position in step
QKV_HARNESS(moves)
{
    int n = qkv_pick("n", 1, 5);
    box s = any_sub(n, 2, 2), S = any_sup(s);
    int str[5], v = 1;
    for (int i = n - 1; i >= 0; --i) { str[i] = v; v *= S.len(i); }
    qk::indexer it(range_of(s), range_of(S));
    int lin = it.linear_index();
    int d = qkv_pick("d", 0, n - 1), e = qkv_pick("e", 0, n - 1);
    it.increment(d);
    qkv_check(it.index(d) == s.lo[d] + 1, "increment-moves-one-dimension");
    qkv_check(it.linear_index() == lin + str[d], "increment-moves-linear-position");
    it.decrement(e);
    qkv_check(it.index(e) == s.lo[e] + (d == e ? 1 : 0) - 1, "decrement-moves-one-dimension");
    qkv_check(it.linear_index() == lin + str[d] - str[e], "decrement-moves-linear-position");
    qkv_reach("end");
}

// out-of-range dimensions are refused in the checked build
QKV_HARNESS(badDimension)
{
    int n = qkv_pick("n", 1, 3);
    box s = any_sub(n, 1, 1);
    qk::indexer it(range_of(s), range_of(s));
    int d = qkv_int("d", -3, 6);
    bool ok = (d >= 0) & (d < n);
    int which = qkv_pick("which", 0, 3);
    bool thrown = false;
    try {
        if (which == 0) it.index(d);
        else if (which == 1) it[d];
        else if (which == 2) it.increment(d);
        else it.decrement(d);
    } catch (qk::exception &) {
        thrown = true;
    }
    qkv_check(thrown == !ok, "dimension-outside-the-range-is-refused");
    qkv_reach("end");
}
