// C04: domain decomposition tiles the super-range.
#include "common.h"
#include "lib/indexer.h"
#include "lib/range_set.h"

static void partition(int n, int divs, int maxlen, int minlen)
{
    box b;
    b.n = n;
    int ns[3];
    for (int i = 0; i < n; ++i) {
        ns[i] = qkv_picki("div", i, 1, divs);
        b.lo[i] = qkv_inti("lo", i, -1000, 1000);
        b.up[i] = b.lo[i] + qkv_inti("len", i, minlen, maxlen);
    }
    qk::range_set rs(range_of(b), ns);
    qk::range dims(n, ns);
    qkv_check(rs.range() == dims, "one-piece-per-subdivision");
    // per dimension: pieces in order, adjacent, covering [lo,up)
    for (qk::indexer it = rs.indexer(); it.exists(); it.next()) {
        const qk::range & r = rs[it];
        qkv_check(r.num_dims() == n, "piece-has-all-dimensions");
        for (int d = 0; d < n; ++d) {
            qkv_check(r.lower(d) <= r.upper(d), "piece-is-not-inverted");
            if (it.index(d) == 0) qkv_check(r.lower(d) == b.lo[d], "first-piece-starts-at-the-lower-bound");
            if (it.index(d) == ns[d] - 1) qkv_check(r.upper(d) == b.up[d], "last-piece-ends-at-the-upper-bound");
            else {
                int q[3];
                for (int k = 0; k < n; ++k) q[k] = it.index(k) + (k == d ? 1 : 0);
                const qk::range & s = *rs.data(q);
                qkv_check(r.upper(d) == s.lower(d), "neighbouring-pieces-touch");
                for (int k = 0; k < n; ++k)
                    if (k != d) qkv_check((r.lower(k) == s.lower(k)) & (r.upper(k) == s.upper(k)), "neighbouring-pieces-align");
            }
        }
    }
    qkv_reach("end");
}

QKV_HARNESS(one) { partition(1, qkv_bound(5, 9), qkv_bound(40, 90), 0); }
QKV_HARNESS(two) { partition(2, qkv_bound(2, 3), qkv_bound(6, 10), 0); }
QKV_HARNESS(three) { partition(3, 2, qkv_bound(2, 4), 1); }
// large meshes: piece boundaries must not depend on single-precision rounding
QKV_HARNESS(large) { partition(1, 3, 16777300, 16777290); }
