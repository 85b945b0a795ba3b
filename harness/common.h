// Shared harness helpers: boxes, meshes, symbolic field data.
#ifndef QKV_COMMON_H
#define QKV_COMMON_H
#include "qkv.h"
#include <cmath>
#include <string>
#include <vector>
#include "lib/range.h"
#include "lib/exception.h"

struct box {
    int n;
    int lo[5], up[5];
    int len(int i) const { return up[i] - lo[i]; }
    int volume() const
    {
        if (n == 0) return 0;
        int v = 1;
        for (int i = 0; i < n; ++i) v *= len(i);
        return v;
    }
};

inline box box_of(const qk::range & r)
{
    box b;
    b.n = r.num_dims();
    for (int i = 0; i < b.n && i < 5; ++i) { b.lo[i] = r.lower(i); b.up[i] = r.upper(i); }
    return b;
}

inline qk::range range_of(const box & b) { return qk::range(b.n, b.lo, b.up); }

inline void check_box(const qk::range & r, const box & b, const char * l)
{
    qkv_check(r.num_dims() == b.n, l);
    for (int i = 0; i < b.n; ++i) {
        qkv_check(r.lower(i) == b.lo[i], l);
        qkv_check(r.upper(i) == b.up[i], l);
    }
}

// any word of one of these lengths, its first and last characters symbolic
inline std::string any_word(const char * nm, int i, int lo = 1, int hi = 3)
{
    static const int LEN[4] = {0, 1, 3, 24};
    int l = LEN[qkv_picki((std::string(nm) + "len").c_str(), i, lo, hi)];
    std::string w(l, 'm');
    for (int k = 0; k < l; ++k)
        if (k < 2 || k == l - 1) w[k] = (char)qkv_inti(nm, 3 * i + (k < 2 ? k : 2), '!', '~');
    return w;
}

// odometer over a box, last dimension fastest; p starts at lo
inline bool step(const box & b, int * p)
{
    for (int i = b.n - 1; i >= 0; --i) {
        if (++p[i] < b.up[i]) return true;
        p[i] = b.lo[i];
    }
    return false;
}
inline void begin(const box & b, int * p) { for (int i = 0; i < b.n; ++i) p[i] = b.lo[i]; }
inline bool inside(const box & b, const int * p)
{
    for (int i = 0; i < b.n; ++i)
        if (p[i] < b.lo[i] || p[i] >= b.up[i]) return false;
    return true;
}
inline int flat(const box & b, const int * p)
{
    int k = 0;
    for (int i = 0; i < b.n; ++i) k = k * b.len(i) + (p[i] - b.lo[i]);
    return k;
}
#endif
