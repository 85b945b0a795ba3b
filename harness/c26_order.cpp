// C26: bases and identifiers are totally ordered, consistently with equality.
#include "common.h"
#include "variable/variable_id.h"

static const char * NM[4] = {"a", "ab", "ac", "volume_average"};
static qk::basis::basis any_basis(int i)
{
    return qk::basis::basis(NM[qkv_picki("name", i, 0, 3)], qkv_inti("points", i, -1000, 1000));
}

QKV_HARNESS(basisOrder)
{
    qk::basis::basis a = any_basis(0), b = any_basis(1);
    qkv_check(!(a < a) && a == a && !(a != a), "irreflexive");
    qkv_check(!((a < b) && (b < a)), "asymmetric");
    qkv_check((a == b) == (!(a < b) && !(b < a)), "equality-matches-order");
    qkv_check((a != b) == !(a == b), "inequality-negates-equality");
    qkv_check((a == b) == (a.name() == b.name() && a.num_points() == b.num_points()), "equality-is-by-value");
    qkv_reach("end");
}
QKV_HARNESS(basisTransitive)
{
    qk::basis::basis a = any_basis(0), b = any_basis(1), c = any_basis(2);
    qkv_check(!((a < b) && (b < c)) || (a < c), "transitive");
    qkv_reach("end");
}
QKV_HARNESS(idOrder)
{
    qk::variable::variable_id v[3];
    int vn[3], vc[3];
    for (int i = 0; i < 3; ++i)
    {
        // one name has one component list; different names may have different ones
        vn[i] = qkv_picki("vname", i, 0, 2);
        vc[i] = qkv_picki("vcomps", vn[i], 1, 2);
        v[i] = qk::variable::variable_id(NM[vn[i]], std::vector<std::string>(vc[i], "x"),
                                         qk::basis::basis(NM[qkv_picki("name", i, 0, 1)], qkv_inti("points", i, -1000, 1000)));
    }
    qkv_check(!(v[0] < v[0]) && v[0] == v[0], "irreflexive");
    qkv_check(!((v[0] < v[1]) && (v[1] < v[0])), "asymmetric");
    qkv_check((v[0] == v[1]) == (!(v[0] < v[1]) && !(v[1] < v[0])), "equality-matches-order");
    qkv_check(!((v[0] < v[1]) && (v[1] < v[2])) || (v[0] < v[2]), "transitive");
    qkv_check((v[0] == v[1]) == (v[0].name() == v[1].name() && v[0].basis() == v[1].basis()), "equality-is-by-value");
    qkv_reach("end");
}
// one name with two different component lists is refused, not silently merged
QKV_HARNESS(componentMismatch)
{
    int ka = qkv_pick("ka", 0, 2), kb = qkv_pick("kb", 0, 2);
    std::vector<std::string> ca, cb;
    for (int i = 0; i < ka; ++i) ca.push_back(NM[qkv_picki("ca", i, 0, 1)]);
    for (int i = 0; i < kb; ++i) cb.push_back(NM[qkv_picki("cb", i, 0, 1)]);
    qk::variable::variable_id a("v", ca, qk::basis::basis("a", 1)), b("v", cb, qk::basis::basis("a", 1));
    bool threw = false, threw2 = false, eq = false, lt = false;
    try { eq = a == b; } catch (qk::exception &) { threw = true; }
    try { lt = a < b; } catch (qk::exception &) { threw2 = true; }
    qkv_check(threw == (ca != cb) && threw2 == (ca != cb), "component-mismatch-is-refused");
    if (ca == cb) qkv_check(eq && !lt, "same-components-are-equal");
    qkv_reach("end");
}

// names of any characters
QKV_HARNESS(words)
{
    std::string w[3];
    for (int i = 0; i < 3; ++i) w[i] = any_word("w", i, i ? 1 : 0);
    int pts = qkv_int("points", 1, 3);
    qk::basis::basis a(w[0], pts), b(w[1], pts), c(w[2], pts);
    bool same = w[0].size() == w[1].size();
    for (size_t k = 0; same && k < w[0].size(); ++k) same = w[0][k] == w[1][k];
    qkv_check((a == b) == same && (a != b) == !same, "bases-differ-iff-a-character-differs");
    qkv_check((a < b || b < a) == !same, "one-of-two-different-bases-is-first");
    qkv_check(!(a < b && b < c) || a < c, "transitive");
    std::vector<std::string> x(1, "x");
    qk::basis::basis one("p", 1);
    qk::variable::variable_id u(w[0], x, one), v(w[1], x, one), t(w[2], x, one);
    qkv_check((u == v) == same, "ids-differ-iff-a-character-differs");
    qkv_check((u < v || v < u) == !same, "one-of-two-different-ids-is-first");
    qkv_check(!(u < v && v < t) || u < t, "transitive");
    qkv_reach("end");
}
QKV_HARNESS(componentWords)
{
    std::vector<std::string> x(2, "x"), y(2, "x");
    int at = qkv_pick("at", 0, 1);
    x[at] = any_word("w", 0);
    y[at] = any_word("w", 1);
    bool same = x[at].size() == y[at].size();
    for (size_t k = 0; same && k < x[at].size(); ++k) same = x[at][k] == y[at][k];
    qk::variable::variable_id a("v", x, qk::basis::basis("a", 1)), b("v", y, qk::basis::basis("a", 1));
    bool threw = false;
    try { qkv_check(a == b && !(a < b), "same-components-are-equal"); } catch (const qk::exception &) { threw = true; }
    qkv_check(threw == !same, "component-mismatch-is-refused");
    qkv_reach("end");
}
