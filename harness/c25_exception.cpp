// C25: an error carries its message, unharmed by copying, assigning, catching or extending it.
#include "common.h"
#include "lib/exception.h"
#include <stdexcept>
#include <iostream>

static std::string text(int i)
{
    // lengths around the small-string limit, any letter
    static const int LEN[6] = {0, 1, 15, 16, 40, 300};
    int n = LEN[qkv_picki("len", i, 0, 5)];
    std::string s(n, 'x');
    for (int k = 0; k < n && k < 2; ++k) s[k] = (char)qkv_inti(i ? "cb" : "ca", k, 32, 126);
    return s;
}
static bool is(const char * p, const std::string & s)
{
    for (unsigned k = 0; k < s.size(); ++k)
        if (p[k] != s[k]) return false;
    return p[s.size()] == 0;
}

QKV_HARNESS(message)
{
    std::string s = text(0);
    qk::exception e(s);
    const char * p = e.what();
    qkv_check(is(p, s), "message");
    const char * q = e.what();
    qkv_check(is(p, s) && is(q, s), "message-stays-readable");
    qkv_reach("end");
}
QKV_HARNESS(copies)
{
    std::string s = text(0);
    qk::exception * e = new qk::exception(s);
    qk::exception f(*e);
    delete e;
    qkv_check(is(f.what(), s), "copy-carries-the-message");
    qkv_reach("end");
}
QKV_HARNESS(assigns)
{
    std::string s = text(0), t = text(1);
    qk::exception e(s), f(t);
    f = e;
    qkv_check(is(f.what(), s), "assignment-replaces-the-message");
    qkv_check(is(e.what(), s), "assignment-leaves-the-source");
    e = e;
    qkv_check(is(e.what(), s), "self-assignment");
    qkv_reach("end");
}
QKV_HARNESS(caught)
{
    std::string s = text(0);
    int how = qkv_pick("how", 0, 2);
    bool ok = false;
    try {
        throw qk::exception(s);
    } catch (std::exception & x) {
        if (how == 0) ok = is(x.what(), s);
        else if (how == 1) { qk::exception y(x); ok = is(y.what(), s); }
        else { qk::exception * y = dynamic_cast<qk::exception *>(&x); ok = y && is(y->what(), s); }
    }
    qkv_check(ok, "caught-error-carries-the-message");
    qkv_reach("end");
}
QKV_HARNESS(extends)
{
    std::string s = text(0), t = text(1);
    qk::exception e(s);
    e << t;
    qkv_check(is(e.what(), s + t), "extension-appends");
    qk::exception d;
    qkv_check(is(d.what(), ""), "default-is-empty");
    std::stringstream out;
    out << e;
    qkv_check(out.str() == s + t, "printing-shows-the-message");
    qkv_reach("end");
}
