// Native side of the harness API: replays one concrete input against the real code.
#define QKV_NATIVE
#include "qkv.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <regex>
#include <sstream>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>
typedef std::map<std::string, void (*)()> regmap;
static regmap & reg() { static regmap m; return m; }
qkv_reg::qkv_reg(const char * n, void (*f)()) { reg()[n] = f; }
static std::map<std::string, double> & in() { static std::map<std::string, double> m; return m; }
static int fails = 0;
static bool get(const std::string & n, double & v)
{
    auto it = in().find(n);
    if (it == in().end()) return false;
    v = it->second;
    return true;
}
static int tier = 0;
static int checks = 0;
static int reached = 0;
extern "C" {
int qkv_symbolic(void) { return 0; }
int qkv_bound(int q, int t) { return tier ? t : q; }
int qkv_int(const char * n, int lo, int hi)
{
    double v;
    if (!get(n, v)) v = lo;
    if (v < lo || v > hi) { fprintf(stderr, "QKV-SKIP input %s out of range\n", n); exit(77); }
    return (int)v;
}
int qkv_pick(const char * n, int lo, int hi) { return qkv_int(n, lo, hi); }
int qkv_inti(const char * n, int i, int lo, int hi) { return qkv_int((std::string(n) + "." + std::to_string(i)).c_str(), lo, hi); }
int qkv_picki(const char * n, int i, int lo, int hi) { return qkv_inti(n, i, lo, hi); }
double qkv_real(const char * n, int i, double lo, double hi)
{
    double v;
    std::string k = std::string(n) + "." + std::to_string(i);
    if (!get(k, v)) v = lo + (hi - lo) * (0.25 + 0.5 * ((i * 7919 + 13) % 97) / 97.0);
    return v;
}
void qkv_assume(int c) { if (!c) { fprintf(stderr, "QKV-SKIP assumption not met\n"); exit(fails ? 1 : 77); } }
static void fail(const char * l, const std::string & d)
{
    if (fails++ < 10) { printf("QKV-FAIL %s %s\n", l, d.c_str()); fflush(stdout); }
}
void qkv_check(int c, const char * l) { ++checks; if (!c) fail(l, ""); }
void qkv_check_int(int a, int b, const char * l)
{
    ++checks;
    if (a != b) fail(l, "got " + std::to_string(a) + " expected " + std::to_string(b));
}
void qkv_check_eq(double a, double b, const char * l)
{
    ++checks;
    double m = std::fmax(std::fabs(a), std::fabs(b));
    static const char * ts = getenv("QKV_TOL");
    static const double rel = ts ? atof(ts) : 1e-9;
    double tol = rel * m + rel;
    // cross-check of an explored path: a sample may leave the domain (negative pressure); that is no verdict
    if (ts && !(std::isfinite(a) && std::isfinite(b))) return;
    if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b) || std::fabs(a - b) > tol) {
        char buf[128];
        snprintf(buf, sizeof buf, "got %.17g expected %.17g", a, b);
        fail(l, buf);
    }
}
void qkv_check_tight(double a, double b, const char * l)
{
    ++checks;
    if (!(std::fabs(a - b) <= 1e-12 * std::fmax(std::fabs(a), std::fabs(b)))) {
        char buf[128];
        snprintf(buf, sizeof buf, "got %.17g expected %.17g", a, b);
        fail(l, buf);
    }
}
void qkv_alone(void (*f)(void *, double *), void * arg, double * out, int n)
{
    int p[2];
    fflush(stdout);
    if (pipe(p)) { perror("pipe"); exit(2); }
    pid_t c = fork();
    if (c == 0) {
        f(arg, out);
        const char * d = (const char *)out;
        size_t left = n * sizeof(double);
        while (left) {
            ssize_t k = write(p[1], d, left);
            if (k <= 0) _exit(3);
            d += k;
            left -= k;
        }
        fflush(stdout);
        _exit(fails ? 1 : 0);
    }
    close(p[1]);
    char * d = (char *)out;
    size_t left = n * sizeof(double);
    ssize_t k;
    while (left && (k = read(p[0], d, left)) > 0) { d += k; left -= k; }
    close(p[0]);
    int st = 0;
    waitpid(c, &st, 0);
    if (left || st) exit(WIFEXITED(st) && WEXITSTATUS(st) ? WEXITSTATUS(st) : 1);
}
void qkv_reach(const char *) { ++reached; }
void qkv_debug(const char *, long) {}
void qkv_debugf(const char * n, double v) { if (getenv("QKV_VERBOSE")) printf("%s = %.17g\n", n, v); }
static std::vector<std::string> toks;
int qkv_file_read(const char * n)
{
    std::ifstream f(n);
    if (!f) return -1;
    toks.clear();
    std::string t;
    while (f >> t) toks.push_back(t);
    return (int)toks.size();
}
int qkv_tok_is(int i, const char * s) { return i >= 0 && i < (int)toks.size() && toks[i] == s; }
static void numbers(const std::string & t)
{
    static const std::regex re("[-+]?(?:\\d+\\.?\\d*|\\.\\d+)(?:[eE][-+]?\\d+)?");
    toks.clear();
    for (std::sregex_iterator i(t.begin(), t.end(), re), e; i != e; ++i) toks.push_back(i->str());
}
int qkv_text_read(const char * p, unsigned long n) { numbers(std::string(p, n)); return (int)toks.size(); }
static std::ostringstream cons;
static std::streambuf * outbuf;
void qkv_console_begin(void) { cons.str(""); outbuf = std::cout.rdbuf(cons.rdbuf()); }
int qkv_console_read(void) { std::cout.rdbuf(outbuf); numbers(cons.str()); return (int)toks.size(); }
int qkv_console_count(const char * w)
{
    int n = 0;
    std::string t = cons.str();
    for (size_t i = t.find(w); i != std::string::npos; i = t.find(w, i + 1)) ++n;
    return n;
}
void qkv_digits(int) {}
// natively the name is taken by a directory, or the device is full: at once (first try), or after so many bytes
// (all in the scratch directory the replay runs in)
static rlim_t fault_size = 0, fault_try = 0;
int qkv_fault_tries(const char * whole)
{
    struct stat st;
    if (stat(whole, &st)) abort();
    signal(SIGXFSZ, SIG_IGN);
    fault_size = st.st_size;
    fault_try = 0;
    return 1 + (int)fault_size;
}
void qkv_fault_file(const char * n, int at, int)
{
    if (at < 0) fault_try = 0;
    if (unlink(n)) rmdir(n);
    if (at < 0) mkdir(n, 0700);
    else if (fault_try == 0) { if (symlink("/dev/full", n)) abort(); }
    else {
        struct rlimit l;
        getrlimit(RLIMIT_FSIZE, &l);
        l.rlim_cur = fault_try - 1;
        setrlimit(RLIMIT_FSIZE, &l);
    }
    ++fault_try;
}
int qkv_fault_hit(void)
{
    struct rlimit l;
    getrlimit(RLIMIT_FSIZE, &l);
    l.rlim_cur = l.rlim_max;
    setrlimit(RLIMIT_FSIZE, &l);
    return 1;
}
void qkv_check_digits(double a, double b, const char * l)
{
    ++checks;
    if (!(std::fabs(a - b) <= 1e-5 * std::fmax(std::fabs(a), std::fabs(b)))) {
        char buf[128];
        snprintf(buf, sizeof buf, "got %.17g expected %.17g", a, b);
        fail(l, buf);
    }
}
int qkv_tok_int(int i)
{
    if (i < 0 || i >= (int)toks.size()) return -999999;
    char * e;
    long v = strtol(toks[i].c_str(), &e, 10);
    return *e ? -999999 : (int)v;
}
double qkv_tok_real(int i)
{
    if (i < 0 || i >= (int)toks.size()) return NAN;
    char * e;
    double v = strtod(toks[i].c_str(), &e);
    return *e ? NAN : v;
}
}
int main(int argc, char ** argv)
{
    if (argc < 3) return 2;
    std::ifstream f(argv[2]);
    std::string k;
    double v;
    while (f >> k) {
        std::string s;
        f >> s;
        v = strtod(s.c_str(), 0);
        if (k == "#tier") tier = (int)v;
        else in()[k] = v;
    }
    auto it = reg().find(argv[1]);
    if (it == reg().end()) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
    try {
        it->second();
    } catch (std::exception & e) {
        printf("QKV-FAIL uncaught-exception %s\n", e.what());
        return 1;
    } catch (...) {
        printf("QKV-FAIL uncaught-exception\n");
        return 1;
    }
    printf("QKV-DONE checks=%d reached=%d fails=%d\n", checks, reached, fails);
    return fails ? 1 : 0;
}
