// Every solver and how to configure it: k = 1 is the configuration under test, k = 0 a former one.
#ifndef QKV_SOLVERS_H
#define QKV_SOLVERS_H
#include "phys.h"
#include "solver/bc_conducting_wall.h"
#include "solver/bc_copy_out.h"
#include "solver/bc_free_slip.h"
#include "solver/bc_no_slip.h"
#include "solver/bc_periodic.h"
#include "solver/brio_wu_shock_tube.h"
#include "solver/current_source.h"
#include "solver/electromagnetic_wave_1D.h"
#include "solver/euler.h"
#include "solver/fill.h"
#include "solver/gaussian.h"
#include "solver/gem_challenge.h"
#include "solver/lorentz_force.h"
#include "solver/magnetic_pulse.h"
#include "solver/maxwell.h"
#include "solver/radial_shock_tube.h"
#include "solver/rk1.h"
#include "solver/shock_tube.h"
#include "solver/ssprk2_advection.h"
#include "solver/ssprk3.h"
#include "solver/swap.h"

static const char * NM[6] = {"a", "b", "c", "d", "e", "f"};
static const double LO[6] = {1, -2, -2, -2, 7, -2}, HI[6] = {2, 2, 2, 2, 9, 2};
static double par(const char * nm, int set) { return qkv_real(nm, set, 1.1, 1.9); }
static const int GAS[6] = {5, 5, 5, 5, 5, 5}, EM[6] = {6, 6, 6, 6, 6, 6}, FORCE[6] = {5, 6, 5, 5, 5, 5}, CUR[6] = {5, 5, 6, 6, 6, 6}, ONE[6] = {1, 1, 1, 1, 1, 1}, PLASMA[6] = {5, 5, 6, 5, 5, 6};
static std::vector<int> some(int set, int n)
{
    // any set of dimensions, before and after
    int mask = qkv_picki("dims", set, 0, (1 << n) - 1);
    std::vector<int> d;
    for (int i = 0; i < n; ++i)
        if (mask >> i & 1) d.push_back(i);
    return d;
}
struct c_euler { void operator()(qk::solver::euler & s, int k, int) const { s.setup(par("gamma", k)); } };
struct c_maxwell { void operator()(qk::solver::maxwell & s, int k, int) const { s.setup(par("c", k)); } };
struct c_lorentz { void operator()(qk::solver::lorentz_force & s, int k, int) const { s.setup(par("q", k), par("m", k)); } };
struct c_current2 {
    void operator()(qk::solver::current_source & s, int k, int) const
    {
        std::vector<double> q(2, par("q", k)), m(2, par("m", k));
        s.setup(par("e", k), q, m);
        try { s.setup(par("e", 2), q, std::vector<double>(3, 1.)); qkv_check(0, "unequal-lists-refused"); } catch (const qk::exception &) {}
    }
};
struct c_none { template<class S> void operator()(S &, int, int) const {} };
struct c_adv {
    void operator()(qk::solver::ssprk2_advection & s, int k, int n) const
    {
        std::vector<double> v;
        for (int d = 0; d < n; ++d) { double x = qkv_real("v", 3 * k + d, k ? -1 : 0.2, k ? -0.2 : 1); qkv_assume(x != 0); v.push_back(x); }
        s.setup(v);
    }
};
struct c_bc { template<class S> void operator()(S & s, int k, int n) const { s.setup(some(k, n)); } };
struct c_fill { void operator()(qk::solver::fill & s, int k, int) const { s.setup(par("x", k)); } };
struct c_gauss {
    void operator()(qk::solver::gaussian & s, int k, int) const
    {
        std::vector<double> av;
        for (int i = 0; i < (k ? 1 : 3); ++i) av.push_back(qkv_real("av", 3 * k + i, -1, 1));
        s.setup(par("amp", k), av, par("sd", k));
    }
};
struct c_pulse { void operator()(qk::solver::magnetic_pulse & s, int k, int) const { s.setup(par("amp", k), par("sd", k)); } };
struct c_tube { void operator()(qk::solver::shock_tube & s, int k, int) const { s.setup(par("rho", k), par("P", k), par("gamma", k)); } };
struct c_radial {
    void operator()(qk::solver::radial_shock_tube & s, int k, int) const
    {
        std::vector<double> c;
        for (int i = 0; i < (k ? 1 : 3); ++i) c.push_back(qkv_real("ctr", 3 * k + i, -1, 1));
        s.setup(par("r", k), par("rho", k), par("P", k), par("gamma", k), c);
    }
};
struct c_wave { void operator()(qk::solver::electromagnetic_wave_1D & s, int k, int n) const { s.setup(k ? n - 1 : 0, par("c", k), par("k", k), par("Bx", k), par("By", k), par("Bz", k)); } };
struct c_brio {
    void operator()(qk::solver::brio_wu_shock_tube & s, int k, int) const
    {
        s.setup(par("gamma", k), par("me", k), par("mi", k), par("nl", k), par("nr", k), par("Pl", k), par("Pr", k), par("Bx", k), par("By", k));
    }
};
struct c_gem {
    void operator()(qk::solver::gem_challenge & s, int k, int) const
    {
        s.setup(par("lambda", k), par("Lx", k), par("n0", k), par("n1", k), par("gamma", k), par("qe", k), par("me", k), par("ue", k), par("Te", k), par("qi", k), par("mi", k), par("ui", k), par("Ti", k), par("B0", k));
    }
};
#endif
