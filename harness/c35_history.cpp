// C35: what a solver computes depends on what it is given, not on what was computed before in the same process.
#include "solvers.h"

static const int BIG = 4096;
static double alone[BIG], after[BIG];

struct world {
    mesh_t g;
    qk::grid::rectilinear grid;
    manager_t mgr;
    std::vector<vid_t> ids;
    const int * comps;
    world(const mesh_t & m, const int * c, int set) : g(m), grid(grid_of(m)), mgr(grid), comps(c)
    {
        for (int i = 0; i < 6; ++i) ids.push_back(field_id(NM[i], comps[i]));
        load(set);
    }
    // set 0: the contents under test; 1: others
    void load(int set)
    {
        mgr.set_dt(qkv_real("dt", set, 0.1, 1));
        mgr.set_time(qkv_real("time", set, 0.1, 1));
        for (int i = 0; i < 6; ++i) load_h(chunk_of(mgr, ids[i]), g, comps[i], (std::string(set ? "h" : "") + NM[i]).c_str(), LO, HI);
    }
    int read(double * out)
    {
        int at_ = 0;
        for (int i = 0; i < 6; ++i) {
            chunk_t & x = chunk_of(mgr, ids[i]);
            for (int k = 0; k < x.volume(); ++k) out[at_++] = x.data()[k];
        }
        return at_;
    }
};
static mesh_t other_mesh(int n)
{
    mesh_t g;
    g.m.n = n;
    for (int i = 0; i < n; ++i) {
        g.m.lo[i] = i - 1;
        g.m.up[i] = g.m.lo[i] + 3 - i;
        g.start[i] = qkv_real("hstart", i, -2, 2);
        g.width[i] = qkv_real("hwidth", i, 0.5, 3);
        qkv_assume(g.width[i] > 0);
    }
    return g;
}
template<class S, class CONF> struct job {
    int ins, outs, tag, n;
    const int * comps;
    mesh_t g;
    void wire(S & s, world & w) const
    {
        for (int i = 0; i < ins; ++i) s.add_input_variable(w.ids[i]);
        for (int i = 0; i < outs; ++i) s.add_output_variable(w.ids[ins + i]);
    }
    static void fresh(void * self, double * out)
    {
        const job & j = *(const job *)self;
        world w(j.g, j.comps, 0);
        S s;
        CONF()(s, 1, j.n);
        j.wire(s, w);
        s.solve(w.mgr, j.tag);
        w.read(out);
    }
};
template<class S, class CONF> static void check(CONF conf, int ins, int outs, const int * comps, int tags)
{
    job<S, CONF> j;
    int how = qkv_pick("how", 0, 3);
    j.n = qkv_pick("n", 1, 2);
    j.ins = ins;
    j.outs = outs;
    j.comps = comps;
    j.tag = qkv_pick("tag", 0, tags - 1);
    int lmax[3] = {2, 2, 2};
    j.g = any_mesh3(j.n, lmax, 2);
    int vol = 0;
    for (int i = 0; i < 6; ++i) vol += comps[i];
    for (int i = 0; i < j.n; ++i) vol *= 6;
    qkv_check(vol <= BIG, "fits");
    qkv_alone(job<S, CONF>::fresh, &j, alone, vol);
    S s;
    if (how == 0) {             // another object, configured otherwise, on another mesh
        int n = qkv_pick("others", 1, 2);
        world h(other_mesh(n), comps, 1);
        S o;
        conf(o, 0, n);
        j.wire(o, h);
        o.solve(h.mgr, j.tag);
        conf(s, 1, j.n);
    } else if (how == 1) {      // the same object on another mesh
        world h(other_mesh(j.n), comps, 1);
        S o;
        conf(s, 1, j.n);
        j.wire(s, h);
        s.solve(h.mgr, j.tag);
    } else if (how == 2) {      // the same object, refused
        conf(s, 1, j.n);
        world h(other_mesh(j.n), comps, 1);
        try { s.solve(h.mgr, j.tag); } catch (const qk::exception &) {}
    } else conf(s, 1, j.n);
    world w(j.g, comps, how == 3);
    if (how != 1) j.wire(s, w);
    if (how == 3) {             // the same object on the same fields with other contents, another step and time
        s.solve(w.mgr, j.tag);
        w.load(0);
    }
    s.solve(w.mgr, j.tag);
    int k = w.read(after);
    qkv_check(k == vol, "fits");
    for (int i = 0; i < vol; ++i) qkv_check_eq(after[i], alone[i], "same-as-in-a-fresh-process");
    qkv_reach("end");
}
QKV_HARNESS(euler) { check<qk::solver::euler>(c_euler(), 1, 1, GAS, 1); }
QKV_HARNESS(maxwell) { check<qk::solver::maxwell>(c_maxwell(), 1, 1, EM, 1); }
QKV_HARNESS(lorentz) { check<qk::solver::lorentz_force>(c_lorentz(), 2, 1, FORCE, 1); }
QKV_HARNESS(current) { check<qk::solver::current_source>(c_current2(), 2, 1, CUR, 1); }
QKV_HARNESS(ssprk3) { check<qk::solver::ssprk3>(c_none(), 2, 3, ONE, 3); }
QKV_HARNESS(rk1) { check<qk::solver::rk1>(c_none(), 2, 1, ONE, 1); }
QKV_HARNESS(advection) { check<qk::solver::ssprk2_advection>(c_adv(), 1, 2, ONE, 2); }
QKV_HARNESS(periodic) { check<qk::solver::bc_periodic>(c_bc(), 0, 2, ONE, 1); }
QKV_HARNESS(copyOut) { check<qk::solver::bc_copy_out>(c_bc(), 0, 2, ONE, 1); }
QKV_HARNESS(noSlip) { check<qk::solver::bc_no_slip>(c_bc(), 0, 2, GAS, 1); }
QKV_HARNESS(freeSlip) { check<qk::solver::bc_free_slip>(c_bc(), 0, 2, GAS, 1); }
QKV_HARNESS(wall) { check<qk::solver::bc_conducting_wall>(c_bc(), 0, 2, EM, 1); }
QKV_HARNESS(fill) { check<qk::solver::fill>(c_fill(), 0, 2, ONE, 1); }
QKV_HARNESS(swap) { check<qk::solver::swap>(c_none(), 0, 4, ONE, 1); }
QKV_HARNESS(gaussian) { check<qk::solver::gaussian>(c_gauss(), 0, 1, ONE, 1); }
QKV_HARNESS(pulse) { check<qk::solver::magnetic_pulse>(c_pulse(), 0, 1, EM, 1); }
QKV_HARNESS(tube) { check<qk::solver::shock_tube>(c_tube(), 0, 1, GAS, 1); }
QKV_HARNESS(radial) { check<qk::solver::radial_shock_tube>(c_radial(), 0, 1, GAS, 1); }
QKV_HARNESS(wave) { check<qk::solver::electromagnetic_wave_1D>(c_wave(), 0, 1, EM, 1); }
QKV_HARNESS(brioWu) { check<qk::solver::brio_wu_shock_tube>(c_brio(), 0, 3, PLASMA, 1); }
QKV_HARNESS(gem) { check<qk::solver::gem_challenge>(c_gem(), 0, 3, PLASMA, 1); }
