// C29: a solver is its last configuration: reconfiguring replaces, copies are complete and independent.
#include "solvers.h"

struct world {
    const mesh_t & g;
    qk::grid::rectilinear grid;
    manager_t mgr;
    std::vector<vid_t> ids;
    world(const mesh_t & m, const int * comps) : g(m), grid(grid_of(m)), mgr(grid)
    {
        mgr.set_dt(qkv_real("dt", 0, 0.1, 1));
        for (int i = 0; i < 6; ++i) {
            ids.push_back(field_id(NM[i], comps[i]));
            load_h(chunk_of(mgr, ids[i]), g, comps[i], NM[i], LO, HI);
        }
    }
};
// the first ins fields are inputs, the next outs fields outputs
static std::vector<vid_t> list(const world & w, int from, int n)
{
    std::vector<vid_t> v;
    for (int i = from; i < from + n; ++i) v.push_back(w.ids[i]);
    return v;
}
template<class S, class CONF> static void check(CONF conf, int ins, int outs, const int * comps, int tags, int n)
{
    int lmax[3] = {2, 2, 2};
    mesh_t g = any_mesh3(n, lmax, 2);
    int tag = qkv_pick("tag", 0, tags - 1), how = qkv_pick("how", 0, 3);
    world a(g, comps), b(g, comps);
    S ref;
    conf(ref, 1, n);
    for (int i = 0; i < ins; ++i) ref.add_input_variable(a.ids[i]);
    for (int i = 0; i < outs; ++i) ref.add_output_variable(a.ids[ins + i]);
    ref.solve(a.mgr, tag);
    S s;
    conf(s, 0, n);
    if (how == 0) {             // wired elsewhere and configured differently before
        s.set_input_variables(list(b, 6 - ins, ins));
        s.set_output_variables(list(b, 0, outs));
    } else if (how == 1) {      // used before with that configuration, elsewhere
        s.set_input_variables(list(b, 0, ins));
        s.set_output_variables(list(b, ins, outs));
        world c(g, comps);
        s.solve(c.mgr, tag);
    }
    conf(s, 1, n);
    s.set_input_variables(list(b, 0, ins));
    s.set_output_variables(list(b, ins, outs));
    if (how < 2) s.solve(b.mgr, tag);
    else if (how == 2) {        // a copy, the original changed afterwards
        S t(s);
        conf(s, 0, n);
        s.set_input_variables(list(b, 6 - ins, ins));
        s.set_output_variables(list(b, 0, outs));
        t.solve(b.mgr, tag);
    } else {                    // assigned over another configuration
        S t;
        conf(t, 0, n);
        t.set_output_variables(list(b, 0, outs));
        t = s;
        conf(s, 0, n);
        s.set_output_variables(list(b, 0, outs));
        t.solve(b.mgr, tag);
    }
    for (int i = 0; i < 6; ++i) {
        chunk_t & x = chunk_of(a.mgr, a.ids[i]);
        chunk_t & y = chunk_of(b.mgr, b.ids[i]);
        for (int k = 0; k < x.volume(); ++k) qkv_check_eq(y.data()[k], x.data()[k], "same-as-a-fresh-solver");
    }
    qkv_reach("end");
}
static int dims(int hi) { return qkv_pick("n", 1, hi); }
QKV_HARNESS(euler) { check<qk::solver::euler>(c_euler(), 1, 1, GAS, 1, dims(2)); }
QKV_HARNESS(maxwell) { check<qk::solver::maxwell>(c_maxwell(), 1, 1, EM, 1, dims(2)); }
QKV_HARNESS(lorentz) { check<qk::solver::lorentz_force>(c_lorentz(), 2, 1, FORCE, 1, dims(2)); }
struct c_current {
    void operator()(qk::solver::current_source & s, int k, int) const
    {
        std::vector<double> q, m;
        for (int i = 0; i < (k ? 2 : qkv_pick("former", 1, 3)); ++i) { q.push_back(par("q", 4 * k + i)); m.push_back(par("m", 4 * k + i)); }
        try { s.setup(par("e", 2), q, std::vector<double>(m.size() + 1, 1.)); qkv_check(0, "unequal-lists-refused"); } catch (const qk::exception &) {}
        s.setup(par("e", k), q, m);
    }
};
QKV_HARNESS(current) { check<qk::solver::current_source>(c_current2(), 2, 1, CUR, 1, dims(2)); }
// a former configuration with more or fewer species
QKV_HARNESS(currentSpecies)
{
    mesh_t g = any_mesh(1, 1, 2);
    world a(g, CUR), b(g, CUR);
    qk::solver::current_source r, s;
    c_current c;
    c(r, 1, 1);
    c(s, 0, 1);
    c(s, 1, 1);
    for (int i = 0; i < 2; ++i) { r.add_input_variable(a.ids[i]); s.add_input_variable(b.ids[i]); }
    r.add_output_variable(a.ids[2]);
    s.add_output_variable(b.ids[2]);
    r.solve(a.mgr);
    s.solve(b.mgr);
    chunk_t & x = chunk_of(a.mgr, a.ids[2]);
    chunk_t & y = chunk_of(b.mgr, b.ids[2]);
    for (int k = 0; k < x.volume(); ++k) qkv_check_eq(y.data()[k], x.data()[k], "same-as-a-fresh-solver");
    qkv_reach("end");
}
QKV_HARNESS(ssprk3) { check<qk::solver::ssprk3>(c_none(), 2, 3, ONE, 3, dims(2)); }
QKV_HARNESS(rk1) { check<qk::solver::rk1>(c_none(), 2, 1, ONE, 1, dims(2)); }
QKV_HARNESS(advection) { check<qk::solver::ssprk2_advection>(c_adv(), 1, 2, ONE, 2, dims(2)); }
QKV_HARNESS(periodic) { check<qk::solver::bc_periodic>(c_bc(), 0, 2, ONE, 1, dims(2)); }
QKV_HARNESS(copyOut) { check<qk::solver::bc_copy_out>(c_bc(), 0, 2, ONE, 1, dims(2)); }
QKV_HARNESS(noSlip) { check<qk::solver::bc_no_slip>(c_bc(), 0, 2, GAS, 1, dims(2)); }
QKV_HARNESS(freeSlip) { check<qk::solver::bc_free_slip>(c_bc(), 0, 2, GAS, 1, dims(2)); }
QKV_HARNESS(wall) { check<qk::solver::bc_conducting_wall>(c_bc(), 0, 2, EM, 1, dims(2)); }
QKV_HARNESS(fill) { check<qk::solver::fill>(c_fill(), 0, 2, ONE, 1, dims(2)); }
QKV_HARNESS(swap) { check<qk::solver::swap>(c_none(), 0, 4, ONE, 1, dims(2)); }
QKV_HARNESS(gaussian) { check<qk::solver::gaussian>(c_gauss(), 0, 1, ONE, 1, dims(2)); }
QKV_HARNESS(pulse) { check<qk::solver::magnetic_pulse>(c_pulse(), 0, 1, EM, 1, dims(2)); }
QKV_HARNESS(tube) { check<qk::solver::shock_tube>(c_tube(), 0, 1, GAS, 1, dims(2)); }
QKV_HARNESS(radial) { check<qk::solver::radial_shock_tube>(c_radial(), 0, 1, GAS, 1, dims(2)); }
QKV_HARNESS(wave) { check<qk::solver::electromagnetic_wave_1D>(c_wave(), 0, 1, EM, 1, dims(2)); }
QKV_HARNESS(brioWu) { check<qk::solver::brio_wu_shock_tube>(c_brio(), 0, 3, PLASMA, 1, dims(2)); }
QKV_HARNESS(gem) { check<qk::solver::gem_challenge>(c_gem(), 0, 3, PLASMA, 1, dims(2)); }
