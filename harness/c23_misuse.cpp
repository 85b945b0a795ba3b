// C23: a solver wired up wrongly refuses to run, and has then changed nothing.
#include "phys.h"
#include "solver/brio_wu_shock_tube.h"
#include "solver/current_source.h"
#include "solver/euler.h"
#include "solver/gem_challenge.h"
#include "solver/lorentz_force.h"
#include "solver/maxwell.h"
#include "solver/print.h"
#include "solver/rk1.h"
#include "solver/ssprk2_advection.h"
#include "solver/ssprk3.h"
#include "solver/swap.h"

static const char * NM[8] = {"a", "b", "c", "d", "e", "f", "g", "h"};
struct world {
    mesh_t g;
    qk::grid::rectilinear grid;
    manager_t mgr;
    std::vector<vid_t> ids;
    int comps;
    world(int k) : g(any_mesh(qkv_pick("n", 1, qkv_bound(2, 3)), 1, 2)), grid(grid_of(g)), mgr(grid), comps(k)
    {
        mgr.set_dt(qkv_real("dt", 0, 0.1, 1));
        for (int i = 0; i < 4; ++i) {
            ids.push_back(field_id(NM[i], comps));
            load(chunk_of(mgr, ids[i]), g, comps, NM[i]);
        }
        for (int i = 4; i < 8; ++i) ids.push_back(field_id(NM[i], comps));      // never created
    }
    template<class S> void refused(S & s, int tag, bool expect, const char * label)
    {
        bool thrown = false;
        try { s.solve(mgr, tag); } catch (const qk::exception & e) { thrown = true; }
        qkv_check(thrown == expect, label);
        if (expect)
            for (int i = 0; i < 4; ++i) unchanged(chunk_of(mgr, ids[i]), g, comps, NM[i], "nothing-modified");
    }
};
// wire s with the given numbers of inputs and outputs (all existing fields; inputs first)
template<class S> static void wire(S & s, world & w, int ins, int outs, bool via_list)
{
    std::vector<vid_t> a, b;
    for (int i = 0; i < ins; ++i) a.push_back(w.ids[i % 4]);
    for (int i = 0; i < outs; ++i) b.push_back(w.ids[(i + 1) % 4]);
    if (via_list) {
        s.set_input_variables(a);
        s.set_output_variables(b);
    } else {
        for (unsigned i = 0; i < a.size(); ++i) s.add_input_variable(a[i]);
        for (unsigned i = 0; i < b.size(); ++i) s.add_output_variable(b[i]);
    }
}
template<class S> static void counts(S & s, int comps, int want_in, int lo_out, int hi_out, int max_in, int max_out, int tags)
{
    world w(comps);
    int ins = qkv_pick("ins", 0, max_in), outs = qkv_pick("outs", 0, max_out);
    bool ok = (want_in < 0 || ins == want_in) && outs >= lo_out && outs <= hi_out;
    wire(s, w, ins, outs, qkv_pick("list", 0, 1));
    if (!ok) w.refused(s, qkv_pick("tag", 0, tags - 1), true, "wrong-wiring-is-refused");
    qkv_reach("end");
}
QKV_HARNESS(euler) { qk::solver::euler s; s.setup(1.4); counts(s, 5, 1, 1, 1, 3, 3, 1); }
QKV_HARNESS(maxwell) { qk::solver::maxwell s; s.setup(1.); counts(s, 6, 1, 1, 1, 3, 3, 1); }
QKV_HARNESS(lorentz) { qk::solver::lorentz_force s; s.setup(1., 1.); counts(s, 6, 2, 1, 1, 3, 3, 1); }
QKV_HARNESS(ssprk3) { qk::solver::ssprk3 s; counts(s, 2, 2, 3, 99, 3, 3, 3); }
QKV_HARNESS(rk1) { qk::solver::rk1 s; counts(s, 2, 2, 1, 99, 3, 2, 1); }
QKV_HARNESS(advection) { qk::solver::ssprk2_advection s; s.setup(std::vector<double>(3, 1.)); counts(s, 1, 1, 2, 2, 2, 3, 2); }
QKV_HARNESS(brioWu) { qk::solver::brio_wu_shock_tube s; counts(s, 6, -1, 3, 3, 1, 5, 1); }
QKV_HARNESS(gem) { qk::solver::gem_challenge s; s.setup(1, 1, 1, 1, 1.4, 1, 1, 1, 1, 1, 1, 1, 1, 1); counts(s, 6, -1, 3, 3, 1, 5, 1); }
QKV_HARNESS(swap)
{
    qk::solver::swap s;
    world w(1);
    int outs = qkv_pick("outs", 1, 5);
    wire(s, w, 0, outs, qkv_pick("list", 0, 1));
    if (outs % 2) w.refused(s, 0, true, "odd-number-of-fields-is-refused");
    qkv_reach("end");
}
QKV_HARNESS(currentSource)
{
    world w(6);
    qk::solver::current_source s;
    int q = qkv_pick("charges", 0, 3), m = qkv_pick("masses", 0, 3);
    bool thrown = false;
    try { s.setup(1., std::vector<double>(q, 1.), std::vector<double>(m, 2.)); }
    catch (const qk::exception & e) { thrown = true; }
    qkv_check(thrown == (q != m), "unequal-species-lists-are-refused");
    if (q == m) {
        int ins = qkv_pick("ins", 0, 3), outs = qkv_pick("outs", 0, 2);
        wire(s, w, ins, outs, qkv_pick("list", 0, 1));
        if (ins != q || outs != 1) w.refused(s, 0, true, "wrong-wiring-is-refused");
    }
    qkv_reach("end");
}
// an input that was never written is refused by every solver that reads one
QKV_HARNESS(missingInput)
{
    int which = qkv_pick("solver", 0, 6);
    int comps = which == 5 ? 1 : 6;
    world w(which < 1 ? 5 : comps);
    int bad = qkv_pick("bad", 0, 1);
    vid_t in0 = w.ids[bad == 0 ? 5 : 0], in1 = w.ids[bad == 1 ? 6 : 1];
    qk::solver::euler e;
    qk::solver::maxwell m;
    qk::solver::lorentz_force l;
    qk::solver::ssprk3 k3;
    qk::solver::rk1 k1;
    qk::solver::ssprk2_advection ad;
    qk::solver::current_source cs;
    e.setup(1.4);
    m.setup(1.);
    l.setup(1., 1.);
    ad.setup(std::vector<double>(3, 1.));
    cs.setup(1., std::vector<double>(1, 1.), std::vector<double>(1, 1.));
    if (which == 0) { e.add_input_variable(w.ids[5]); e.add_output_variable(w.ids[2]); w.refused(e, 0, true, "missing-input-is-refused"); }
    if (which == 1) { m.add_input_variable(w.ids[5]); m.add_output_variable(w.ids[2]); w.refused(m, 0, true, "missing-input-is-refused"); }
    if (which == 2) { l.add_input_variable(in0); l.add_input_variable(in1); l.add_output_variable(w.ids[2]); w.refused(l, 0, true, "missing-input-is-refused"); }
    if (which == 3) {
        k3.add_input_variable(in0); k3.add_input_variable(in1);
        for (int i = 0; i < 3; ++i) k3.add_output_variable(w.ids[2 + i % 2]);
        w.refused(k3, qkv_pick("tag", 0, 2), true, "missing-input-is-refused");
    }
    if (which == 4) { k1.add_input_variable(in0); k1.add_input_variable(in1); k1.add_output_variable(w.ids[2]); w.refused(k1, 0, true, "missing-input-is-refused"); }
    if (which == 5) { ad.add_input_variable(w.ids[5]); ad.add_output_variable(w.ids[2]); ad.add_output_variable(w.ids[3]); w.refused(ad, qkv_pick("tag", 0, 1), true, "missing-input-is-refused"); }
    if (which == 6) { cs.add_input_variable(w.ids[5]); cs.add_output_variable(w.ids[2]); w.refused(cs, 0, true, "missing-input-is-refused"); }
    qkv_reach("end");
}
QKV_HARNESS(missingFrames)
{
    world w(1);
    std::vector<vid_t> v;
    int k = qkv_pick("fields", 1, 3), bad = qkv_pick("bad", 0, 2);
    qkv_assume(bad < k);
    for (int i = 0; i < k; ++i) v.push_back(w.ids[i == bad ? 5 : i]);
    bool thrown = false;
    try { w.mgr.write_vtk("frame", ".vtk", v); } catch (const qk::exception & e) { thrown = true; }
    qkv_check(thrown, "missing-field-is-refused");
    thrown = false;
    qk::solver::print p;
    p.add_input_variable(w.ids[5]);
    w.refused(p, 0, true, "printing-a-missing-field-is-refused");
    qkv_reach("end");
}
