// C34: an object that was never configured behaves in one way, whatever its memory held before.
#include <cstring>
#include <new>
#include "phys.h"
#include "basis/face_basis.h"
#include "basis/volume_average.h"
#include "lib/range_set.h"
#include "solver/bc_conducting_wall.h"
#include "solver/bc_copy_out.h"
#include "solver/bc_free_slip.h"
#include "solver/bc_no_slip.h"
#include "solver/bc_periodic.h"
#include "solver/brio_wu_shock_tube.h"
#include "solver/current_source.h"
#include "solver/electromagnetic_wave_1D.h"
#include "solver/euler.h"
#include "solver/fill.h"
#include "solver/gaussian.h"
#include "solver/gem_challenge.h"
#include "solver/lorentz_force.h"
#include "solver/magnetic_pulse.h"
#include "solver/maxwell.h"
#include "solver/radial_shock_tube.h"
#include "solver/rk1.h"
#include "solver/shock_tube.h"
#include "solver/ssprk2_advection.h"
#include "solver/ssprk3.h"
#include "solver/print.h"
#include "solver/swap.h"

static const char * NM[6] = {"a", "b", "c", "d", "e", "f"};
static const double LO[6] = {1, -2, -2, -2, 7, -2}, HI[6] = {2, 2, 2, 2, 9, 2};
struct world {
    const mesh_t & g;
    qk::grid::rectilinear grid;
    manager_t mgr;
    std::vector<vid_t> ids;
    world(const mesh_t & m, const int * comps) : g(m), grid(grid_of(m)), mgr(grid)
    {
        mgr.set_dt(qkv_real("dt", 0, 0.1, 1));
        for (int i = 0; i < 6; ++i) {
            ids.push_back(field_id(NM[i], comps[i]));
            load_h(chunk_of(mgr, ids[i]), g, comps[i], NM[i], LO, HI);
        }
    }
};

// storage with leftovers in it: every real, or bytes of one kind or another
template<class T> struct storage {
    alignas(16) double room[(sizeof(T) + 7) / 8 + 1];
    storage(const char * nm, int bytes)
    {
        if (bytes < 0)
            for (unsigned i = 0; i < sizeof(room) / sizeof(double); ++i) room[i] = qkv_real(nm, i, 1.1, 1.9);
        else std::memset((void *)room, bytes, sizeof(room));
    }
    void * at() { return (void *)room; }
};
static const int GAS[6] = {5, 5, 5, 5, 5, 5}, EM[6] = {6, 6, 6, 6, 6, 6}, FORCE[6] = {5, 6, 5, 5, 5, 5}, ONE[6] = {1, 1, 1, 1, 1, 1}, PLASMA[6] = {5, 5, 6, 5, 5, 6}, CUR[6] = {6, 5, 5, 6, 6, 6};
template<class S> static bool run(S & s, world & w, int ins, int outs, int tag)
{
    for (int i = 0; i < ins; ++i) s.add_input_variable(w.ids[i]);
    for (int i = 0; i < outs; ++i) s.add_output_variable(w.ids[ins + i]);
    try {
        s.solve(w.mgr, tag);
    } catch (const qk::exception &) {
        return true;
    }
    return false;
}
template<class S> static void fresh(int ins, int outs, const int * comps, int tags)
{
    int n = qkv_pick("n", 1, 2);
    int lmax[3] = {2, 2, 2};
    mesh_t g = any_mesh3(n, lmax, 2);
    int tag = qkv_pick("tag", 0, tags - 1), bytes = qkv_pick("bytes", 0, 1);
    world a(g, comps), b(g, comps);
    storage<S> x("left", bytes ? 0 : -1), y("over", bytes ? 0x3f : -1);
    S * s = new (x.at()) S;
    S * t = new (y.at()) S;
    bool first = run(*s, a, ins, outs, tag), second = run(*t, b, ins, outs, tag);
    s->~S();
    t->~S();
    qkv_check(first == second, "refused-or-not-alike");
    for (int i = 0; i < 6; ++i) {
        chunk_t & u = chunk_of(a.mgr, a.ids[i]);
        chunk_t & v = chunk_of(b.mgr, b.ids[i]);
        for (int k = 0; k < u.volume(); ++k) qkv_check_eq(v.data()[k], u.data()[k], "same-whatever-memory-held");
    }
    qkv_reach("end");
}
QKV_HARNESS(euler) { fresh<qk::solver::euler>(1, 1, GAS, 1); }
QKV_HARNESS(maxwell) { fresh<qk::solver::maxwell>(1, 1, EM, 1); }
QKV_HARNESS(lorentz) { fresh<qk::solver::lorentz_force>(2, 1, FORCE, 1); }
QKV_HARNESS(current) { fresh<qk::solver::current_source>(0, 1, CUR, 1); }
QKV_HARNESS(ssprk3) { fresh<qk::solver::ssprk3>(2, 3, ONE, 3); }
QKV_HARNESS(rk1) { fresh<qk::solver::rk1>(2, 1, ONE, 1); }
QKV_HARNESS(advection) { fresh<qk::solver::ssprk2_advection>(1, 2, ONE, 2); }
QKV_HARNESS(periodic) { fresh<qk::solver::bc_periodic>(0, 2, ONE, 1); }
QKV_HARNESS(copyOut) { fresh<qk::solver::bc_copy_out>(0, 2, ONE, 1); }
QKV_HARNESS(noSlip) { fresh<qk::solver::bc_no_slip>(0, 2, GAS, 1); }
QKV_HARNESS(freeSlip) { fresh<qk::solver::bc_free_slip>(0, 2, GAS, 1); }
QKV_HARNESS(wall) { fresh<qk::solver::bc_conducting_wall>(0, 2, EM, 1); }
QKV_HARNESS(fill) { fresh<qk::solver::fill>(0, 2, ONE, 1); }
QKV_HARNESS(swap) { fresh<qk::solver::swap>(0, 4, ONE, 1); }
QKV_HARNESS(gaussian) { fresh<qk::solver::gaussian>(0, 1, ONE, 1); }
QKV_HARNESS(pulse) { fresh<qk::solver::magnetic_pulse>(0, 1, EM, 1); }
QKV_HARNESS(tube) { fresh<qk::solver::shock_tube>(0, 1, GAS, 1); }
QKV_HARNESS(radial) { fresh<qk::solver::radial_shock_tube>(0, 1, GAS, 1); }
QKV_HARNESS(wave) { fresh<qk::solver::electromagnetic_wave_1D>(0, 1, EM, 1); }
QKV_HARNESS(brioWu) { fresh<qk::solver::brio_wu_shock_tube>(0, 3, PLASMA, 1); }
QKV_HARNESS(gem) { fresh<qk::solver::gem_challenge>(0, 3, PLASMA, 1); }

// the values of a mesh-bound manager, and the empty containers
QKV_HARNESS(values)
{
    int bytes = qkv_pick("bytes", 0, 1), n = qkv_pick("n", 1, 2);
    mesh_t g = any_mesh(n, 2, 2);
    qk::grid::rectilinear grid = grid_of(g);
    const int f = bytes ? 0x3f : -1;
    {
        storage<manager_t> x("left", f);
        manager_t * m = new (x.at()) manager_t(grid);
        qkv_check_eq(m->time(), 0., "time-starts-at-zero");
        qkv_check_eq(m->dt(), 0., "no-step-until-set");
        double t = qkv_real("time", 0, 0, 1), d = qkv_real("dt", 0, 0, 1);
        m->set_time(t);
        m->set_dt(d);
        qkv_check_eq(m->time(), t, "time-is-kept");
        qkv_check_eq(m->dt(), d, "step-is-kept");
        // a field that nobody wrote
        chunk_t & c = chunk_of(*m, field_id("u", 2));
        for (int k = 0; k < c.volume(); ++k) qkv_check_eq(c.data()[k], 0., "new-fields-are-zero");
        m->~manager_t();
    }
    {
        storage<qk::range> x("left", f);
        qk::range * r = new (x.at()) qk::range;
        qkv_check(r->num_dims() == 0 && r->volume() == 0, "an-empty-range");
        r->~range();
    }
    {
        storage<qk::indexer> x("left", f);
        qk::indexer * r = new (x.at()) qk::indexer;
        qkv_check(!r->exists() && r->num_dims() == 0 && r->linear_index() == 0, "an-empty-indexer");
        r->~indexer();
    }
    {
        storage<chunk_t> x("left", f);
        chunk_t * r = new (x.at()) chunk_t;
        qkv_check(r->num_ghost_layers() == 2 && r->volume() == 0 && r->num_dims() == 0 && r->internal_range().num_dims() == 0, "an-empty-chunk");
        r->~chunk_t();
    }
    {
        storage<qk::variable::variable> x("left", f);
        qk::variable::variable * r = new (x.at()) qk::variable::variable;
        qkv_check(r->volume() == 0 && r->component_names().empty() && r->basis().num_points() == 0, "an-empty-variable");
        r->~variable();
    }
    {
        storage<qk::basis::face_basis> x("left", f);
        qk::basis::face_basis * r = new (x.at()) qk::basis::face_basis;
        qkv_check(r->num_points() == 0, "an-empty-basis");
        r->~face_basis();
    }
    {
        storage<qk::basis::basis> x("left", f);
        qk::basis::basis * r = new (x.at()) qk::basis::basis;
        qkv_check(r->num_points() == 0, "an-empty-basis");
        r->~basis();
    }
    qkv_reach("end");
}
