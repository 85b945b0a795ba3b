// C24: the remaining steps (boundaries, set-ups, fill, swap, a full gas step), run for their parallel regions only.
#include "phys.h"
#include "solver/bc_conducting_wall.h"
#include "solver/bc_copy_out.h"
#include "solver/bc_free_slip.h"
#include "solver/bc_no_slip.h"
#include "solver/bc_periodic.h"
#include "solver/brio_wu_shock_tube.h"
#include "solver/electromagnetic_wave_1D.h"
#include "solver/fill.h"
#include "solver/gaussian.h"
#include "solver/gem_challenge.h"
#include "solver/magnetic_pulse.h"
#include "solver/radial_shock_tube.h"
#include "solver/shock_tube.h"
#include "solver/swap.h"

static const char * names[4] = {"a", "b", "c", "d"};
template<class S> static void go(S & s, manager_t & mgr, const mesh_t & g, int outs, int comps)
{
    for (int i = 0; i < outs; ++i) {
        vid_t v = field_id(names[i], comps);
        load(chunk_of(mgr, v), g, comps, names[i]);
        s.add_output_variable(v);
    }
    s.solve(mgr);
}
QKV_HARNESS(otherSteps)
{
    int n = qkv_pick("n", 1, 3), which = qkv_pick("which", 0, 9);
    int lmax[3] = {2, 2, 2};
    mesh_t g = any_mesh3(n, lmax, 2);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    std::vector<int> dims;
    for (int d = 0; d < n; ++d) dims.push_back(d);
    if (which == 0) { qk::solver::bc_periodic s; s.setup(dims); go(s, mgr, g, 2, 2); }
    if (which == 1) { qk::solver::bc_copy_out s; s.setup(dims); go(s, mgr, g, 2, 2); }
    if (which == 2) { qk::solver::bc_no_slip s; s.setup(dims); go(s, mgr, g, 2, 5); }
    if (which == 3) { qk::solver::bc_free_slip s; s.setup(dims); go(s, mgr, g, 2, 5); }
    if (which == 4) { qk::solver::bc_conducting_wall s; s.setup(dims); go(s, mgr, g, 2, 6); }
    if (which == 5) { qk::solver::fill s; s.setup(qkv_real("x", 0, -1, 1)); go(s, mgr, g, 2, 3); }
    if (which == 6) { qk::solver::swap s; go(s, mgr, g, 2, 3); }
    if (which == 7) { qk::solver::gaussian s; s.setup(qkv_real("amp", 0, 1, 2), std::vector<double>(3, 0.1), 0.5); go(s, mgr, g, 1, 1); }
    if (which == 8) { qk::solver::shock_tube s; go(s, mgr, g, 1, 5); }
    if (which == 9) { qk::solver::radial_shock_tube s; go(s, mgr, g, 1, 5); }
    qkv_reach("end");
}
