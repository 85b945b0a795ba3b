// C31: a frame that could not be written is reported.
#include "phys.h"

QKV_HARNESS(fault)
{
    int n = qkv_pick("n", 1, 2), vars = qkv_pick("vars", 1, 2);
    int lmax[3] = {2, 2, 1};
    mesh_t g = any_mesh3(n, lmax, 2);
    qk::grid::rectilinear grid = grid_of(g);
    manager_t mgr(grid);
    const char * nm[2] = {"rho", "B"};
    std::vector<vid_t> ids;
    for (int v = 0; v < vars; ++v) {
        ids.push_back(field_id(nm[v], v + 1));
        load(chunk_of(mgr, ids[v]), g, v + 1, nm[v]);
    }
    int at_ = qkv_pick("at", -1, qkv_bound(70, 140)), late = at_ < 0 ? 0 : qkv_pick("late", 0, 1);
    mgr.write_vtk("qkv_whole", ".vtk", ids);
    int tries = qkv_fault_tries("qkv_whole.vtk");
    for (int t = 0; t < tries; ++t) {
        qkv_fault_file("qkv_fault.vtk", at_, late);
        bool threw = false;
        try { mgr.write_vtk("qkv_fault", ".vtk", ids); } catch (const std::exception &) { threw = true; }
        qkv_check(threw == (qkv_fault_hit() != 0), "failure-is-reported");
    }
    for (int v = 0; v < vars; ++v) unchanged(chunk_of(mgr, ids[v]), g, v + 1, nm[v], "writing-changes-nothing");
    // the failure does not spoil the next frame
    mgr.write_vtk("qkv_next", ".vtk", ids);
    qkv_check(qkv_file_read("qkv_next.vtk") > 0, "later-frames-are-written");
    qkv_reach("end");
}
