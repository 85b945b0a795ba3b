// Shared by the initial-condition harnesses.
#ifndef QKV_IC_H
#define QKV_IC_H
#include "phys.h"
inline mesh_t ic_mesh(int n, bool large = true)
{
    return std_mesh(n, large);
}
// centre of cell p; 0 in the dimensions the mesh does not have
inline void centre(const mesh_t & g, const int * p, double * x)
{
    for (int d = 0; d < 3; ++d) x[d] = 0;
    for (int d = 0; d < g.n(); ++d) x[d] = g.start[d] + (p[d] + 0.5) * g.dx(d);
}
#endif
