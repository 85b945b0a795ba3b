// C08: a conducting wall reverses the electric field and the normal magnetic field.
#include "bc_common.h"
#include "solver/bc_conducting_wall.h"
struct s { int operator()(int d, int c) const { return c < 3 || c == 3 + d ? -1 : 1; } };
QKV_HARNESS(conductingWall) { bc_contract<qk::solver::bc_conducting_wall>(1, 6, s()); }
