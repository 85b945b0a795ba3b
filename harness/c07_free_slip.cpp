// C07: a free-slip wall reverses only the momentum normal to it.
#include "bc_common.h"
#include "solver/bc_free_slip.h"
struct s { int operator()(int d, int c) const { return c == 1 + d ? -1 : 1; } };
QKV_HARNESS(freeSlip) { bc_contract<qk::solver::bc_free_slip>(1, 5, s()); }
