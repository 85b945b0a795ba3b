// C07: a no-slip wall reverses the whole momentum.
#include "bc_common.h"
#include "solver/bc_no_slip.h"
struct s { int operator()(int, int c) const { return c >= 1 && c <= 3 ? -1 : 1; } };
QKV_HARNESS(noSlip) { bc_contract<qk::solver::bc_no_slip>(1, 5, s()); }
