// C06: periodic boundaries wrap the domain.
#include "bc_common.h"
#include "solver/bc_periodic.h"
struct plus { int operator()(int, int) const { return 1; } };
QKV_HARNESS(periodic) { bc_contract<qk::solver::bc_periodic>(0, any_comps(2), plus()); }
