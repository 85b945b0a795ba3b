// C07: outflow boundaries mirror the interior.
#include "bc_common.h"
#include "solver/bc_copy_out.h"
struct plus { int operator()(int, int) const { return 1; } };
QKV_HARNESS(copyOut) { bc_contract<qk::solver::bc_copy_out>(1, qkv_pick("comps", 1, 2), plus()); }
