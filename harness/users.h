#ifndef USERS_H
#define USERS_H
#include "regrun.h"
namespace sim {
// operations that evaluate a user function
static const char* USERS[] = { "maps_dynamic", "maps_standard", "maps_fixed", "interpolants", "derivatives", "integrals", "integrals_default", "integrals_gauss", "integral_infinite", "gaussian_expectation", "ode_fixed", "ode_dynamic", "root_bracket", "root_open", "root_dual", "extrema", "extrema_multi", "roots_multi", "autodiff_scalar", "autodiff_fields", "autodiff_dynamic", "error_propagation", "likelihood", "rejection", "metropolis", "monte_carlo", "err_integrals", "err_ode", "err_root_finding", "err_extrema", "err_multivariate", "err_fields", "err_propagation", "err_samplers", "err_sums_dynamic" };
static const unsigned NU = sizeof USERS / sizeof USERS[0];
static inline const RegOp* users_any(Rng& g) { const RegOp* o = reg_find(USERS[g.below(NU)]); return o ? o : reg_find("integrals"); }
static inline void users_only(Rng& g, Plan& p) { for(auto& l : p.lines) if(l.kind == "op") l.set("fn", users_any(g)->name); }
} // namespace sim
#endif
