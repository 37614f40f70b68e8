// C12: iterative algorithms stop within their budget whatever the function
// does. The function is an adversary following a script of segments, one mode
// and a number of evaluations each (the last one for ever):
//   k keeps a constant   n NaN   i infinities   r random at every evaluation
//   a alternating signs  g growing without bound   s tiny   z zero
//   o an ordinary function of x   p constant positive   e 1/2 ulp noise around a constant
#include "words.h"
enum { K_CALLS, K_EVALS, K_NAN, K_INF, K_RANDOM, K_CONST, K_SWITCH, K_EXHAUST, K_NUMBERS, K_SYS, K_INTEGRALS, K_ODE, K_SAMPLE };
namespace sim {
const char* PROPERTY = "C12"; const char* VARIANT = "default";
const char* CTR_NAMES[] = { "calls", "evaluations", "not_a_number_evaluations", "infinite_evaluations", "inconsistent_evaluations", "constant_evaluations", "changes_of_behaviour", "limits_exhausted", "numbers_returned", "gradient_searches", "integrals", "ode_solutions", "rejection_samplings", nullptr };
}
using namespace sim;
typedef std::function<real(real)> RF;
struct KeepErrno { int e = errno; ~KeepErrno() { errno = e; } };

static std::string script_gen(Rng& g) {
	static const char modes[] = "knirragszope"; std::string s; unsigned n = g.chance(0.4) ? 0 : (unsigned) g.range(1, 4);
	for(unsigned i = 0; i < n; ++i) { s += modes[g.below(12)]; s += std::to_string(g.range(1, g.chance(0.2) ? 150 : 12)); }
	s += modes[g.below(12)]; return s;
}
static void gen(Rng& g, Line& l, bool) { l.set("f", script_gen(g)); if(g.chance(0.5)) l.set("d", script_gen(g)); }
struct Adv {
	Rng g; std::string s; size_t pos = 0; uint64_t left = 0; char mode = 'o'; bool last = false; double c, scale, k; uint64_t n = 0, limit = ~0ull; const char* what = ""; double min_abs = INFINITY; bool all_finite = true, odd = false;
	Adv(uint64_t seed, const std::string& s) : g(seed), s(s) { c = g.real(-1, 1); scale = std::pow(10.0, g.real(-3, 3)); k = g.real(0.1, 3) * (g.chance(0.5) ? 1 : -1); seg(); }
	void seg() { if(pos >= s.size()) { last = true; return; } if(n) count(K_SWITCH); mode = s[pos++]; left = 0; while(pos < s.size() && isdigit((unsigned char) s[pos])) left = left * 10 + (s[pos++] - '0'); if(pos >= s.size()) last = true; }
	double value(double x) {
		while(!last && left == 0) seg(); if(left) left--;
		switch(mode) {
			case 'k': count(K_CONST); return k; case 'p': count(K_CONST); return std::fabs(k); case 'n': count(K_NAN); return NAN;
			case 'i': count(K_INF); return g.chance(0.5) ? INFINITY : -INFINITY;
			case 'r': count(K_RANDOM); return g.real(-1, 1) * scale;
			case 'a': odd = !odd; count(K_RANDOM); return odd ? scale : -scale * 1.5;
			case 'g': count(K_RANDOM); return std::pow(1.5, (double) std::min<uint64_t>(n, 1500)) * ((n & 2) ? 1 : -1);
			case 's': return 1e-30 * k; case 'z': return 0;
			case 'e': count(K_RANDOM); return k * (1 + (g.chance(0.5) ? 2.3e-16 : 0));
			default: return scale * std::sin(x - c) + 0.3 * scale * (x - c);
		}
	}
	double call(double x) {
		KeepErrno ke; Unwatched u; n++; count(K_EVALS);
		if(n > limit) VIOL("unbounded", "%s evaluated its function more than %llu times", what, (unsigned long long) limit);
		double y = value(x); if(y == y) min_abs = std::min(min_abs, std::fabs(y)); if(!std::isfinite(y)) all_finite = false; return y;
	}
};
static thread_local Adv *A, *B; // the function, and its derivatives (a script of their own)
static void open_(OpCall& c, const char* what) { A = new Adv(c.g.next(), c.l.str("f", "o")); B = new Adv(c.g.next(), c.l.str("d", c.l.str("f", "o"))); A->what = B->what = what; count(K_CALLS); }
static void bound(uint64_t f, uint64_t d = ~0ull) { A->limit = f; B->limit = d == ~0ull ? f : d; }
static int SENT(Rng& g) { static const int s[] = { 0, 0, EDOM, 7777 }; return s[g.below(4)]; }
static void close_(OpCall& c, uint64_t r) { c.result = dig(r, (unsigned long) A->n, (unsigned long) B->n); delete A; delete B; A = B = nullptr; }
static dual dfn(dual x) { double y = A->call(x.Re()); double a = B->call(x.Re()); return dual(y, a * x.Dual()); }
static dual2 d2fn(dual2 x) { double y = A->call(x.Re()), a = B->call(x.Re()), b = B->call(x.Re()); return dual2(y, a * x.Dual1(), b); }
static unsigned iters(Rng& g) { static const unsigned is[] = { 100, 100, 37, 10, 3, 1, 0, 1000 }; return is[g.below(8)]; }

// a search that gave a number must leave the error indicator alone; one that exhausted its limit must say so
static void verdict(double r, int e0, int e1, bool must_fail, const char* what) {
	if(r == r) { count(K_NUMBERS); if(e1 != e0) VIOL("error-indicator", "%s returned %.17g and changed errno from %d to %d", what, r, e0, e1); if(must_fail) VIOL("silent-exhaustion", "%s returned %.17g without ever meeting its stopping condition", what, r); }
	else { count(K_EXHAUST); if(e1 != ERANGE && e1 != EINVAL && e1 != EDOM) VIOL("silent-failure", "%s returned NaN and errno is %d", what, e1); }
}
enum { NEWTON, DNEWTON, HALLEY, DHALLEY, STEFF, CHEB, DCHEB, OSTR, JARR, BISECT, ITP, ROOTS };
template<int M> static void op_root(OpCall& c) {
	static const char* nm[] = { "root_newton", "root_newton(dual)", "root_halley", "root_halley(dual2)", "root_steffensen", "root_chebyshev", "root_chebyshev(dual2)", "root_ostrowski", "root_jarrat", "root_bisect", "root_itp", "roots" };
	double tol, x0, b; unsigned it, steps = 1; int e0; bool dflt;
	{
		Unwatched u; open_(c, nm[M]); static const double ts[] = { 1e-8, 1e-8, 1e-4, 1e-12, 1 }; tol = ts[c.g.below(5)]; it = iters(c.g); x0 = c.g.real(-3, 3); b = x0 + c.g.real(1e-9, 10); dflt = c.g.chance(0.3);
		// far from the origin neighbouring numbers are further apart than the tolerance, and an interval cannot shrink below that
		if(c.g.chance(0.25)) { x0 *= std::pow(10.0, c.g.real(1, 14)); b = x0 + std::fabs(x0) * std::pow(10.0, c.g.real(-15, 1)); if(!(b > x0)) b = std::nextafter(x0, INFINITY); tol = c.g.chance(0.5) ? 1e-12 : tol; }
		if(M != ITP && c.g.chance(0.05)) tol = 0;
		if(dflt) { tol = OPTIMIZATION_TOL; it = 100; }
		steps = (unsigned) c.g.range(1, 12); bound(M == ROOTS ? 8 * steps * 110 : 8ull * (it + 3) + 16); if(M == ITP) bound((uint64_t) (std::max(0.0, std::log2((b - x0) / tol)) + 10) * 3 + 40);
		e0 = SENT(c.g); if(e0 == ERANGE) e0 = 0; errno = e0;
	}
	RF f = [](real x) { return A->call(x); }, d = [](real x) { return B->call(x); }; double r = 0; std::vector<real> rs;
	switch(M) {
		case NEWTON: r = dflt ? root_newton(f, d, x0) : root_newton(f, d, x0, tol, it); break;
		case DNEWTON: r = dflt ? root_newton(dfn, x0) : root_newton(dfn, x0, tol, it); break;
		case HALLEY: r = dflt ? root_halley(f, d, d, x0) : root_halley(f, d, d, x0, tol, it); break;
		case DHALLEY: r = dflt ? root_halley(d2fn, x0) : root_halley(d2fn, x0, tol, it); break;
		case STEFF: r = dflt ? root_steffensen(f, x0) : root_steffensen(f, x0, tol, it); break;
		case CHEB: r = dflt ? root_chebyshev(f, d, d, x0) : root_chebyshev(f, d, d, x0, tol, it); break;
		case DCHEB: r = dflt ? root_chebyshev(d2fn, x0) : root_chebyshev(d2fn, x0, tol, it); break;
		case OSTR: r = dflt ? root_ostrowski(f, d, x0) : root_ostrowski(f, d, x0, tol, it); break;
		case JARR: r = dflt ? root_jarrat(f, d, x0) : root_jarrat(f, d, x0, tol, it); break;
		case BISECT: r = dflt ? root_bisect(f, x0, b) : root_bisect(f, x0, b, tol, it); break;
		case ITP: r = dflt ? root_itp(f, x0, b) : root_itp(f, x0, b, tol, (unsigned) c.g.below(4)); break;
		default: rs = roots(f, x0, b, tol, (real) steps); break;
	}
	Unwatched u; int e1 = errno;
	if(M == ROOTS) { bool nan = false; for(double q : rs) if(q != q) nan = true; if(rs.size() > steps) VIOL("unbounded", "roots() listed %zu roots over %u intervals", rs.size(), steps); if(nan && e1 != ERANGE && e1 != EINVAL && e1 != EDOM) VIOL("silent-failure", "roots() listed a NaN and errno is %d", e1); if(!nan && e1 != e0) VIOL("error-indicator", "roots() found %zu roots and changed errno from %d to %d", rs.size(), e0, e1); close_(c, dig(rs)); return; }
	bool must = M < BISECT ? A->min_abs > tol : M == BISECT ? (b - x0) / std::pow(2.0, it + 1.0) > 2.02 * tol + 1e-14 * (std::fabs(x0) + std::fabs(b)) : false;
	verdict(r, e0, e1, must, nm[M]); close_(c, dig(r, e1));
}
static void op_extrema(OpCall& c) {
	double a, b; int k, e0; { Unwatched u; k = (int) c.g.below(6); static const char* nm[] = { "maximize_goldensection", "minimize_goldensection", "maximize_newton", "minimize_newton", "maximize_bisection", "minimize_bisection" }; open_(c, nm[k]); a = c.g.real(-5, 2); if(c.g.chance(0.2)) a *= std::pow(10.0, c.g.real(1, 14)); b = a + (c.g.chance(0.1) ? c.g.real(0, 1e-8) : c.g.chance(0.1) ? c.g.real(1e3, 1e15) : c.g.real(0.01, 10)); bound(8 * 103 + 16); e0 = SENT(c.g); errno = e0; }
	RF f = [](real x) { return A->call(x); }, d = [](real x) { return B->call(x); }; double r;
	switch(k) { case 0: r = maximize_goldensection(f, a, b); break; case 1: r = minimize_goldensection(f, a, b); break; case 2: r = maximize_newton(f, f, d, a); break; case 3: r = minimize_newton(f, f, d, a); break; case 4: r = maximize_bisection(d, f, a, b); break; default: r = minimize_bisection(d, f, a, b); break; }
	Unwatched u; int e1 = errno; verdict(r, e0, e1, k >= 2 && k < 4 && A->min_abs > OPTIMIZATION_TOL, A->what);
	if(r == r && k != 2 && k != 3 && (r < a || r > b)) VIOL("outside-interval", "%s returned %.17g, outside [%.17g, %.17g]", A->what, r, a, b);
	close_(c, dig(r, e1));
}
typedef multidual<2> MD;
static MD mfn(vec<MD, 2> v) { double x = v[0].Re(), y = v[1].Re(), r = A->call(x - 0.5 * y), p, q; { KeepErrno k; Unwatched u; p = B->value(x); q = B->value(y); } return MD(r, v[0].Dual() * p + v[1].Dual() * q); }
static autodiff::dvec_t<2> mrfn(autodiff::dvec_t<2> v) { autodiff::dvec_t<2> r; r[0] = mfn(v); r[1] = mfn(v); return r; }
static void op_gradient(OpCall& c) {
	unsigned it; int k; vec<real, 2> x0, r; { Unwatched u; k = (int) c.g.below(5); static const char* nm[] = { "multi_minimize_grad", "multi_minimize_lingrad", "multi_maximize_lingrad", "multiroot_newton", "multi_maximize_grad" }; open_(c, nm[k]); it = (unsigned) c.g.below(k == 0 || k == 3 ? 200 : 8); x0[0] = c.g.real(-2, 2); x0[1] = c.g.real(-2, 2); bound(k == 1 || k == 2 ? (it + 3) * 260ull : (it + 3) * 6ull, 1ull << 40); count(K_SYS); errno = 0; }
	switch(k) { case 0: r = multi_minimize_grad<2>(mfn, x0, -0.01, 1e-3, it); break; case 1: r = multi_minimize_lingrad<2>(mfn, x0, 1e-3, it); break; case 2: r = multi_maximize_lingrad<2>(mfn, x0, 1e-3, it); break; case 3: r = multiroot_newton<2>(mrfn, x0, 1e-6, it); break; default: r = multi_maximize_grad<2>(mfn, x0, -0.01, 1e-3, it); break; }
	Unwatched u; int e = errno; bool nan = r[0] != r[0] || r[1] != r[1];
	if(k == 3) { if(nan && !e) VIOL("silent-failure", "multiroot_newton returned NaN and no error"); if(!nan && A->min_abs > 1e-6) VIOL("silent-exhaustion", "multiroot_newton returned (%.17g, %.17g) without ever meeting its stopping condition", r[0], r[1]); }
	if(nan) count(K_EXHAUST); else count(K_NUMBERS);
	close_(c, dig(r, e));
}
static void op_integral(OpCall& c) {
	double a, b; unsigned n, k; { Unwatched u; static const char* nm[] = { "integral_midpoint", "integral_trapezoid", "integral_simpson", "integral_romberg", "integral_romberg_tol", "integral_legendre", "integral_laguerre", "integral_hermite", "integral_inf_riemann", "integral", "integral_legendre(n)", "integral_laguerre(a,b)" }; k = (unsigned) c.g.below(12); if((k == 4 || k == 8 || k == 9) && c.g.chance(0.7)) k = 3; open_(c, nm[k]); a = c.g.real(-3, 3); b = a + c.g.real(0, 5); n = 1 + (unsigned) c.g.below(k < 3 ? 300 : 11); static const uint64_t lim[] = { 0, 0, 0, 0, 300000, 40, 40, 40, 0, 300000, 0, 64 }; uint64_t L = lim[k]; if(k < 3) L = 2 * n + 8; if(k == 3) L = (4ull << n) + 64; if(k == 8) { n = (unsigned) c.g.below(3); L = 300000ull * (n + 4); } if(k == 10) L = 8 * n + 64; bound(L); count(K_INTEGRALS); errno = 0; }
	RF f = [](real x) { return A->call(x); }; double r; static const unsigned gs[] = { 2, 4, 8, 16 };
	switch(k) { case 0: r = integral_midpoint(f, a, b, n); break; case 1: r = integral_trapezoid(f, a, b, n); break; case 2: r = integral_simpson(f, a, b, n); break; case 3: r = integral_romberg(f, a, b, n); break; case 4: r = integral_romberg_tol(f, a, b, 1e-8); break;
		case 5: r = integral_legendre(f, a, b, gs[n % 4]); break; case 6: r = integral_laguerre(f, gs[n % 4]); break; case 7: r = integral_hermite(f, gs[n % 4]); break; case 8: r = integral_inf_riemann(f, a, 1, 1e-8, n); break; case 9: r = integral(f, a, b); break; case 10: r = integral_legendre(f, a, b, n); break; default: r = integral_laguerre(f, a, b, std::vector<real>({ 0.5857864376269049, 3.414213562373095 })); break; }
	Unwatched u; int e = errno; if(k != 8 && k != 10 && k != 11 && e) VIOL("error-indicator", "%s set errno to %d for a function that misbehaves", A->what, e); if(k == 8 && r != r && !e && A->all_finite) VIOL("silent-failure", "integral_inf_riemann returned NaN and no error");
	close_(c, dig(r, e));
}
static void op_deriv(OpCall& c) {
	unsigned k, deg; double x; { Unwatched u; k = (unsigned) c.g.below(7); deg = 1 + (unsigned) c.g.below(8); static const char* nm[] = { "deriv_central", "deriv_forward", "deriv_backward", "deriv_ridders2", "deriv_ridders", "deriv", "deriv2" }; open_(c, nm[k]); x = c.g.real(-3, 3); bound(k == 4 ? 4 * deg * deg + 16 : 16); errno = 0; }
	RF f = [](real x) { return A->call(x); }; double r;
	switch(k) { case 0: r = deriv_central(f, x); break; case 1: r = deriv_forward(f, x); break; case 2: r = deriv_backward(f, x); break; case 3: r = deriv_ridders2(f, x); break; case 4: r = deriv_ridders(f, x, 0.01, deg); break; case 5: r = deriv(f, x); break; default: r = deriv2(f, x); break; }
	Unwatched u; int e = errno; if(e) VIOL("error-indicator", "%s set errno to %d", A->what, e); close_(c, dig(r));
}
static void op_ode(OpCall& c) {
	unsigned k; double t0, tf, h; { Unwatched u; k = (unsigned) c.g.below(6); static const char* nm[] = { "solve_euler", "solve_midpoint", "solve_heun", "solve_rk2", "solve_rk4", "solve_k38", "solve_adams2", "solve_adams3", "solve_adams4" }; open_(c, nm[k]); t0 = c.g.real(-2, 2); tf = t0 + c.g.real(0, 2); static const double hs[] = { 0.1, 0.037, 0.5, 3 }; h = hs[c.g.below(4)]; bound((uint64_t) ((tf - t0) / h + 8) * 12 + 64); count(K_ODE); errno = 0; }
	auto f = [](real t, vec<real, 2> x) { vec<real, 2> r; r[0] = A->call(x[0] + t); r[1] = A->call(x[1]); return r; }; vec<real, 2> x0 { 1.0, -0.5 };
	ode::ode_solution_t<vec<real, 2>> s;
	switch(k) { case 0: s = ode::solve_euler(f, x0, t0, tf, h); break; case 1: s = ode::solve_midpoint(f, x0, t0, tf, h); break; case 2: s = ode::solve_heun(f, x0, t0, tf, h); break; case 3: s = ode::solve_rk2(f, x0, t0, tf, h); break; case 4: s = ode::solve_rk4(f, x0, t0, tf, h); break; case 5: s = ode::solve_k38(f, x0, t0, tf, h); break; default: s = ode::solve_rk4(f, x0, t0, tf, h); break; }
	Unwatched u; if(s.t.size() > (tf - t0) / h + 4) VIOL("unbounded", "%s recorded %zu points", A->what, (size_t) s.t.size()); close_(c, dig(s.t, s.x));
}
static void op_sample(OpCall& c) {
	unsigned k, lim; Words* w; { Unwatched u; k = (unsigned) c.g.below(4); static const char* nm[] = { "rand_trycatch", "rand_rejectsamp", "metropolis", "rand_gaussian_polar" }; open_(c, nm[k]); lim = (unsigned) c.g.below(60); w = new Words(c.g.next(), words_gen(c.g, false)); w->limit = 4 * (k == 3 ? 110 : lim) + 16; bound(4 * lim + 16); count(K_SAMPLE); errno = 0; }
	PRNG g = words_prng(*w); vec<real> th(1); RF f = [](real x) { return A->call(x); }, d = [](real x) { return B->call(x); }; stat_function sf = [](real x, const vec<real>&) { return A->call(x); }; double r;
	switch(k) { case 0: r = rand_trycatch(sf, th, -1, 1, 0, 2, g, lim); break; case 1: r = rand_rejectsamp(sf, th, d, d, g, lim); break; case 2: { PRNG g2 = PRNG::xoshiro(3); pdf_sampler s = pdf_sampler::uniform(-1, 1, g2); r = metropolis(f, s, 0.5, g, lim); break; } default: r = rand_gaussian_polar(0, 1, g); break; }
	Unwatched u; int e = errno; if(k != 2 && r != r && e == 0 && B->all_finite) VIOL("silent-failure", "%s returned NaN and no error", A->what);
	delete w; close_(c, dig(r, e));
}
static void op_interp(OpCall& c) {
	unsigned n; bool ch; { Unwatched u; open_(c, "interpolation"); n = (unsigned) c.g.below(8); ch = c.g.chance(0.5); bound(2 * n + 8); errno = 0; }
	RF f = [](real x) { return A->call(x); }; polynomial<real> p = ch ? interpolate_chebyshev(f, -1, 2, n) : interpolate_grid(f, -1, 2, n);
	Unwatched u; if(p.coeff.size() > n + 1) VIOL("unbounded", "an interpolating polynomial of order %u has %zu coefficients", n, (size_t) p.coeff.size()); close_(c, dig(p));
}
#define RO(N, M) { N, op_root<M>, gen, 1 }
const OpDef OPS[] = { RO("root_newton", NEWTON), RO("root_newton_dual", DNEWTON), RO("root_halley", HALLEY), RO("root_halley_dual2", DHALLEY), RO("root_steffensen", STEFF), RO("root_chebyshev", CHEB), RO("root_chebyshev_dual2", DCHEB), RO("root_ostrowski", OSTR), RO("root_jarrat", JARR),
	{ "root_bisect", op_root<BISECT>, gen, 2 }, { "root_itp", op_root<ITP>, gen, 2 }, { "roots", op_root<ROOTS>, gen, 1 }, { "extrema", op_extrema, gen, 4 }, { "gradient_search", op_gradient, gen, 2 }, { "integral", op_integral, gen, 4 }, { "deriv", op_deriv, gen, 1 }, { "ode", op_ode, gen, 2 }, { "sampling", op_sample, gen, 2 }, { "interpolation", op_interp, gen, 1 } };
const unsigned NOPS = sizeof OPS / sizeof OPS[0];
const OpsConfig OPSCFG = { 3, 6, 0.3, 100000000 };
OPS_HARNESS
