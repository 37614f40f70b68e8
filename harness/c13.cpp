// C13: a root finder never reports a root its evaluations do not support.
// The function is the environment: deterministic in x, but with regions where
// it is not a number, infinite, discontinuous, tiny or flat, and derivatives
// that may be wrong. Every evaluation is recorded; a returned number must be
// supported by the record.
#include "ops.h"
enum { K_CALLS, K_EVALS, K_NUMBERS, K_REFUSED, K_GAVEUP, K_NAN, K_INF, K_BADDERIV, K_BRACKET, K_NOSIGN, K_ROOTS, K_NESTED, K_MULTI, K_EXACT };
namespace sim {
const char* PROPERTY = "C13"; const char* VARIANT = "default";
const char* CTR_NAMES[] = { "calls", "evaluations", "numbers_returned", "brackets_refused", "gave_up_with_an_error", "not_a_number_evaluations", "infinite_evaluations", "wrong_derivatives", "bracketing_calls", "brackets_without_sign_change", "roots_listed", "nested_searches", "systems_of_equations", "exact_zeros_evaluated", nullptr };
}
using namespace sim;
typedef long double LD;

#include "rootfn.h"
static dual dual_fn(dual x) { Fn* F = CUR; nested(F, x.Re()); double y, a; { KeepErrno k; Unwatched u; y = F->call(x.Re()); a = F->calld(x.Re(), 1); } return dual(y, a * x.Dual()); }
static dual2 dual2_fn(dual2 x) { Fn* F = CUR; nested(F, x.Re()); double y, a, b; { KeepErrno k; Unwatched u; y = F->call(x.Re()); a = F->calld(x.Re(), 1); b = F->calld(x.Re(), 2); } return dual2(y, a * x.Dual1(), b); }

static void done(OpCall& c, Fn* F, double r, int e, const char* how, bool supported, double tol) {
	if(r == r) count(K_NUMBERS); else count(K_GAVEUP);
	if(r == r && !e && !supported) VIOL("unsupported-root", "%s returned %.17g (tolerance %g) after %zu evaluations, none of which supports it", how, r, tol, F->f.size());
	if(r == r && e) VIOL("number-with-error", "%s returned %.17g and signalled error %d", how, r, e);
	if(r != r && !e) VIOL("silent-failure", "%s gave up with a NaN and signalled no error", how);
	if(r == r && std::isinf(r)) VIOL("unsupported-root", "%s returned an infinite root", how);
	c.result = dig(r, e, (unsigned) F->f.size()); delete F;
}
template<int METHOD> static void op_open(OpCall& c) {
	Fn* F; double tol, x0; unsigned it; int form; const char* how[] = { "root_newton", "root_halley", "root_steffensen", "root_chebyshev", "root_ostrowski", "root_jarrat" };
	{ Unwatched u; F = new Fn(c.g, 13); if(F->dh) count(K_BADDERIV); static const double ts[] = { 1e-8, 1e-8, 1e-3, 1e-12, 0.1 }; tol = ts[c.g.below(5)]; x0 = c.g.chance(0.1) ? F->c : c.g.real(-4, 4); if(c.g.chance(0.05)) x0 = c.g.chance(0.5) ? NAN : INFINITY; static const unsigned is[] = { 100, 100, 30, 5, 1, 0 }; it = is[c.g.below(6)]; form = (int) c.g.below(2); count(K_CALLS); errno = 0; }
	typedef std::function<real(real)> RF;
	RF f = [F](real x) { nested(F, x); return F->call(x); }, d = [F](real x) { return F->calld(x, 1); }, d2 = [F](real x) { return F->calld(x, 2); };
	double r; CUR = F;
	switch(METHOD) {
		case NEWTON: r = form ? root_newton(f, d, x0, tol, it) : root_newton(dual_fn, x0, tol, it); break;
		case HALLEY: r = form ? root_halley(f, d, d2, x0, tol, it) : root_halley(dual2_fn, x0, tol, it); break;
		case STEFFENSEN: r = root_steffensen(f, x0, tol, it); break;
		case CHEBYSHEV: r = form ? root_chebyshev(f, d, d2, x0, tol, it) : root_chebyshev(dual2_fn, x0, tol, it); break;
		case OSTROWSKI: r = root_ostrowski(f, d, x0, tol, it); break;
		default: r = root_jarrat(f, d, x0, tol, it); break;
	}
	Unwatched u; int e = errno;
	bool ok = r == r && (point_support(*F, r, tol, 1e-15 * std::fabs(r)) || step_support(*F, METHOD, r, tol));
	done(c, F, r, e, how[METHOD], ok, tol);
}
template<int ITP> static void op_bracket(OpCall& c) {
	Fn* F; double tol, a, b; unsigned it, n0; bool dflt, far;
	{
		Unwatched u; F = new Fn(c.g, 13); static const double ts[] = { 1e-8, 1e-8, 1e-3, 1e-12, 0.1, 1e-14 }; tol = ts[c.g.below(6)];
		a = c.g.real(-4, 3); b = a + (c.g.chance(0.1) ? c.g.real(0, 1e-7) : c.g.real(0.01, 8)); if(c.g.chance(0.6)) { double w = c.g.real(0.1, 4); a = F->c - w; b = F->c + c.g.real(0.1, 4); }
		far = c.g.chance(0.2);     // far from the origin, where neighbouring numbers may be further apart than the tolerance
		if(far) { double o = F->c * std::pow(10.0, c.g.real(1, 13)), w = c.g.chance(0.5) ? 1 : std::fabs(o) * std::pow(10.0, c.g.real(-14, -1)); a = o - (F->c - a) * w; b = o + (b - F->c) * w; F->c = o; }
		if(c.g.chance(0.05)) { a = F->c; } if(c.g.chance(0.05)) std::swap(a, b);
		static const unsigned is[] = { 100, 100, 40, 8, 1, 0 }; it = is[c.g.below(6)]; n0 = c.g.chance(0.6) ? 1 : (unsigned) c.g.below(6); dflt = c.g.chance(0.3); if(dflt) tol = OPTIMIZATION_TOL; if(dflt) it = 100;
		count(K_CALLS); count(K_BRACKET); errno = 0;
	}
	auto f = [F](real x) { nested(F, x); return F->call(x); };
	double r = ITP ? (dflt ? root_itp(f, a, b) : root_itp(f, a, b, tol, n0)) : (dflt ? root_bisect(f, a, b) : root_bisect(f, a, b, tol, it));
	Unwatched u; int e = errno; const char* how = ITP ? "root_itp" : "root_bisect";
	double fa = F->val(a), fb = F->val(b);
	if(!(sg(fa) * sg(fb) < 0) || fa != fa || fb != fb || a > b) {
		count(K_NOSIGN); if(r == r || !e) VIOL("bracket-accepted", "%s accepted [%.17g, %.17g], where the function is %.17g and %.17g, and returned %.17g with error %d", how, a, b, fa, fb, r, e);
		count(K_REFUSED);
	}
	if(r == r && (r < a || r > b)) VIOL("outside-bracket", "%s returned %.17g, outside [%.17g, %.17g]", how, r, a, b);
	bool ok = r == r && (bracket_support(*F, r, tol) || point_support(*F, r, tol, 2 * tol));
	// a sound bracket of a continuous, finite function must not be given up
	if(r != r && !far && !F->hostile && (F->kind <= 4 || F->kind >= 9) && sg(fa) * sg(fb) < 0 && std::fabs(fa * fb) > 1e-290 && a <= b && tol >= 1e-12 && (ITP || it >= 100) && F->kind != 11) VIOL("gave-up", "%s found no root in [%.17g, %.17g], where the function is %.17g and %.17g", how, a, b, fa, fb);
	done(c, F, r, e, how, ok, tol);
}
static void op_roots(OpCall& c) {
	Fn* F; double tol, a, b; unsigned steps;
	{ Unwatched u; F = new Fn(c.g, 13); if(c.g.chance(0.5)) F->kind = 3; tol = c.g.chance(0.6) ? 1e-8 : 1e-4; a = c.g.real(-5, 1); b = a + c.g.real(0.1, 8); if(c.g.chance(0.3)) { a = std::floor(a); b = std::ceil(b); F->c = std::round(F->c); } steps = c.g.chance(0.3) ? 10 : (unsigned) c.g.range(1, 30); count(K_CALLS); errno = 0; }
	auto f = [F](real x) { nested(F, x); return F->call(x); };
	std::vector<real> rs = roots(f, a, b, tol, (real) steps);
	Unwatched u; int e = errno; bool some_nan = false; Dig d;
	for(double r : rs) {
		count(K_ROOTS); d(r); if(r != r) { some_nan = true; continue; }
		if(r < a - 1e-12 || r > b + 1e-12) VIOL("outside-bracket", "roots() listed %.17g, outside [%.17g, %.17g]", r, a, b);
		if(!(bracket_support(*F, r, tol) || point_support(*F, r, tol, 2 * tol))) VIOL("unsupported-root", "roots() listed %.17g, which none of %zu evaluations supports", r, F->f.size());
	}
	if(some_nan && !e) VIOL("silent-failure", "roots() listed a NaN and signalled no error");
	if(e && !some_nan) VIOL("spurious-error", "roots() signalled error %d though every root was found", e);
	// candidate intervals
	errno = 0; size_t n0 = F->f.size();
	std::vector<vec2> iv = find_root_intervals(f, a, b, steps);
	for(auto& v : iv) { double y0 = F->val(v[0]), y1 = F->val(v[1]); if(y0 != y0 || y1 != y1 || y0 * y1 > 0) VIOL("unsupported-interval", "find_root_intervals listed [%.17g, %.17g], where the function is %.17g and %.17g", (double) v[0], (double) v[1], y0, y1); if(v[0] < a - 1e-12 || v[1] > b + 1e-12 * (1 + std::fabs(b))) VIOL("outside-bracket", "find_root_intervals listed an interval outside [a, b]"); }
	(void) n0; c.result = dig(d.h, e); delete F;
}
// systems of equations: two copies of the scalar function, coupled
static thread_local Fn *M0, *M1; struct Ev2 { double x[2], y[2]; }; static thread_local std::vector<Ev2>* MREC; static thread_local double MK;
template<unsigned N> static autodiff::dvec_t<N> sys(autodiff::dvec_t<N> v) {
	double x0 = v[0].Re(), x1 = v[1].Re(), y0, y1, a0, a1, k = MK;
	{ KeepErrno ke; Unwatched u; double t = x0 + k * x1; y0 = M0->call(t); a0 = M0->calld(t, 1); y1 = M1->call(x1); a1 = M1->calld(x1, 1); MREC->push_back({ { x0, x1 }, { y0, y1 } }); }
	autodiff::dvec_t<N> r; r.resize(2); r[0] = multidual<N>(y0, a0 * (v[0].Dual() + k * v[1].Dual())); r[1] = multidual<N>(y1, a1 * v[1].Dual()); return r;
}
template<unsigned N> static void op_multi(OpCall& c) {
	double tol; vec<real, N> x0; x0.resize(2); unsigned it;
	{ Unwatched u; M0 = new Fn(c.g, 11); M1 = new Fn(c.g, 11); MREC = new std::vector<Ev2>; MK = c.g.real(-1, 1); tol = c.g.chance(0.5) ? 1e-3 : 1e-8; static const unsigned is[] = { 300, 100, 8, 1, 0 }; it = is[c.g.below(5)]; x0[0] = c.g.real(-3, 3); x0[1] = c.g.real(-3, 3); count(K_CALLS); count(K_MULTI); errno = 0; }
	vec<real, N> r = multiroot_newton<N>(sys<N>, x0, tol, it);
	Unwatched u; int e = errno; if(r.size() != 2) VIOL("wrong-size", "multiroot_newton of a system of two equations returned %u numbers", (unsigned) r.size()); bool nan = r[0] != r[0] || r[1] != r[1];
	if(MREC->size() > 2 * (it + 3)) VIOL("unbounded", "multiroot_newton evaluated the system %zu times with a limit of %u iterations", MREC->size(), it);
	if(nan && !e) VIOL("silent-failure", "multiroot_newton gave up with a NaN and signalled no error");
	if(!nan && !e) {
		count(K_NUMBERS); bool ok = false;
		for(auto& v : *MREC) {
			if(!(v.y[0] * v.y[0] + v.y[1] * v.y[1] <= tol * tol * (1 + 1e-12))) continue;
			if(r[0] == v.x[0] && r[1] == v.x[1]) { ok = true; break; }
			double t = v.x[0] + MK * v.x[1]; LD a0 = M0->der(t, 1), a1 = M1->der(v.x[1], 1), s1 = v.y[1] / a1, s0 = v.y[0] / a0 - MK * s1;
			double w0 = (double) (v.x[0] - s0), w1 = (double) (v.x[1] - s1);
			auto cl = [](double p, double q, double m) { return std::fabs(p - q) <= 1e-6 * m + 1e-300; };
			double mg = std::fabs(v.x[0]) + std::fabs(v.x[1]) + std::fabs((double) s0) + std::fabs((double) s1); if(!(mg < 1e300)) { ok = true; break; }
			if(cl(r[0], w0, mg) && cl(r[1], w1, mg)) { ok = true; break; }
		}
		if(!ok) VIOL("unsupported-root", "multiroot_newton returned (%.17g, %.17g) after %zu evaluations, none of which supports it", r[0], r[1], MREC->size());
	} else count(K_GAVEUP);
	c.result = dig(r, e, (unsigned) MREC->size()); delete M0; delete M1; delete MREC;
}
const OpDef OPS[] = { { "root_newton", op_open<NEWTON>, nullptr, 2 }, { "root_halley", op_open<HALLEY>, nullptr, 2 }, { "root_steffensen", op_open<STEFFENSEN>, nullptr, 1 }, { "root_chebyshev", op_open<CHEBYSHEV>, nullptr, 2 }, { "root_ostrowski", op_open<OSTROWSKI>, nullptr, 1 }, { "root_jarrat", op_open<JARRAT>, nullptr, 1 },
	{ "root_bisect", op_bracket<0>, nullptr, 4 }, { "root_itp", op_bracket<1>, nullptr, 4 }, { "roots", op_roots, nullptr, 3 }, { "multiroot_newton", op_multi<2>, nullptr, 2 }, { "multiroot_newton_dynamic", op_multi<0>, nullptr, 1 } };
const unsigned NOPS = sizeof OPS / sizeof OPS[0];
const OpsConfig OPSCFG = { 3, 8, 0.3, 20000000 };
OPS_HARNESS
