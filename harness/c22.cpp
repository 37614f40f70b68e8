// C22: an optimiser never reports an extremum its evaluations do not support.
// As in C13 the function is the environment: smooth, kinked, monotone, with many
// extrema, or with regions where it or its derivatives are not a number. Every
// evaluation is recorded; a returned point must be supported by the record.
#include "ops.h"
enum { K_CALLS, K_EVALS, K_POINTS, K_REFUSED, K_GAVEUP, K_NAN, K_INF, K_BADDERIV, K_GOLDEN, K_UNIMODAL, K_MANY, K_ENDPOINT, K_NEWTON, K_BISECT, K_WRONGKIND, K_GRAD, K_LINGRAD, K_CONVEX, K_NESTED, K_EXACT, K_WIDE, K_SCALED, K_TINYSTEP };
namespace sim {
const char* PROPERTY = "C22"; const char* VARIANT = "default";
const char* CTR_NAMES[] = { "calls", "evaluations", "points_returned", "intervals_refused", "gave_up_with_an_error", "not_a_number_evaluations", "infinite_evaluations", "wrong_second_derivatives", "golden_section_searches", "functions_with_one_extremum", "functions_with_many_extrema", "extrema_at_an_end", "newton_searches", "bisection_searches", "extrema_of_the_other_kind", "gradient_searches", "line_searches", "convex_functions", "nested_searches", "exact_zeros_evaluated", "intervals_too_wide_for_the_limit", "scaled_gradients", "tiny_steps", nullptr };
}
using namespace sim;
typedef long double LD;
#include "rootfn.h"

// ---- golden section
struct G {
	int kind, sign; double c, s, q, k, p[3]; uint64_t salt; double nanp; bool nest; std::vector<Ev> rec; size_t limit = 4000;
	// a function whose minimum (sign = 1) or maximum (sign = -1) is searched
	double base(double x) const {
		double t = x - c;
		switch(kind) {
			case 0: return t * t;
			case 1: return std::fabs(t);
			case 2: return t < 0 ? -t * q : t / q;                    // different slopes
			case 3: return -1 / (1 + t * t);                          // one valley, flat far away
			case 4: return t;                                         // at the left end
			case 5: return -t;                                        // at the right end
			case 6: return std::exp(q * t) - q * t;
			case 7: return std::sqrt(std::fabs(t));
			case 8: return std::sin(q * 3 * t) + 0.3 * std::sin(q * 7.3 * t + 1);                 // many extrema
			case 9: return p[0] * std::sin(t * 5) + p[1] * std::fabs(std::sin(t * q * 9)) + 0.1 * t;
			default: return std::fabs(std::fabs(t) - k);                // two equal minima
		}
	}
	bool one() const { return kind <= 7; }
	double val(double x) const { double y = sign * s * base(x); if(nanp > 0) { uint64_t b; __builtin_memcpy(&b, &x, 8); Rng r(b ^ salt); r.next(); if(r.chance(nanp)) y = NAN; } return y; }
	double call(double x) { KeepErrno ke; Unwatched u; double y = val(x); rec.push_back({ x, y }); count(K_EVALS); if(y != y) count(K_NAN); if(rec.size() > limit) VIOL("unbounded", "%zu evaluations", rec.size()); return y; }
};
static void inner(double x) {     // a search inside the function of another
	KeepErrno ke; { Unwatched u; count(K_NESTED); } double c = x / 3;
	double r = minimize_goldensection([c](real t) { return (t - c) * (t - c); }, c - 1, c + 2), q = maximize_goldensection([c](real t) { return -std::fabs(t - c); }, c - 2, c + 1);
	Unwatched u; if(std::fabs(x) < 1e3 && (std::fabs(r - c) > 1e-6 || std::fabs(q - c) > 1e-6)) VIOL("nested-search", "a search started inside the function of another found %.17g and %.17g instead of %.17g", r, q, c);
}
template<int SIGN> static void op_golden(OpCall& c) {
	G* F; double a, b; bool far, wide = false;
	{
		Unwatched u; Rng& g = c.g; F = new G; F->kind = (int) g.below(11); F->sign = SIGN; F->c = g.chance(0.15) ? (double) g.range(-2, 2) : g.real(-2, 2); F->s = g.chance(0.5) ? 1 : std::pow(10.0, g.real(-6, 6)); F->q = g.real(0.4, 2.5); F->k = g.real(0.05, 1.5); for(double& x : F->p) x = g.real(-1, 1); F->salt = g.next(); F->nanp = g.chance(0.12) ? (g.chance(0.5) ? 0.3 : 0.02) : 0; F->nest = g.chance(0.1);
		a = F->c - g.real(0.01, 4); b = F->c + g.real(0.01, 4); if(g.chance(0.3)) { a = g.real(-4, 4); b = a + g.real(0, 6); } if(g.chance(0.08)) { b = a + g.real(0, 3e-8); } if(g.chance(0.05)) std::swap(a, b); if(g.chance(0.03)) b = a;
		far = F->kind != 6 && g.chance(0.12); if(far) { double w = std::pow(10.0, g.real(0, 12)); a *= w; b *= w; F->c *= w; }
		else if(g.chance(0.08)) { wide = true; F->kind = (int) g.range(1, 2); F->nanp = 0; F->nest = false; F->s = 1; double w = std::pow(10.0, g.real(6, 22)); a = F->c - g.real(0.1, 1) * w; b = F->c + g.real(0.1, 1) * w; }   // more steps needed than allowed
		count(K_CALLS); count(K_GOLDEN); count(F->one() ? K_UNIMODAL : K_MANY); errno = 0;
	}
	auto f = [F](real x) { double y = F->call(x); if(F->nest && F->rec.size() % 7 == 0) inner(x); return y; };
	double r = SIGN > 0 ? minimize_goldensection(f, a, b) : maximize_goldensection(f, a, b);
	Unwatched u; int e = errno; const char* how = SIGN > 0 ? "minimize_goldensection" : "maximize_goldensection";
	if(r == r) count(K_POINTS); else count(K_GAVEUP);
	if(a > b) { count(K_REFUSED); if(r == r || !e) VIOL("interval-accepted", "%s accepted [%.17g, %.17g] and returned %.17g with error %d", how, a, b, r, e); }
	else {
		if(r != r && !e) VIOL("silent-failure", "%s gave up with a NaN and signalled no error", how);
		if(r == r && e) VIOL("number-with-error", "%s returned %.17g and signalled error %d", how, r, e);
		if(r == r && (r < a || r > b)) VIOL("outside-interval", "%s returned %.17g, outside [%.17g, %.17g]", how, r, a, b);
		if(r != r && std::fabs(a) < 1e5 && std::fabs(b) < 1e5) VIOL("gave-up", "%s found no extremum in [%.17g, %.17g] after %zu evaluations", how, a, b, F->rec.size());
		if(wide) { count(K_WIDE); if(r == r && std::fabs(r - F->c) > 1e-6) VIOL("unsupported-extremum", "%s returned %.17g in [%.17g, %.17g], where the only extremum is at %.17g", how, r, a, b, F->c); }
		else if(r == r && !F->nanp) {
			double scale = 0, best = INFINITY; for(auto& v : F->rec) { scale = std::max(scale, std::fabs(v.y)); best = std::min(best, v.y * SIGN); }
			double w = 2.1e-8 + 4e-16 * (std::fabs(a) + std::fabs(b));
			// within the final interval of the best value seen
			bool ok = F->rec.empty() || b - a <= w || (far && (!F->one() || F->kind == 7));   // far away a change of the last digit changes these functions too much
			for(auto& v : F->rec) if(std::fabs(v.x - r) <= w && v.y * SIGN <= best + 1e-11 * scale) { ok = true; break; }
			if(!ok) VIOL("unsupported-extremum", "%s returned %.17g in [%.17g, %.17g], but the best of %zu values (%.17g) was not seen within %g of it", how, r, a, b, F->rec.size(), best * SIGN, w);
			if(F->one() && b - a > w) {
				double xs = F->kind == 4 ? a : F->kind == 5 ? b : F->c; if(F->kind == 6) xs = F->c; if(xs < a) xs = a; if(xs > b) xs = b; if(xs == a || xs == b) count(K_ENDPOINT);
				double fs = F->val(xs) * SIGN, fr = F->val(r) * SIGN;
				double slope = std::max(std::fabs(F->val(std::min(b, xs + w)) - F->val(xs)), std::fabs(F->val(std::max(a, xs - w)) - F->val(xs)));
				if(fr > fs + slope + 1e-11 * scale) VIOL("unsupported-extremum", "%s returned %.17g in [%.17g, %.17g], where the only extremum is at %.17g: the function is %.17g instead of %.17g", how, r, a, b, xs, fr * SIGN, fs * SIGN);
			}
		}
	}
	c.result = dig(r, e); delete F;
}
// ---- the derivative and its root
static void verdict(OpCall& c, Fn* F, double r, int e, const char* how, bool supported) {
	if(r == r) count(K_POINTS); else count(K_GAVEUP);
	if(r == r && !e && !supported) VIOL("unsupported-extremum", "%s returned %.17g after %zu evaluations of the derivative, none of which supports it", how, r, F->f.size());
	if(r == r && e) VIOL("number-with-error", "%s returned %.17g and signalled error %d", how, r, e);
	if(r != r && !e) VIOL("silent-failure", "%s gave up with a NaN and signalled no error", how);
	c.result = dig(r, e); delete F;
}
typedef std::function<real(real)> RF;
template<int SIGN> static void op_newton(OpCall& c) {
	Fn* F; double x0; bool dflt; { Unwatched u; F = new Fn(c.g, 13); if(F->dh) count(K_BADDERIV); x0 = c.g.chance(0.1) ? F->c : c.g.real(-4, 4); dflt = c.g.chance(0.1); if(dflt) x0 = 0; count(K_CALLS); count(K_NEWTON); errno = 0; }
	RF f = [](real x) { return x * 0; }, d = [F](real x) { nested(F, x); return F->call(x); }, d2 = [F](real x) { return F->calld(x, 1); };
	double r = SIGN > 0 ? (dflt ? minimize_newton(f, d, d2) : minimize_newton(f, d, d2, x0)) : (dflt ? maximize_newton(f, d, d2) : maximize_newton(f, d, d2, x0));
	Unwatched u; int e = errno; const char* how = SIGN > 0 ? "minimize_newton" : "maximize_newton"; const double tol = OPTIMIZATION_TOL;
	bool ok = r == r && (point_support(*F, r, tol, 1e-15 * std::fabs(r)) || step_support(*F, NEWTON, r, tol));
	if(r == r && !e) { double v = F->der(r, 1) * SIGN; if(!(v >= 0)) VIOL("other-kind", "%s returned %.17g, where the second derivative is %.17g", how, r, F->der(r, 1)); }
	if(r != r) count(K_WRONGKIND);
	// a parabola of the right kind must not be given up, one of the other kind must
	if(F->kind == 0 && !F->hostile && !F->dh && std::fabs(F->s) > 1e-3 && std::fabs(F->s) < 1e3) {
		if(F->s * SIGN > 0 && r != r) VIOL("gave-up", "%s found no extremum of a parabola from %.17g", how, x0);
		if(F->s * SIGN < 0 && r == r) VIOL("other-kind", "%s returned %.17g on a parabola of the other kind", how, r);
	}
	verdict(c, F, r, e, how, ok);
}
template<int SIGN> static void op_bisection(OpCall& c) {
	Fn* F; double a, b; { Unwatched u; Rng& g = c.g; F = new Fn(g, 13); if(g.chance(0.15)) { F->kind = 3; F->q = std::pow(10.0, g.real(0.5, 3)); } a = F->c - g.real(0.1, 4); b = F->c + g.real(0.1, 4); if(g.chance(0.3)) { a = g.real(-4, 3); b = a + g.real(0.01, 6); } if(g.chance(0.05)) std::swap(a, b); count(K_CALLS); count(K_BISECT); errno = 0; }
	RF f = [](real x) { return x * 0; }, d = [F](real x) { nested(F, x); return F->call(x); };
	double r = SIGN > 0 ? minimize_bisection(f, d, a, b) : maximize_bisection(f, d, a, b);
	Unwatched u; int e = errno; const char* how = SIGN > 0 ? "minimize_bisection" : "maximize_bisection"; const double tol = OPTIMIZATION_TOL, h = CALCULUS_DERIV_STEP;
	double fa = F->val(a), fb = F->val(b); bool sound = sg(fa) * sg(fb) < 0 && a <= b;
	if(!sound && (r == r || !e)) VIOL("interval-accepted", "%s accepted [%.17g, %.17g], where the derivative is %.17g and %.17g, and returned %.17g with error %d", how, a, b, fa, fb, r, e);
	if(!sound) count(K_REFUSED);
	if(r == r && (r < a || r > b)) VIOL("outside-interval", "%s returned %.17g, outside [%.17g, %.17g]", how, r, a, b);
	bool ok = r == r && (bracket_support(*F, r, tol) || point_support(*F, r, tol, 2 * tol));
	if(r == r && !e) {
		double up = F->val(r + h), dn = F->val(r - h), df = (up - dn) * SIGN;
		if(df != df) { if(F->val(r - h * (1 - 1e-9)) != F->val(r - h * (1 - 1e-9)) || F->hostile != 1) VIOL("other-kind", "%s returned %.17g, around which the derivative is %.17g and %.17g", how, r, dn, up); }
		else if(F->hostile != 1 && F->hostile != 3 && F->hostile != 6 && df < -1e-9 * (std::fabs(up) + std::fabs(dn))) VIOL("other-kind", "%s returned %.17g, around which the derivative goes from %.17g to %.17g", how, r, dn, up);
	}
	if(r != r) count(K_WRONGKIND);
	if(F->kind <= 1 && !F->hostile && sound && std::fabs(F->s) > 1e-3 && std::fabs(F->s) < 1e3) {
		if(F->s * SIGN > 0 && r != r) VIOL("gave-up", "%s found no extremum in [%.17g, %.17g]", how, a, b);
		if(F->s * SIGN < 0 && r == r) VIOL("other-kind", "%s returned %.17g for a function with one extremum, of the other kind", how, r);
	}
	verdict(c, F, r, e, how, ok);
}
// ---- gradients
template<unsigned N> struct M {
	int kind; double A[N][N], c[N], s, m; int sign; double nanp, nanr; uint64_t salt; struct E { double x[N], g[N]; }; std::vector<E> rec; size_t limit;
	bool dead(const double* x) const { if(nanr > 0) { double d = 0; for(unsigned i = 0; i < N; ++i) d += (x[i] - c[i]) * (x[i] - c[i]); if(d < nanr * nanr) return true; } if(nanp > 0) { uint64_t b = salt; for(unsigned i = 0; i < N; ++i) { uint64_t w; __builtin_memcpy(&w, x + i, 8); b = b * 0x9e3779b97f4a7c15ull + w; } Rng r(b); r.next(); return r.chance(nanp); } return false; }
	double eval(const double* x, double* g) const {
		double t[N], y = 0; for(unsigned i = 0; i < N; ++i) t[i] = x[i] - c[i];
		for(unsigned i = 0; i < N; ++i) g[i] = 0;
		switch(kind) {
			case 0: for(unsigned i = 0; i < N; ++i) for(unsigned j = 0; j < N; ++j) { y += 0.5 * A[i][j] * t[i] * t[j]; g[i] += A[i][j] * t[j]; } break;      // convex
			case 1: for(unsigned i = 0; i < N; ++i) { y += std::log(std::cosh(t[i])) + 0.25 * t[i] * t[i]; g[i] = std::tanh(t[i]) + 0.5 * t[i]; } break;      // convex
			case 2: for(unsigned i = 0; i < N; ++i) { y += std::sin(2 * t[i]) * m; g[i] = 2 * std::cos(2 * t[i]) * m; } break;                           // many extrema
			case 3: for(unsigned i = 0; i < N; ++i) { y += (i ? 1 : -1) * t[i] * t[i]; g[i] = (i ? 2 : -2) * t[i]; } break;                           // a saddle
			case 4: for(unsigned i = 0; i < N; ++i) { y += t[i]; g[i] = 1; } break;                                                                      // no extremum
			default: y = m; break;                                                                                                                         // constant
		}
		y *= sign * s; for(unsigned i = 0; i < N; ++i) g[i] *= sign * s;
		if(dead(x)) { y = NAN; for(unsigned i = 0; i < N; ++i) g[i] = NAN; }
		return y;
	}
};
template<unsigned N> static M<N>*& cur() { static thread_local M<N>* m; return m; }
template<unsigned N> static multidual<N> field(vec<multidual<N>, N> v) {
	M<N>* F = cur<N>(); double x[N], g[N], y; { KeepErrno ke; Unwatched u; for(unsigned i = 0; i < N; ++i) x[i] = v[i].Re(); y = F->eval(x, g); typename M<N>::E e; for(unsigned i = 0; i < N; ++i) { e.x[i] = x[i]; e.g[i] = g[i]; } F->rec.push_back(e); count(K_EVALS); if(y != y) count(K_NAN); if(F->rec.size() > F->limit) VIOL("unbounded", "%zu evaluations", F->rec.size()); }
	vec<real, N> d; for(unsigned i = 0; i < N; ++i) d[i] = g[i];
	return multidual<N>(y, d);
}
template<unsigned N> static void op_grad(OpCall& c) {
	M<N>* F; int form; double tol, gamma; unsigned it; vec<real, N> x0; bool dflt;
	static const char* nm[] = { "multi_minimize_grad", "multi_maximize_grad", "multi_minimize_lingrad", "multi_maximize_lingrad", "multi_minimize", "multi_maximize" };
	{
		Unwatched u; Rng& g = c.g; F = new M<N>; form = (int) g.below(6); bool line = form >= 2, wrap = form >= 4; F->kind = wrap ? (int) g.below(2) : (int) g.below(6);
		for(unsigned i = 0; i < N; ++i) { F->c[i] = g.real(-1, 1); for(unsigned j = 0; j <= i; ++j) F->A[i][j] = F->A[j][i] = i == j ? g.real(0.9, 1.4) : g.real(-0.2, 0.2); x0[i] = g.chance(0.1) ? F->c[i] : g.real(-2, 2); }
		F->s = 1; F->m = g.real(0.3, 1); F->sign = (form % 2 ? -1 : 1) * (!wrap && g.chance(0.25) ? -1 : 1); F->salt = g.next(); F->nanp = !wrap && g.chance(0.08) ? 0.02 : 0; F->nanr = g.chance(0.08) ? g.real(0.05, 0.5) : 0;
		static const double ts[] = { 1e-3, 1e-3, 1e-5, 0.1, 1e-8 }; tol = ts[g.below(line ? 4 : 5)]; gamma = g.chance(0.1) ? (g.chance(0.2) ? 0.0 : g.real(0, 0.1)) : -g.real(0.02, 0.3); it = line ? (unsigned) g.below(40) : g.chance(0.5) ? 3000 : (unsigned) g.below(200); dflt = g.chance(0.15); if(wrap) it = 50000;
		if(!wrap && g.chance(0.1)) { count(K_SCALED); F->s = std::pow(10.0, g.real(-9, 4)); if(it > 300) it = 300; }
		if(!line && gamma < 0 && g.chance(0.12)) { count(K_TINYSTEP); gamma = -std::pow(10.0, g.real(-20, -2)); if(it > 300) it = 300; } if(!wrap && g.chance(0.03)) tol = 0;
		if((dflt && F->kind > 1) || F->s != 1) dflt = false; if(dflt) { tol = OPTIMIZATION_MINGRAD_TOLERANCE; gamma = OPTIMIZATION_MINGRAD_GAMMA; it = OPTIMIZATION_MINGRAD_ITER; if((form % 2 ? -1 : 1) != F->sign) F->sign = -F->sign; }
		F->limit = line ? 600000 : 200000; cur<N>() = F; count(K_CALLS); count(line ? K_LINGRAD : K_GRAD); errno = 0;
	}
	vec<real, N> r;
	switch(form) {
		case 0: r = dflt ? multi_minimize_grad<N>(field<N>, x0) : multi_minimize_grad<N>(field<N>, x0, gamma, tol, it); break;
		case 1: r = dflt ? multi_maximize_grad<N>(field<N>, x0) : multi_maximize_grad<N>(field<N>, x0, gamma, tol, it); break;
		case 2: r = dflt ? multi_minimize_lingrad<N>(field<N>, x0) : multi_minimize_lingrad<N>(field<N>, x0, tol, it); break;
		case 3: r = dflt ? multi_maximize_lingrad<N>(field<N>, x0) : multi_maximize_lingrad<N>(field<N>, x0, tol, it); break;
		case 4: r = dflt ? multi_minimize<N>(field<N>, x0) : multi_minimize<N>(field<N>, x0, tol); break;
		default: r = dflt ? multi_maximize<N>(field<N>, x0) : multi_maximize<N>(field<N>, x0, tol); break;
	}
	Unwatched u; int e = errno; bool nan = false, line = form >= 2; const char* how = nm[form]; int dir = form % 2 ? -1 : 1;
	for(unsigned i = 0; i < N; ++i) if(r[i] != r[i]) nan = true;
	if(nan) count(K_GAVEUP); else count(K_POINTS);
	if(nan && !e) VIOL("silent-failure", "%s gave up with a NaN and signalled no error", how);
	if(!nan && e) VIOL("number-with-error", "%s returned a point and signalled error %d", how, e);
	if(!line && gamma >= 0) { count(K_REFUSED); if(!nan) VIOL("interval-accepted", "%s accepted the step %.17g", how, gamma); }
	else {
		bool clean = F->nanp == 0 && F->nanr == 0;
		bool from = false; for(auto& v : F->rec) { bool eq = true; for(unsigned i = 0; i < N; ++i) if(!(std::fabs(v.x[i] - x0[i]) <= 1e-12)) eq = false; if(eq) { from = true; break; } }
		if(!from) VIOL("guess-lost", "%s never evaluated the function at the guess (%zu evaluations)", how, F->rec.size());
		if(!nan) {
			bool ok = false; double near_g = INFINITY;
			for(auto& v : F->rec) {
				double g2 = 0, d2 = 0, x2 = 0, s2 = 0; for(unsigned i = 0; i < N; ++i) { g2 += v.g[i] * v.g[i]; d2 += (r[i] - v.x[i]) * (r[i] - v.x[i]); x2 += r[i] * r[i]; double st = r[i] - (v.x[i] + dir * gamma * v.g[i]); s2 += st * st; }
				if(!(std::sqrt(g2) <= tol * (1 + 1e-12))) continue;
				double slack = 1e-12 * (1 + std::sqrt(x2));
				if(std::sqrt(d2) <= slack) { ok = true; break; }
				if(line ? std::sqrt(d2) <= std::sqrt(g2) * (1 + 1e-9) + slack : std::sqrt(s2) <= slack) { ok = true; break; }
			}
			if(!ok) VIOL("unsupported-extremum", "%s (tolerance %g) returned (%.17g, %.17g, ...) after %zu evaluations, none of which supports it", how, tol, r[0], r[1], F->rec.size());
		}
		if(clean && F->kind <= 1 && F->s == 1) {
			count(K_CONVEX);
			if(F->sign == dir) {      // of the right kind: must be found
				if(nan && (dflt || (form >= 4 && tol > 0) || (it >= 3000 && gamma <= -0.02 && tol > 0) || (line && it >= 39 && tol > 0))) VIOL("gave-up", "%s (tolerance %g, step %g) found no extremum of a function with exactly one", how, tol, gamma);
				if(!nan) for(unsigned i = 0; i < N; ++i) if(std::fabs(r[i] - F->c[i]) > 4 * tol + 1e-9) VIOL("unsupported-extremum", "%s (tolerance %g) returned a point where coordinate %u is %.17g instead of %.17g", how, tol, i, r[i], F->c[i]);
			} else if(!nan) {         // of the other kind: only by starting on it
				double d = 0; for(unsigned i = 0; i < N; ++i) d = std::max(d, std::fabs(x0[i] - F->c[i])); if(d > 4 * tol + 1e-9) VIOL("other-kind", "%s returned (%.17g, %.17g, ...) for a function that only has an extremum of the other kind", how, r[0], r[1]);
			}
		}
	}
	c.result = dig(r, e); delete F;
}
const OpDef OPS[] = { { "minimize_goldensection", op_golden<1>, nullptr, 4 }, { "maximize_goldensection", op_golden<-1>, nullptr, 4 }, { "minimize_newton", op_newton<1>, nullptr, 2 }, { "maximize_newton", op_newton<-1>, nullptr, 2 }, { "minimize_bisection", op_bisection<1>, nullptr, 2 }, { "maximize_bisection", op_bisection<-1>, nullptr, 2 }, { "gradient_2", op_grad<2>, nullptr, 3 }, { "gradient_3", op_grad<3>, nullptr, 2 } };
const unsigned NOPS = sizeof OPS / sizeof OPS[0];
const OpsConfig OPSCFG = { 3, 6, 0.3, 40000000 };
OPS_HARNESS
