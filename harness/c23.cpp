// C23: numerical integrals and derivatives are exactly the documented rule.
// The user function is the environment: it knows the points of the rule, answers
// each with an arbitrary (seeded) number, or with a fault (not a number, infinite),
// and refuses to be evaluated anywhere else. The result must be the weighted sum.
#include "ops.h"
#include <algorithm>
enum { K_CALLS, K_EVALS, K_NANS, K_INFS, K_REVERSED, K_REFUSED, K_COMPOSITE, K_ODD, K_ROMBERG, K_TOL, K_TOLMAX, K_GAUSS, K_TABLE, K_WEIGHTS, K_INFINITE, K_GAVEUP, K_DERIV, K_THROW, K_BEST };
namespace sim {
const char* PROPERTY = "C23"; const char* VARIANT = "default";
const char* CTR_NAMES[] = { "calls", "evaluations", "not_a_number_points", "infinite_points", "reversed_intervals", "invalid_calls", "composite_rules", "odd_numbers_of_steps", "romberg_rules", "romberg_to_a_tolerance", "romberg_to_the_last_level", "gauss_rules", "tabulated_rules", "computed_weights", "improper_integrals", "gave_up_with_an_error", "derivative_formulas", "interrupted_by_an_exception", "best_available_algorithm", nullptr };
}
using namespace sim;
typedef long double LD;
struct KeepErrno { int e = errno; ~KeepErrno() { errno = e; } };
struct Stop { };

// a linear rule: points, weights and the answer the function gives at each point
struct Rule {
	struct P { LD x, w; double v; bool seen; }; std::vector<P> p; double eps = 1e-9; size_t calls = 0; long stop = 0; const char* how = ""; bool exact = false; size_t limit = 400000;
	void add(LD x, LD w) { p.push_back({ x, w, 0, false }); }
	void seal(Rng& g, const char* h) {
		how = h; std::sort(p.begin(), p.end(), [](const P& a, const P& b) { return a.x < b.x; });
		std::vector<P> q; LD m = 0; for(auto& e : p) m = std::max(m, fabsl(e.x));
		for(auto& e : p) { if(!q.empty() && e.x - q.back().x <= 1e-13L * m) q.back().w += e.w; else q.push_back(e); } p.swap(q);
		LD gap = 0; for(size_t i = 1; i < p.size(); ++i) { LD d = p[i].x - p[i - 1].x; if(!gap || d < gap) gap = d; }
		LD fine = exact ? 1e-11L * m + 1e-14L : 1e-7L * (1 + m); eps = (double) (gap ? std::min((LD) 1e-3 * gap, fine) : fine);
		double mag = g.chance(0.3) ? std::pow(10.0, g.real(-8, 8)) : 1; bool smooth = g.chance(0.2); double k = g.real(-2, 2);
		for(auto& e : p) e.v = smooth ? mag * std::sin(k * (double) e.x + 1) : mag * g.real(-1, 1);
		if(g.chance(0.15) && !p.empty()) { unsigned n = g.chance(0.7) ? 1 : 3; while(n--) { P& e = p[g.chance(0.3) ? (g.chance(0.5) ? 0 : p.size() - 1) : g.below(p.size())]; bool nan = g.chance(0.6); e.v = nan ? NAN : g.chance(0.5) ? INFINITY : -INFINITY; count(nan ? K_NANS : K_INFS); } }
	}
	double at(double x) {
		KeepErrno ke; Unwatched u; count(K_EVALS); if(++calls > limit) VIOL("unbounded", "%s: %zu evaluations", how, calls); if(stop && (long) calls == stop) { count(K_THROW); throw Stop(); }
		size_t lo = 0, hi = p.size(); while(lo < hi) { size_t m = (lo + hi) / 2; if(p[m].x < x) lo = m + 1; else hi = m; }
		size_t best = lo; if(lo == p.size() || (lo && x - p[lo - 1].x < p[lo].x - x)) best = lo - 1;
		if(p.empty() || !(fabsl(p[best].x - x) <= eps)) VIOL("not-a-point", "%s evaluated the function at %.17g, which is not one of the %zu points of the rule (the nearest is %.17g)", how, x, p.size(), p.empty() ? NAN : (double) p[best].x);
		p[best].seen = true; return p[best].v;
	}
	// is r the value of the rule?
	void judge(double r, double rel) const {
		LD s = 0, m = 0; bool nan = false, inf = false;
		for(auto& e : p) { if(e.w == 0) continue; if(e.v != e.v) nan = true; else if(std::isinf(e.v)) inf = true; else { s += e.w * e.v; m += fabsl(e.w * e.v); } }
		if(nan) { if(r == r) VIOL("fault-hidden", "%s returned %.17g though the function is not a number at one of its points", how, r); return; }
		if(inf) { if(std::isfinite(r)) VIOL("fault-hidden", "%s returned %.17g though the function is infinite at one of its points", how, r); return; }
		if(!(fabsl(r - s) <= rel * m + 1e-300L)) VIOL("not-the-rule", "%s returned %.17g, but the rule gives %.17g at the values seen (%zu points)", how, r, (double) s, p.size());
	}
};
template<typename F> static bool run(Rule* R, double& r, F f) { try { r = f(); } catch(const Stop&) { return false; } return true; }
// the same call again after it was interrupted
template<typename F> static void run2(OpCall& c, Rule* R, double rel, bool intr, F f) {
	double r = 0; if(intr) { { Unwatched u; R->stop = 1 + (long) c.g.below(R->p.size()); R->calls = 0; } bool done = run(R, r, f); Unwatched u; if(done && (long) R->calls >= R->stop) VIOL("exception-lost", "%s swallowed an exception of the function", R->how); R->stop = 0; R->calls = 0; }
	{ Unwatched u; errno = 0; } run(R, r, f); Unwatched u; int e = errno; if(e) VIOL("spurious-error", "%s set errno %d", R->how, e); R->judge(r, rel); c.result = dig(r, e); delete R;
}
static void interval(Rng& g, double& a, double& b) {
	a = g.real(-4, 4); b = a + g.real(0.05, 6); if(g.chance(0.2)) { a = std::floor(a); b = std::ceil(b) + 1; } if(g.chance(0.15)) { std::swap(a, b); count(K_REVERSED); } if(g.chance(0.1)) { double o = g.real(-1, 1) * std::pow(10.0, g.real(1, 5)); a += o; b += o; } else if(g.chance(0.1)) { double s = std::pow(10.0, g.real(-5, 5)); a *= s; b *= s; }
}
static Rule* fresh() { count(K_CALLS); return new Rule; }
enum { MID, TRAP, SIMP };
template<int WHICH> static void op_composite(OpCall& c) {
	static const char* nm[] = { "integral_midpoint", "integral_trapezoid", "integral_simpson" };
	Rule* R; double a, b; unsigned n, m; bool dflt, intr;
	{ Unwatched u; Rng& g = c.g; R = fresh(); count(K_COMPOSITE); interval(g, a, b); n = g.chance(0.5) ? (unsigned) g.range(1, 12) : g.chance(0.8) ? (unsigned) g.range(1, 150) : (unsigned) g.range(1000, 4100); dflt = g.chance(0.1); if(dflt) n = 100; intr = g.chance(0.1); m = n; if(n % 2) count(K_ODD);
		if(WHICH == SIMP && n % 2) m = n + 1;      // the rule needs an even number of steps
		LD h = ((LD) b - a) / m; if(WHICH == MID) for(unsigned i = 0; i < m; ++i) R->add(a + (i + 0.5L) * h, h); else for(unsigned i = 0; i <= m; ++i) R->add(i == m ? (LD) b : a + i * h, WHICH == TRAP ? (i == 0 || i == m ? h / 2 : h) : (i == 0 || i == m ? h / 3 : i % 2 ? 4 * h / 3 : 2 * h / 3));
		R->exact = true; R->seal(g, nm[WHICH]); }
	auto f = [R](real x) { return R->at(x); };
	run2(c, R, 1e-12, intr, [&] { return WHICH == MID ? (dflt ? integral_midpoint(f, a, b) : integral_midpoint(f, a, b, n)) : WHICH == TRAP ? (dflt ? integral_trapezoid(f, a, b) : integral_trapezoid(f, a, b, n)) : (dflt ? integral_simpson(f, a, b) : integral_simpson(f, a, b, n)); });
}
// weights of Romberg's rule with n levels
static std::vector<LD> romberg_weights(unsigned n, LD len) {
	size_t N = (size_t) 1 << (n - 1); std::vector<std::vector<LD>> T(n, std::vector<LD>(N + 1, 0));
	for(unsigned j = 0; j < n; ++j) { size_t st = N >> j; LD h = len / ((size_t) 1 << j); for(size_t i = 0; i <= N; i += st) T[j][i] = (i == 0 || i == N) ? h / 2 : h; }
	for(unsigned k = 1; k < n; ++k) { LD q = powl(4, k); for(unsigned j = n - 1; j >= k; --j) for(size_t i = 0; i <= N; ++i) T[j][i] = (q * T[j][i] - T[j - 1][i]) / (q - 1); }
	return T[n - 1];
}
static void op_romberg(OpCall& c) {
	Rule* R; double a, b; unsigned n; bool dflt, intr;
	{ Unwatched u; Rng& g = c.g; R = fresh(); count(K_ROMBERG); interval(g, a, b); n = g.chance(0.9) ? (unsigned) g.range(1, 8) : g.chance(0.95) ? (unsigned) g.range(9, 11) : (unsigned) g.range(12, 17); dflt = g.chance(0.1); if(dflt) n = 8; intr = g.chance(0.1);
		std::vector<LD> w = romberg_weights(n, (LD) b - a); size_t N = w.size() - 1; for(size_t i = 0; i <= N; ++i) R->add(i == N ? (LD) b : a + ((LD) b - a) * i / N, w[i]); R->exact = true; R->seal(g, "integral_romberg"); }
	auto f = [R](real x) { return R->at(x); };
	run2(c, R, 1e-11, intr, [&] { return dflt ? integral_romberg(f, a, b) : integral_romberg(f, a, b, n); });
}
// a smooth function with an optional fault near one point
struct Smooth {
	int kind; double k, m, c, bad = NAN, badw = 0; size_t calls = 0, limit = 4000000; double lo = -INFINITY, hi = INFINITY; double* seen_lo = nullptr;
	template<typename F> F f(F x) const { switch(kind) { case 0: return m * std::exp(-k * x); case 1: return m * std::sin(k * x + c) + 1; case 2: return m * ((x - c) * x + k) * x + 1; case 3: return m / (1 + (x - c) * (x - c)); case 4: return m * std::sqrt(std::fabs(x - c)); default: return m * std::exp(-k * x * x) * (1 + c * x); } }
	double at(double x) { KeepErrno ke; Unwatched u; count(K_EVALS); if(++calls > limit) VIOL("unbounded", "%zu evaluations", calls); if(!(x >= lo && x <= hi)) VIOL("not-a-point", "the function was evaluated at %.17g, outside [%.17g, %.17g]", x, lo, hi); if(std::fabs(x - bad) <= badw) return NAN; return f<double>(x); }
};
// reference: romberg to a tolerance; amb: a decision was too close to call
static LD ref_tol(const Smooth& S, LD a, LD b, LD tol, bool& amb, unsigned& lev, bool& nan) {
	std::vector<LD> prev, cur; LD trap = 0, mag = 0; nan = false;
	auto F = [&](LD x) { double xd = (double) x; if(std::fabs(xd - S.bad) <= S.badw) nan = true; return (LD) S.f<double>(xd); };
	trap = (F(a) + F(b)) * (b - a) / 2; prev = { trap }; mag = fabsl(trap); lev = 0;
	for(unsigned j = 1; j < 16; ++j) {
		size_t n = (size_t) 1 << j; LD h = (b - a) / n, s = 0; for(size_t i = 1; i < n; i += 2) s += F(a + i * h);
		trap = trap / 2 + h * s; cur.assign(1, trap); for(unsigned k = 1; k <= j; ++k) { LD q = powl(4, k); cur.push_back((q * cur[k - 1] - prev[k - 1]) / (q - 1)); }
		LD d = fabsl(cur[j] - prev[j - 1]); mag = std::max(mag, fabsl(cur[j])); lev = j;
		if(!nan) { if(fabsl(d - tol) <= 1e-13L * (mag + 1) * n) amb = true; if(d < tol) return cur[j]; }
		prev = cur;
	}
	return prev.back();
}
static void op_tolerance(OpCall& c) {
	Smooth* S; double a, b, tol; int form; bool amb = false, nan; unsigned lev; LD want;
	{ Unwatched u; Rng& g = c.g; S = new Smooth; count(K_CALLS); count(K_TOL); S->kind = (int) g.below(6); S->k = g.real(0.1, 3); S->m = g.real(-2, 2); S->c = g.real(-1, 1); interval(g, a, b); if(std::fabs(a) > 20 || std::fabs(b) > 20 || S->kind == 4) { a = g.real(-3, 3); b = a + g.real(-4, 4); } static const double ts[] = { 1e-8, 1e-6, 1e-3, 0.1, 1e-10 }; tol = ts[g.below(5)]; form = (int) g.below(4); if(form == 1 || form == 2) tol = CALCULUS_INTEGRAL_TOL;
		if(S->kind == 4 && !g.chance(0.15)) S->kind = 1; if(g.chance(0.02)) { S->bad = a + (b - a) * (double) g.below(9) / 8; S->badw = 1e-9; count(K_NANS); }
		S->lo = std::min(a, b) - 1e-12 * (1 + std::fabs(a) + std::fabs(b)); S->hi = std::max(a, b) + 1e-12 * (1 + std::fabs(a) + std::fabs(b)); errno = 0; }
	auto f = [S](real x) { return S->at(x); }; double r;
	switch(form) { case 0: r = integral_romberg_tol(f, a, b, tol); break; case 1: r = integral_romberg_tol(f, a, b); break; case 2: r = integral(f, a, b); break; default: r = integral(f, a, b, tol); }
	Unwatched u; int e = errno; want = ref_tol(*S, a, b, tol, amb, lev, nan); if(form >= 2) count(K_BEST); if(lev == 15) count(K_TOLMAX);
	if(nan) { if(r == r && S->calls > 9) VIOL("fault-hidden", "an integral to a tolerance is %.17g though the function is not a number at one of its points", r); }
	else if(!amb && !(fabsl(r - want) <= 1e-10L * (1 + fabsl(want)) * (1 + std::fabs(b - a)))) VIOL("not-the-rule", "an integral to the tolerance %g (form %d) is %.17g instead of %.17g, %u levels", tol, form, r, (double) want, lev);
	if(e) VIOL("spurious-error", "an integral to a tolerance set errno %d", e);
	c.result = dig(r, e); delete S;
}
static void op_infinite(OpCall& c) {
	Smooth* S; double a, st, tol; unsigned it; bool dflt;
	{ Unwatched u; Rng& g = c.g; S = new Smooth; count(K_CALLS); count(K_INFINITE); static const int ks[] = { 0, 0, 3, 5 }; S->kind = ks[g.below(4)]; S->k = g.real(0.3, 2); S->m = g.real(0.5, 2) * (g.chance(0.5) ? 1 : -1); S->c = g.real(-1, 1); a = g.real(-2, 2); st = g.chance(0.5) ? 1 : g.real(0.3, 2); static const double ts[] = { 1e-8, 1e-5, 1e-3, 1e-2 }; tol = ts[g.below(4)]; it = g.chance(0.6) ? 100 : (unsigned) g.below(12); dflt = g.chance(0.1); if(dflt) { st = 1; tol = 1e-8; it = 100; } S->lo = a - 1e-12; if(g.chance(0.06)) { S->bad = g.chance(0.5) ? a : a + st; S->badw = 1e-9; count(K_NANS); } errno = 0; }
	real_function f = [S](real x) { return S->at(x); };
	double r = dflt ? integral_inf_riemann(f, a) : integral_inf_riemann(f, a, st, tol, it);
	if(S->badw > 0) { Unwatched u; if(r == r) VIOL("fault-hidden", "integral_inf_riemann returned %.17g though the function is not a number at one of its points", r); c.result = dig(r, errno); delete S; errno = 0; return; }
	Unwatched u; int e = errno; bool amb = false, nan; unsigned lev; LD x = (LD) a + st, sum = ref_tol(*S, a, x, tol, amb, lev, nan), d = INFINITY; unsigned i = 0;
	while(fabsl(d) > tol && i <= it) { d = ref_tol(*S, x, x + st, tol, amb, lev, nan); if(fabsl(fabsl(d) - tol) < 1e-12L) amb = true; sum += d; x += st; i++; }
	if(r == r && e) VIOL("number-with-error", "integral_inf_riemann returned %.17g and signalled error %d", r, e);
	if(r != r && !e) VIOL("silent-failure", "integral_inf_riemann gave up with a NaN and signalled no error");
	if(!amb) { if(i > it ? r == r : i < it && r != r) VIOL("not-the-rule", "integral_inf_riemann returned %.17g after %u of %u steps", r, i, it); if(r == r && !(fabsl(r - sum) <= 1e-9L * (1 + fabsl(sum)))) VIOL("not-the-rule", "integral_inf_riemann returned %.17g instead of %.17g (%u steps of %g, tolerance %g)", r, (double) sum, i, st, tol); }
	if(r != r) count(K_GAVEUP); c.result = dig(r, e); delete S;
}
// ---- Gauss rules: points and weights from the three-term recurrence of the orthonormal polynomials, in long double
enum { LEG, LAG, HER };
static void gauss_rule(int fam, unsigned n, std::vector<LD>& x, std::vector<LD>& w) {
	std::vector<LD> al(n), be(n + 1); LD mu = fam == LEG ? 2 : fam == LAG ? 1 : sqrtl(acosl(-1.0L));
	for(unsigned k = 0; k < n; ++k) { al[k] = fam == LAG ? 2 * k + 1 : 0; LD q = k; be[k] = fam == LEG ? q / sqrtl(4 * q * q - 1) : fam == LAG ? q : sqrtl(q / 2); } be[0] = 0;
	auto below = [&](LD t) { unsigned cnt = 0; LD d = 1; for(unsigned k = 0; k < n; ++k) { d = al[k] - t - (k ? be[k] * be[k] / d : 0); if(d == 0) d = 1e-4000L; if(d < 0) cnt++; } return cnt; };   // Sturm count
	x.resize(n); w.resize(n); LD L = fam == LEG ? -1.5L : fam == LAG ? 0 : -(LD) (2 * n + 2), H = fam == LEG ? 1.5L : fam == LAG ? 4.0L * n + 4 : (LD) (2 * n + 2);
	for(unsigned i = 0; i < n; ++i) { LD lo = L, hi = H; for(int it = 0; it < 200; ++it) { LD m = (lo + hi) / 2; if(m == lo || m == hi) break; if(below(m) > i) hi = m; else lo = m; } x[i] = (lo + hi) / 2; if(fam != LAG && n % 2 && i == n / 2) x[i] = 0;
		LD p0 = 0, p1 = 1 / sqrtl(mu), s = p1 * p1; for(unsigned k = 0; k + 1 < n; ++k) { LD p2 = ((x[i] - al[k]) * p1 - be[k] * p0) / be[k + 1]; p0 = p1; p1 = p2; s += p1 * p1; } w[i] = 1 / s; }
}
static void op_gauss(OpCall& c) {      // points and weights given by the caller
	Rule* R; std::vector<real> x, w; double a, b; int form; bool intr, leg;
	{ Unwatched u; Rng& g = c.g; R = fresh(); count(K_GAUSS); form = (int) g.below(5); leg = form >= 3; unsigned n = (unsigned) g.below(g.chance(0.05) ? 200 : 14); interval(g, a, b); for(unsigned i = 0; i < n; ++i) { x.push_back(-1 + 2 * (i + g.real(0.1, 0.9)) / n); w.push_back(g.real(-1, 2)); } for(unsigned i = n; i > 1; --i) std::swap(x[i - 1], x[g.below(i)]); LD h = ((LD) b - a) / 2, m = ((LD) b + a) / 2; for(unsigned i = 0; i < n; ++i) if(leg) R->add(h * x[i] + m, h * w[i]); else R->add(x[i], form == 2 ? (LD) w[i] * (2 + (LD) x[i]) : w[i]); intr = n && g.chance(0.1); static const char* nm[] = { "integral_gauss", "integral_gauss (arrays)", "integral_gauss (weight function)", "integral_legendre (points and weights)", "integral_legendre (arrays)" }; R->seal(g, nm[form]); }
	auto f = [R](real t) { return R->at(t); }; bool refuse; { Unwatched u; refuse = (form == 0 || form == 3) && c.g.chance(0.1); }
	if(refuse) { std::vector<real> w2 = w; w2.push_back(1); errno = 0; double r = form == 0 ? integral_gauss(f, x, w2) : integral_legendre(f, a, b, w2, x); Unwatched u; count(K_REFUSED); if(r == r || !errno) VIOL("mismatch-accepted", "%s accepted different numbers of points and weights and returned %.17g with error %d", R->how, r, errno); if(R->calls) VIOL("mismatch-accepted", "%s evaluated the function before refusing", R->how); }
	run2(c, R, 1e-11, intr, [&] { return form == 0 ? integral_gauss(f, x, w) : form == 1 ? integral_gauss(f, x.data(), w.data(), (unsigned) x.size()) : form == 2 ? integral_gauss(f, x.data(), w.data(), (unsigned) x.size(), [](real t) { return 2 + t; }) : form == 3 ? integral_legendre(f, a, b, x, w) : integral_legendre(f, a, b, x.data(), w.data(), (unsigned) x.size()); });
}
static void op_family(OpCall& c) {     // the rule of n points of an orthogonal family
	Rule* R; unsigned n; int fam, form; double a, b, rel; bool intr; std::vector<real> xs;
	{ Unwatched u; Rng& g = c.g; R = fresh(); count(K_GAUSS); fam = (int) g.below(3); static const unsigned tn[] = { 2, 4, 8, 16 }; static const char* nm[] = { "integral_legendre", "integral_laguerre", "integral_hermite" }; form = (int) g.below(fam == LAG ? 3 : 2); interval(g, a, b); rel = 1e-9;
		if(form == 0) { count(K_TABLE); n = tn[g.below(4)]; if(fam == LEG && g.chance(0.4)) { n = (unsigned) g.range(1, 18); if(n != 2 && n != 4 && n != 8 && n != 16) { count(K_WEIGHTS); rel = 1e-8; } } } else { count(K_WEIGHTS); n = (unsigned) g.range(1, 10); rel = 1e-5; if(form == 2) { a = g.real(-1, 2); b = a + g.real(0.1, 3); } }
		std::vector<LD> x, w; gauss_rule(fam, n, x, w); for(LD v : x) xs.push_back((double) v); LD h = ((LD) b - a) / 2, m = ((LD) b + a) / 2;
		for(unsigned i = 0; i < n; ++i) if(fam == LEG) R->add(h * x[i] + m, h * w[i]); else if(form == 2) { R->add(x[i] + a, w[i] * expl(-(LD) a)); R->add(x[i] + b, -w[i] * expl(-(LD) b)); } else R->add(x[i], w[i]);
		R->seal(g, nm[fam]); if(form == 2) { LD gap = 1e9; for(size_t i = 1; i < R->p.size(); ++i) gap = std::min(gap, R->p[i].x - R->p[i - 1].x); if(gap < 1e-6L) { delete R; R = nullptr; } } intr = g.chance(0.1); }
	if(!R) { Unwatched u; c.result = dig(0); return; }
	auto f = [R](real t) { return R->at(t); }; bool dflt; { Unwatched u; dflt = form == 0 && n == 16; }
	run2(c, R, rel, intr, [&] { return fam == LEG ? (form == 0 ? (dflt ? integral_legendre(f, a, b) : integral_legendre(f, a, b, n)) : integral_legendre(f, a, b, xs)) : fam == LAG ? (form == 0 ? (dflt ? integral_laguerre(f) : integral_laguerre(f, n)) : form == 1 ? integral_laguerre(f, xs) : integral_laguerre(f, a, b, xs)) : (form == 0 ? (dflt ? integral_hermite(f) : integral_hermite(f, n)) : integral_hermite(f, xs)); });
}
static void op_deriv(OpCall& c) {
	static const char* nm[] = { "deriv_central", "deriv_forward", "deriv_backward", "deriv_ridders2", "deriv_ridders", "deriv2", "deriv" };
	Rule* R; int form; double x, h; unsigned deg = 3; bool dflt, intr;
	{ Unwatched u; Rng& g = c.g; R = fresh(); count(K_DERIV); form = (int) g.below(7); x = g.chance(0.1) ? 0 : g.real(-5, 5); if(g.chance(0.1)) x *= 100; dflt = g.chance(0.2); h = std::pow(10.0, g.real(-4, 0)); if(dflt) h = form == 4 ? 0.01 : CALCULUS_DERIV_STEP; if(form == 4) { deg = dflt ? 3 : (unsigned) g.range(1, 7); } intr = g.chance(0.1);
		// abscissas as the caller's numbers: x + h and x - h in double
		auto central = [&](LD d, LD w) { R->add((LD) x + d, w / (2 * d)); R->add((LD) x - d, -w / (2 * d)); };
		switch(form) {
			case 0: central(h, 1); break; case 1: R->add((LD) x + h, 1 / (LD) h); R->add(x, -1 / (LD) h); break; case 2: R->add(x, 1 / (LD) h); R->add((LD) x - h, -1 / (LD) h); break;
			case 3: case 6: central((LD) h / 2, 4 / 3.0L); central(h, -1 / 3.0L); break;
			case 4: { std::vector<std::vector<LD>> A(deg, std::vector<LD>(deg, 0)); for(unsigned m = 0; m < deg; ++m) A[m][m] = 1; for(unsigned n = 1; n < deg; ++n) { LD q = powl(4, n); for(unsigned m = 0; m + n < deg; ++m) for(unsigned k = 0; k < deg; ++k) A[m][k] = (q * A[m + 1][k] - A[m][k]) / (q - 1); } for(unsigned k = 0; k < deg; ++k) central((LD) h / (1 << k), A[0][k]); break; }
			default: R->add((LD) x + h, 1 / ((LD) h * h)); R->add(x, -2 / ((LD) h * h)); R->add((LD) x - h, 1 / ((LD) h * h));
		}
		R->exact = true; R->seal(g, nm[form]); }
	auto f = [R](real t) { return R->at(t); };
	run2(c, R, 1e-12, intr, [&] { switch(form) { case 0: return dflt ? deriv_central(f, x) : deriv_central(f, x, h); case 1: return dflt ? deriv_forward(f, x) : deriv_forward(f, x, h); case 2: return dflt ? deriv_backward(f, x) : deriv_backward(f, x, h); case 3: return dflt ? deriv_ridders2(f, x) : deriv_ridders2(f, x, h); case 4: return dflt ? deriv_ridders(f, x) : deriv_ridders(f, x, h, deg); case 5: return dflt ? deriv2(f, x) : deriv2(f, x, h); default: return dflt ? deriv(f, x) : deriv(f, x, h); } });
}
static void op_invalid(OpCall& c) {
	int k; size_t* n; { Unwatched u; k = (int) c.g.below(7); n = new size_t(0); count(K_CALLS); count(K_REFUSED); errno = 0; } static const char* nm[] = { "integral_midpoint with no steps", "integral_trapezoid with no steps", "integral_simpson with no steps", "integral_romberg of order zero", "deriv_ridders of degree zero", "integral_laguerre with 3 points", "integral_hermite with 5 points" };
	auto f = [n](real x) { Unwatched u; ++*n; return 1.0; }; double r;
	switch(k) { case 0: r = integral_midpoint(f, 0, 1, 0); break; case 1: r = integral_trapezoid(f, 0, 1, 0); break; case 2: r = integral_simpson(f, 0, 1, 0); break; case 3: r = integral_romberg(f, 0, 1, 0); break; case 4: r = deriv_ridders(f, 0.5, 0.01, 0); break; case 5: r = integral_laguerre(f, 3); break; default: r = integral_hermite(f, 5); }
	Unwatched u; if(r == r || !errno) VIOL("invalid-accepted", "%s returned %.17g with error %d", nm[k], r, errno); c.result = dig(r, errno); delete n;
}
const OpDef OPS[] = { { "midpoint", op_composite<MID>, nullptr, 3 }, { "trapezoid", op_composite<TRAP>, nullptr, 3 }, { "simpson", op_composite<SIMP>, nullptr, 3 }, { "romberg", op_romberg, nullptr, 3 }, { "tolerance", op_tolerance, nullptr, 3 }, { "improper", op_infinite, nullptr, 2 }, { "gauss", op_gauss, nullptr, 3 }, { "family", op_family, nullptr, 4 }, { "derivative", op_deriv, nullptr, 4 }, { "invalid", op_invalid, nullptr, 1 } };
const unsigned NOPS = sizeof OPS / sizeof OPS[0];
const OpsConfig OPSCFG = { 3, 6, 0.3, 60000000 };
OPS_HARNESS
