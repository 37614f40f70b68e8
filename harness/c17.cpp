// C17: ODE trajectories are complete, consistent and restartable anywhere.
#include "words.h"
namespace sim {
const char* PROPERTY = "C17"; const char* VARIANT = "default";
enum { K_SOLVE, K_STEPS, K_EVALS, K_SHORT, K_RESTART, K_SEGMENTS, K_CRASH, K_CUSTOM, K_INVALID, K_ADAMS, K_DEFAULT, K_LONG, K_NEST };
const char* CTR_NAMES[] = { "solutions", "steps_checked", "derivative_evaluations", "shortened_last_steps", "restarts_from_a_recorded_point", "solutions_in_segments", "crashes_in_the_derivative", "user_steppers", "invalid_arguments", "multistep_steps", "default_step_sizes", "long_trajectories", "nested_solutions", nullptr };
}
using namespace sim;
typedef long double LD;

struct Crash { int k; };
// the system of equations
struct Sys {
	double a, b, c, w; unsigned n; std::vector<double> times; long crash_at = 0;
	template<typename F> F rhs(unsigned i, F t, const F* x) const { return (F) a * std::sin(t * (F) w + (F) i) - (F) b * x[i] + (F) c * std::sin(x[(i + 1) % n] + (F) 0.5 * x[i]); }
	template<typename F> void eval(F t, const F* x, F* out) const { for(unsigned i = 0; i < n; ++i) out[i] = rhs<F>(i, t, x); }
};
template<typename V> struct Acc { static double get(const V& v, unsigned i) { return v[i]; } static V make(unsigned n, const double* d); static unsigned size(const V& v) { return (unsigned) v.size(); } };
template<> vec<real> Acc<vec<real>>::make(unsigned n, const double* d) { vec<real> v(n); for(unsigned i = 0; i < n; ++i) v[i] = d[i]; return v; }
template<> vec2 Acc<vec2>::make(unsigned, const double* d) { return vec2({ d[0], d[1] }); }
template<> vec3 Acc<vec3>::make(unsigned, const double* d) { return vec3({ d[0], d[1], d[2] }); }
template<> struct Acc<real> { static double get(const real& v, unsigned) { return v; } static real make(unsigned, const double* d) { return d[0]; } static unsigned size(const real&) { return 1; } };

template<typename V> static V deriv(Sys& s, double t, const V& x) {
	Unwatched u; int e = errno; double in[8], out[8]; if(Acc<V>::size(x) != s.n) VIOL("wrong-dimension", "the derivative was evaluated at a vector of %u variables instead of %u", Acc<V>::size(x), s.n);
	s.times.push_back(t); count(K_EVALS);
	if(s.crash_at && --s.crash_at == 0) { count(K_CRASH); throw Crash{ 1 }; }
	for(unsigned i = 0; i < s.n; ++i) in[i] = Acc<V>::get(x, i);
	s.eval<double>(t, in, out); errno = e;
	return Acc<V>::make(s.n, out);
}
// documented single steps, in long double
enum { EULER, MIDPOINT, HEUN, RK2, RK4, K38, NMETH };
static const char* MNAME[] = { "euler", "midpoint", "heun", "rk2", "rk4", "k38" };
static void ref_step(const Sys& s, int m, const LD* x, LD t, LD h, LD* out, LD& mag) {
	unsigned n = s.n; LD k1[8], k2[8], k3[8], k4[8], y[8];
	auto at = [&](LD dt, LD c1, LD c2, LD c3, LD* k) { for(unsigned i = 0; i < n; ++i) y[i] = x[i] + h * (c1 ? c1 * k1[i] : 0) + h * (c2 ? c2 * k2[i] : 0) + h * (c3 ? c3 * k3[i] : 0); s.eval<LD>(t + dt * h, y, k); };
	s.eval<LD>(t, x, k1); LD w1 = 0, w2 = 0, w3 = 0, w4 = 0;
	for(unsigned i = 0; i < n; ++i) k2[i] = k3[i] = k4[i] = 0;
	switch(m) {
		case EULER: w1 = 1; break;
		case MIDPOINT: case RK2: at(0.5L, 0.5L, 0, 0, k2); w2 = 1; break;
		case HEUN: at(1, 1, 0, 0, k2); w1 = w2 = 0.5L; break;
		case RK4: at(0.5L, 0.5L, 0, 0, k2); at(0.5L, 0, 0.5L, 0, k3); at(1, 0, 0, 1, k4); w1 = w4 = 1 / 6.0L; w2 = w3 = 1 / 3.0L; break;
		default: at(1 / 3.0L, 1 / 3.0L, 0, 0, k2); at(2 / 3.0L, -1 / 3.0L, 1, 0, k3); at(1, 1, -1, 1, k4); w1 = w4 = 1 / 8.0L; w2 = w3 = 3 / 8.0L;
	}
	mag = 1;
	for(unsigned i = 0; i < n; ++i) { out[i] = x[i] + h * (w1 * k1[i] + w2 * k2[i] + w3 * k3[i] + w4 * k4[i]); mag += fabsl(x[i]) + fabsl(h) * (fabsl(k1[i]) + fabsl(k2[i]) + fabsl(k3[i]) + fabsl(k4[i])); }
}
template<typename V, typename F> static ode::ode_solution_t<V> solve(int m, F f, const V& x0, double t0, double tf, double h, bool dflt) {
	switch(m) {
		case EULER: return dflt ? ode::solve_euler<V>(f, x0, t0, tf) : ode::solve_euler<V>(f, x0, t0, tf, h);
		case MIDPOINT: return dflt ? ode::solve_midpoint<V>(f, x0, t0, tf) : ode::solve_midpoint<V>(f, x0, t0, tf, h);
		case HEUN: return dflt ? ode::solve_heun<V>(f, x0, t0, tf) : ode::solve_heun<V>(f, x0, t0, tf, h);
		case RK2: return dflt ? ode::solve_rk2<V>(f, x0, t0, tf) : ode::solve_rk2<V>(f, x0, t0, tf, h);
		case RK4: return dflt ? ode::solve_rk4<V>(f, x0, t0, tf) : ode::solve_rk4<V>(f, x0, t0, tf, h);
		default: return dflt ? ode::solve_k38<V>(f, x0, t0, tf) : ode::solve_k38<V>(f, x0, t0, tf, h);
	}
}
// every check on one recorded trajectory
template<typename V> static void check(const char* what, const ode::ode_solution_t<V>& s, const Sys& sy, int m, const V& x0, double t0, double tf, double h) {
	size_t N = s.t.size();
	if(N != s.x.size()) VIOL("incomplete", "%s: %zu times and %zu states", what, N, (size_t) s.x.size());
	if(!N) VIOL("incomplete", "%s: an empty trajectory", what);
	for(unsigned i = 0; i < sy.n; ++i) if(!bit_eq(Acc<V>::get(s.x[0], i), Acc<V>::get(x0, i))) VIOL("wrong-start", "%s: the trajectory does not start at the initial state", what);
	if(s.t[0] != t0) VIOL("wrong-start", "%s: the trajectory starts at time %s instead of %s", what, fmt(s.t[0]).c_str(), fmt(t0).c_str());
	if(s.t[N - 1] != tf) VIOL("wrong-end", "%s: the trajectory ends at time %s instead of %s", what, fmt(s.t[N - 1]).c_str(), fmt(tf).c_str());
	double eps = 4e-16 * (std::fabs(t0) + std::fabs(tf));
	LD r = ((LD) tf - t0) / h; LD lo = ceill(r - 1e-6L), hi = ceill(r + 1e-12L); if(lo < 0) lo = 0;
	if(N - 1 < lo || N - 1 > hi) VIOL("wrong-length", "%s: %zu steps of %s from %s to %s", what, N - 1, fmt(h).c_str(), fmt(t0).c_str(), fmt(tf).c_str());
	for(size_t i = 1; i < N; ++i) {
		if(!(s.t[i] > s.t[i - 1])) VIOL("times-not-increasing", "%s: time %zu is %s after %s", what, i, fmt(s.t[i]).c_str(), fmt(s.t[i - 1]).c_str());
		if(i + 1 < N && std::fabs(s.t[i] - (double) ((LD) t0 + (LD) i * h)) > eps * 4 + 1e-9 * h) VIOL("wrong-time", "%s: time %zu is %s instead of %s", what, i, fmt(s.t[i]).c_str(), fmt((double) ((LD) t0 + (LD) i * h)).c_str());
		if(Acc<V>::size(s.x[i]) != sy.n) VIOL("wrong-dimension", "%s: state %zu has %u variables", what, i, Acc<V>::size(s.x[i]));
		if(m < 0) continue;
		LD x[8], y[8], mag; for(unsigned k = 0; k < sy.n; ++k) x[k] = Acc<V>::get(s.x[i - 1], k);
		LD hh = i + 1 < N ? (LD) h : (LD) s.t[i] - s.t[i - 1]; bool either = i + 1 == N && hh != h && fabsl(hh - h) < 1e-7L * h;   // a last step of the whole step size up to the rounding of the times may be made with either
		ref_step(sy, m, x, s.t[i - 1], hh, y, mag); count(K_STEPS); LD y2[8], mag2; if(either) ref_step(sy, m, x, s.t[i - 1], h, y2, mag2);
		LD tol = (1e-12L + 8e-16L * (std::fabs(t0) + std::fabs(tf)) * (1 + sy.w)) * mag;
		for(unsigned k = 0; k < sy.n; ++k) if(!near(Acc<V>::get(s.x[i], k), y[k], tol) && !(either && near(Acc<V>::get(s.x[i], k), y2[k], tol))) VIOL("not-a-step", "%s: state %zu (time %s, step %s) is not one step of the state before it: variable %u is %s instead of %s", what, i, fmt(s.t[i - 1]).c_str(), fmt((double) hh).c_str(), k, fmt(Acc<V>::get(s.x[i], k)).c_str(), fmt((double) y[k]).c_str());
	}
	// evaluation times: those of step i lie in [t[i-1], t[i]]
	size_t st = 0; double sl = eps * 4 + 1e-7 * h;
	for(double t : sy.times) {
		while(st + 2 < N && t > s.t[st + 1] + sl) st++;
		if(!(t >= s.t[st] - sl && (N == 1 || t <= s.t[st + 1] + sl))) VIOL("evaluated-outside-step", "%s: the derivative was evaluated at time %s, outside the step from %s to %s", what, fmt(t).c_str(), fmt(s.t[st]).c_str(), fmt(N == 1 ? s.t[0] : s.t[st + 1]).c_str());
	}
}
struct Prob { double t0, tf, h; unsigned n; double x0[8]; int m; bool dflt; };
static void setup(OpCall& c, Sys& s, Prob& p, unsigned n, bool dynamic) {
	Rng& g = c.g; s.n = p.n = dynamic ? (unsigned) g.range(1, 5) : n;
	s.a = g.real(-1, 1); s.b = g.real(0.05, 1); s.c = g.chance(0.3) ? 0 : g.real(-0.7, 0.7); s.w = g.chance(0.3) ? 0 : g.real(0.2, 3);
	p.m = (int) g.below(NMETH); p.dflt = g.chance(0.07);
	static const double hs[] = { 0.1, 0.25, 0.01, 0.3, 0.5, 1.0 / 3, 0.07 };
	p.h = g.chance(0.6) ? hs[g.below(7)] : g.real(0.005, 0.6); if(p.dflt) p.h = p.m == RK4 ? 0.01 : 0.0001;
	p.t0 = g.chance(0.4) ? 0 : g.real(-4, 4); if(p.h >= 0.01 && g.chance(0.05)) p.t0 = 1e4;
	unsigned k = (unsigned) g.below((uint64_t) c.l.num("n", 12) + 1); if(k > 80) count(K_LONG);
	double frac = 0; if(g.chance(0.5)) { frac = g.chance(0.2) ? (g.chance(0.5) ? 0.001 : 0.999) : g.real(0.02, 0.98); count(K_SHORT); }
	if(g.chance(0.3)) { p.tf = p.t0; for(unsigned i = 0; i < k; ++i) p.tf += p.h; p.tf += frac * p.h; } else p.tf = p.t0 + (k + frac) * p.h;
	for(unsigned i = 0; i < s.n; ++i) p.x0[i] = g.chance(0.1) ? 0 : g.real(-2, 2);
	count(K_SOLVE); if(p.dflt) count(K_DEFAULT);
}
template<typename V> static void op_solve_t(OpCall& c, unsigned n, bool dyn) {
	Sys* sy; Prob p; bool nest; { Unwatched u; sy = new Sys; setup(c, *sy, p, n, dyn); nest = c.g.chance(0.1); }
	V x0 = Acc<V>::make(p.n, p.x0); V keep = x0; Sys* syp = sy; unsigned calls = 0;
	auto f = [syp, nest, &calls](real t, const V& x) { if(nest && ++calls == 3) { { Unwatched u; count(K_NEST); } auto q = ode::solve_euler<real>([](real t, const real& y) { return -y; }, 1.0, 0, 0.3, 0.1); (void) q; } return deriv<V>(*syp, t, x); };
	int crash = (int) c.l.num("at", 0); const char* name = MNAME[p.m]; errno = 0;
	if(crash) {      // the process dies in the middle: nothing survives, start again
		{ Unwatched u; sy->crash_at = crash; }
		bool threw = false; try { auto s = solve<V>(p.m, f, x0, p.t0, p.tf, p.h, p.dflt); } catch(const Crash&) { threw = true; }
		Unwatched u; if(!threw && sy->crash_at == 0) VIOL("exception-lost", "%s swallowed an exception of the derivative", name);
		sy->crash_at = 0; sy->times.clear();
	}
	auto s = solve<V>(p.m, f, x0, p.t0, p.tf, p.h, p.dflt);
	{ Unwatched u; if(errno) VIOL("spurious-error", "%s set errno %d", name, errno); check<V>(name, s, *sy, p.m, x0, p.t0, p.tf, p.h); if(dig(x0) != dig(keep)) VIOL("input-changed", "%s changed the initial state", name); c.result = dig(s.t, s.x); }
	size_t N = s.t.size();
	if(N > 2 && c.g.chance(0.6)) {     // only point k survives
		size_t k = 1 + c.g.below(N - 2); { Unwatched u; count(K_RESTART); sy->times.clear(); }
		auto r = solve<V>(p.m, f, s.x[k], s.t[k], p.tf, p.h, p.dflt);
		Unwatched u; check<V>("restarted", r, *sy, p.m, s.x[k], s.t[k], p.tf, p.h);
		if(r.t.size() != N - k) VIOL("restart-differs", "%s restarted from point %zu of %zu gives %zu points instead of %zu", name, k, N, r.t.size(), N - k);
		for(size_t i = 0; i < r.t.size(); ++i) { double tt = 1e-12 * (1 + std::fabs(p.tf)) + 1e-9 * p.h; if(std::fabs(r.t[i] - s.t[i + k]) > tt) VIOL("restart-differs", "%s restarted from point %zu: time %zu is %s instead of %s", name, k, i, fmt(r.t[i]).c_str(), fmt(s.t[i + k]).c_str());
			for(unsigned q = 0; q < p.n; ++q) { double A = Acc<V>::get(r.x[i], q), B = Acc<V>::get(s.x[i + k], q); if(!near(A, B, (1e-9 + 1e-14 * std::fabs(p.tf)) * std::exp(2 * (p.tf - s.t[k] > 8 ? 8 : p.tf - s.t[k])) * (1 + std::fabs(B)))) VIOL("restart-differs", "%s restarted from point %zu: state %zu is %s instead of %s", name, k, i, fmt(A).c_str(), fmt(B).c_str()); } }
	}
	if(N > 3 && c.g.chance(0.3)) {     // checkpoint in the middle of the interval
		size_t k = 1 + c.g.below(N - 3); { Unwatched u; count(K_SEGMENTS); sy->times.clear(); }
		auto r = solve<V>(p.m, f, x0, p.t0, s.t[k], p.h, p.dflt);
		Unwatched u; check<V>("segment", r, *sy, p.m, x0, p.t0, s.t[k], p.h);
		if(r.t.size() != k + 1) VIOL("restart-differs", "%s up to point %zu gives %zu points", name, k, r.t.size());
		for(size_t i = 0; i <= k; ++i) for(unsigned q = 0; q < p.n; ++q) if(!near(Acc<V>::get(r.x[i], q), Acc<V>::get(s.x[i], q), (1e-10 + 1e-13 * std::fabs(p.tf)) * (1 + std::fabs(Acc<V>::get(s.x[i], q))))) VIOL("restart-differs", "%s up to point %zu: state %zu differs from the longer solution", name, k, i);
	}
	Unwatched u; delete sy;
}
static void op_dyn(OpCall& c) { op_solve_t<vec<real>>(c, 0, true); }
static void op_v2(OpCall& c) { op_solve_t<vec2>(c, 2, false); }
static void op_v3(OpCall& c) { op_solve_t<vec3>(c, 3, false); }
static void op_real(OpCall& c) { op_solve_t<real>(c, 1, false); }
// any stepper handed to solve_fixstep
static void op_fixstep(OpCall& c) {
	typedef vec<real> V; Sys* sy; Prob p; { Unwatched u; sy = new Sys; setup(c, *sy, p, 0, true); count(K_CUSTOM); }
	struct Call { V x; double t, h; }; std::vector<Call>* log; { Unwatched u; log = new std::vector<Call>; }
	V x0 = Acc<V>::make(p.n, p.x0); Sys* syp = sy; if(p.dflt) p.h = 0.001;
	if(p.dflt && (p.tf - p.t0) / p.h > 400) p.tf = p.t0 + 0.2; 
	ode::ode_function<V> f = [syp](real t, const V& x) { return deriv<V>(*syp, t, x); };
	auto st = [log](ode::ode_function<V> f, const V& x, real t, real h) { { Unwatched u; log->push_back(Call{ x, t, h }); } return ode::step_rk2<V>(f, x, t, h); };
	auto s = p.dflt ? ode::solve_fixstep<V>(f, x0, p.t0, p.tf, st) : ode::solve_fixstep<V>(f, x0, p.t0, p.tf, st, p.h);
	Unwatched u; check<V>("fixstep", s, *sy, RK2, x0, p.t0, p.tf, p.h);
	size_t N = s.t.size(); if(log->size() != N - 1) VIOL("wrong-length", "fixstep called the stepper %zu times for %zu points", log->size(), N);
	for(size_t i = 0; i + 1 < N; ++i) { Call& k = (*log)[i]; if(dig(k.x) != dig(s.x[i]) || !bit_eq(k.t, s.t[i])) VIOL("not-a-step", "fixstep: step %zu did not start from the recorded point", i);
		if(i + 2 < N ? k.h != p.h : std::fabs(k.t + k.h - p.tf) > 1e-8 * p.h + 4e-16 * std::fabs(p.tf)) VIOL("not-a-step", "fixstep: step %zu has length %s", i, fmt(k.h).c_str()); }
	c.result = dig(s.t, s.x); delete log; delete sy;
}
static void op_invalid(OpCall& c) {
	Sys* sy; Prob p; { Unwatched u; sy = new Sys; setup(c, *sy, p, 2, false); count(K_INVALID); }
	vec2 x0 = Acc<vec2>::make(2, p.x0); Sys* syp = sy; auto f = [syp](real t, const vec2& x) { return deriv<vec2>(*syp, t, x); };
	int kind = (int) c.g.below(4); double t0 = 1, tf = 2, h = 0.1;
	if(kind == 0) tf = 1 - c.g.real(0.01, 3); else if(kind == 1) h = 0; else if(kind == 2) h = -c.g.real(0.01, 1); else h = NAN;
	errno = 0; auto s = solve<vec2>(p.m, f, x0, t0, tf, h, false);
	Unwatched u; bool nan_t = s.t.size() > 0; for(size_t i = 0; i < s.t.size(); ++i) if(s.t[i] == s.t[i]) nan_t = false;
	if(!errno) VIOL("silent-failure", "%s from %s to %s with step %s reported no error", MNAME[p.m], fmt(t0).c_str(), fmt(tf).c_str(), fmt(h).c_str());
	if(!nan_t) VIOL("silent-failure", "%s with invalid arguments returned a trajectory of %zu points", MNAME[p.m], s.t.size());
	delete sy;
}
static void op_adams(OpCall& c) {
	typedef vec<real> V; Sys* sy; Prob p; { Unwatched u; sy = new Sys; setup(c, *sy, p, 0, true); count(K_ADAMS); }
	double xa[8], xb[8], xc[8]; { Unwatched u; for(unsigned i = 0; i < p.n; ++i) { xa[i] = c.g.real(-2, 2); xb[i] = c.g.real(-2, 2); xc[i] = c.g.real(-2, 2); } }
	V A = Acc<V>::make(p.n, xa), B = Acc<V>::make(p.n, xb), C = Acc<V>::make(p.n, xc); Sys* syp = sy; auto f = [syp](real t, const V& x) { return deriv<V>(*syp, t, x); };
	double t = p.t0, h = p.h; bool two = c.g.chance(0.5);
	V r = two ? ode::step_adams2<V>(f, A, t, B, t + h, h) : ode::step_adams3<V>(f, A, t, B, t + h, C, t + 2 * h, h);
	Unwatched u; LD a[8], b[8], d[8], fa[8], fb[8], fc[8]; for(unsigned i = 0; i < p.n; ++i) { a[i] = xa[i]; b[i] = xb[i]; d[i] = xc[i]; }
	sy->eval<LD>(t, a, fa); sy->eval<LD>((double) (t + h), b, fb); sy->eval<LD>((double) (t + 2 * h), d, fc);
	for(unsigned i = 0; i < p.n; ++i) {
		LD want = two ? b[i] + h * (1.5L * fb[i] - 0.5L * fa[i]) : d[i] + h * (23 / 12.0L * fc[i] - 4 / 3.0L * fb[i] + 5 / 12.0L * fa[i]);
		if(!near(r[i], want, 1e-11L * (1 + 1e-4 * std::fabs(t)) * (5 + fabsl(want)))) VIOL("not-a-step", "step_adams%d: variable %u is %s instead of %s", two ? 2 : 3, i, fmt(r[i]).c_str(), fmt((double) want).c_str());
	}
	c.result = dig(r); delete sy;
}
static void gen_s(Rng& g, Line& l, bool th) { l.set("n", g.chance(0.06) ? g.range(60, th ? 600 : 200) : g.chance(0.003) ? g.range(600, 3000) : g.range(0, 15)); if(g.chance(0.25)) l.set("at", g.range(1, 40)); }
const OpDef OPS[] = { { "dynamic", op_dyn, gen_s, 4 }, { "two", op_v2, gen_s, 2 }, { "three", op_v3, gen_s, 2 }, { "real", op_real, gen_s, 2 }, { "fixstep", op_fixstep, gen_s, 2 }, { "invalid", op_invalid, nullptr, 1 }, { "adams", op_adams, nullptr, 2 } };
const unsigned NOPS = sizeof OPS / sizeof OPS[0];
const OpsConfig OPSCFG = { 3, 4, 0.3, 80000000 };
OPS_HARNESS
