// C07: accept-reject and Metropolis samplers obey their acceptance rule.
// The words are scripted; the walk is recomputed from them with the same
// densities. Uniform draws are interpreted by the library's own rand_uniform
// (decided by C05) fed with the recorded word.
#include "theoretica.h"
#include "words.h"
namespace sim {
const char* PROPERTY = "C07"; const char* VARIANT = "default";
enum { K_CALLS, K_FAULTY, K_REJECT, K_EXHAUST, K_NONFIN, K_TIES, K_ZERO, K_STEPS, K_SHARED, K_QNAN };
const char* CTR_NAMES[] = { "sampler_calls", "faulty_words_consumed", "proposals_rejected", "limits_exhausted", "non_finite_density_values", "ties_decided", "zero_density_proposals", "metropolis_steps", "shared_generator_walks", "undefined_quantiles", nullptr };
}
using namespace sim;

static uint64_t one_word(uint64_t, std::vector<uint64_t>& p) { return p[0]; }
static double uni(double a, double b, uint64_t w) { PRNG p(one_word, 0, { w }); return rand_uniform(a, b, p); }

struct KeepErrno { int e = errno; ~KeepErrno() { errno = e; } };
// a density: a function of x only, sometimes hostile
struct Dens {
	int kind; double c, s, h; uint64_t salt; double per; int hostile;
	Dens(Rng& g) {
		kind = (int) g.below(8); c = g.real(-1, 1); s = g.chance(0.3) ? 1 : g.real(0.2, 2); h = g.chance(0.4) ? 1 : g.real(0.05, 3);
		salt = g.next(); per = g.chance(0.3) ? 0.05 : 0.4; hostile = g.chance(0.4) ? 1 + (int) g.below(3) : 0;
	}
	double operator()(double x) const {
		KeepErrno ke;
		if(hostile && x == x) {
			uint64_t k = (uint64_t) (int64_t) std::floor(std::max(-1e9, std::min(1e9, x * 6))) ^ salt;
			Rng r(k); if(r.chance(per)) { count(K_NONFIN); return hostile == 1 ? NAN : hostile == 2 ? INFINITY : r.chance(0.5) ? NAN : 0.0; }
		}
		double d = (x - c) / s;
		switch(kind) {
			case 0: return h;                                        // constant
			case 1: return std::fabs(d) < 1 ? h : 0;                 // box
			case 2: return h * std::exp(-d * d);
			case 3: return std::fabs(d) < 1 ? h * (1 - std::fabs(d)) : 0;
			case 4: return x < c ? 0 : h * std::exp(-d);
			case 5: return std::fabs(d) < 0.5 ? h : std::fabs(d) < 1 ? h * 0.5 : 0;
			case 6: return 0;
			default: return x == x ? 1e-300 + (std::fabs(d) < 0.3 ? h : 0) : NAN;
		}
	}
};
struct Setup {
	OpCall& c; Words* w; PRNG* p; Dens* f;
	std::vector<double>* theta; bool theta_ok = true; uint64_t evals = 0;
	Setup(OpCall& c) : c(c) { Unwatched u; w = new Words(c.l.u64("seed"), c.l.str("w", "h")); f = new Dens(c.g); p = new PRNG(words_prng(*w)); theta = new std::vector<double>; for(uint64_t i = c.g.below(4); i; --i) theta->push_back(c.g.real(-1, 1)); count(K_CALLS); errno = 0; }
	~Setup() { Unwatched u; count(K_FAULTY, w->faulty); delete f; delete p; delete w; delete theta; }
	stat_function sf() { return [this](real x, const vec<real>& th) { Unwatched u; evals++; if(th.size() != theta->size()) theta_ok = false; else for(size_t i = 0; i < th.size(); ++i) if(!bit_eq(th[i], (*theta)[i])) theta_ok = false; return (*f)(x); }; }
	vec<real> tv() { vec<real> v(theta->size()); for(size_t i = 0; i < v.size(); ++i) v[i] = (*theta)[i]; return v; }
};
static unsigned pick_limit(Rng& g, bool& dflt) { static const unsigned ls[] = { 0, 1, 2, 3, 5, 20, 100 }; dflt = g.chance(0.35); return g.chance(0.01) ? (unsigned) g.range(101, 3000) : ls[g.below(7)]; }

static void finish(Setup& s, const char* what, double res, bool accepted, double want, size_t words, unsigned tries, unsigned limit) {
	if(s.w->log.size() != words) VIOL("words", "%s with a limit of %u consumed %zu words instead of %zu", what, limit, s.w->log.size(), words);
	if(!s.theta_ok) VIOL("wrong-parameters", "%s passed other parameters to the density", what);
	if(accepted) {
		count(K_REJECT, tries - 1);
		if(!bit_eq(res, want)) VIOL("not-the-accepted-point", "%s returned %s, the proposal accepted (try %u) was %s", what, fmt(res).c_str(), tries, fmt(want).c_str());
		if(errno != 0) VIOL("spurious-error", "%s accepted a point and set errno %d", what, errno);
	} else {
		count(K_EXHAUST); count(K_REJECT, limit);
		if(res == res) VIOL("accepted-without-condition", "%s returned %s though none of its %u proposals satisfied the acceptance condition", what, fmt(res).c_str(), limit);
		if(errno == 0) VIOL("silent-failure", "%s failed after %u tries without setting errno", what, limit);
	}
	s.c.result = dig(res);
}
static void op_trycatch(OpCall& c) {
	Setup s(c); double x1, x2, y1, y2; bool d; unsigned lim;
	{ Unwatched u; x1 = c.g.real(-3, 1); x2 = x1 + c.g.real(0.1, 4); y1 = c.g.chance(0.6) ? 0 : c.g.real(-0.5, 0.5); y2 = y1 + (c.g.chance(0.4) ? 1 : c.g.real(0.1, 4)); lim = pick_limit(c.g, d); }
	vec<real> th = s.tv(); stat_function f = s.sf();
	double r = d ? rand_trycatch(f, th, x1, x2, y1, y2, *s.p) : rand_trycatch(f, th, x1, x2, y1, y2, *s.p, lim);
	Unwatched u; if(d) lim = STATISTICS_TRYANDCATCH_ITER;
	auto& L = s.w->log; bool acc = false; double want = 0; unsigned i = 0;
	for(; i < lim && 2 * i + 1 < L.size() && !acc; ++i) {
		double x = uni(x1, x2, L[2 * i]), y = uni(y1, y2, L[2 * i + 1]), v = (*s.f)(x);
		if(y == v) count(K_TIES); if(v == 0) count(K_ZERO);
		if(y <= v) { acc = true; want = x; }
	}
	finish(s, "rand_trycatch", r, acc, want, acc ? 2 * i : 2 * (size_t) lim, i, lim);
}
static void op_reject(OpCall& c) {
	Setup s(c); bool d; unsigned lim; double a, b, h; int pk, qh;
	{ Unwatched u; a = c.g.real(-2, 0); b = a + c.g.real(0.2, 3); h = c.g.chance(0.5) ? 1 : c.g.real(0.1, 3); pk = (int) c.g.below(4); lim = pick_limit(c.g, d); qh = c.g.chance(0.3) ? 1 + (int) c.g.below(4) : 0; }
	auto P = [a, b, h, pk](double x) { KeepErrno ke; return pk == 0 ? h : pk == 1 ? h / (b - a) : pk == 2 ? (x < (a + b) / 2 ? h : 0.0) : h * std::exp(-x); };
	auto Q = [a, b, h, pk, qh](double t) { KeepErrno ke; if(qh == 1 || (qh == 2 && (t == 0 || t == 1)) || (qh == 3 && t > 0.5) || (qh == 4 && (uint64_t) (t * 4096) % 2)) { count(K_QNAN); return (double) NAN; } return pk == 3 ? -std::log(1 - t) : a + (b - a) * t; };
	vec<real> th = s.tv(); stat_function f = s.sf(); real_function p = [&](real x) { Unwatched u; return P(x); }, q = [&](real t) { Unwatched u; return Q(t); };
	double r = d ? rand_rejectsamp(f, th, p, q, *s.p) : rand_rejectsamp(f, th, p, q, *s.p, lim);
	Unwatched u; if(d) lim = 100;
	auto& L = s.w->log; bool acc = false; double want = 0; unsigned i = 0;
	for(; i < lim && 2 * i + 1 < L.size() && !acc; ++i) {
		double x = Q(uni(0, 1, L[2 * i])), u2 = uni(0, 1, L[2 * i + 1]), v = (*s.f)(x), pv = P(x);
		if(u2 * pv == v) count(K_TIES); if(v == 0) count(K_ZERO);
		if(u2 * pv < v) { acc = true; want = x; }
	}
	finish(s, "rand_rejectsamp", r, acc, want, acc ? 2 * i : 2 * (size_t) lim, i, lim);
}
// proposal samplers: log what they propose
static thread_local std::vector<double>* props;
static real prop_uniform(const std::vector<real>& th, PRNG& g) { double v = rand_uniform(th[0], th[1], g); Unwatched u; props->push_back(v); return v; }
static real prop_two(const std::vector<real>& th, PRNG& g) { double v = rand_uniform(th[0], th[1], g) + rand_uniform(th[0], th[1], g); Unwatched u; props->push_back(v); return v; }
static real prop_const(const std::vector<real>& th, PRNG& g) { Unwatched u; props->push_back(th[1]); return th[1]; }
static void op_metropolis(OpCall& c) {
	Setup s(c); bool d, shared; unsigned depth; double st, x0; int pk; Words* w2; std::vector<double>* pl;
	{
		Unwatched u; st = c.g.chance(0.2) ? c.g.real(2, 6) : c.g.real(0.05, 1.5); depth = pick_limit(c.g, d); shared = c.g.chance(0.5); pk = (int) c.g.below(5) % 3;
		x0 = c.g.real(-2, 2); for(int i = 0; i < 60 && !((*s.f)(x0) > 0); ++i) x0 = c.g.real(-3, 3);
		w2 = new Words(c.l.u64("seed") ^ 77, c.l.str("w2", "h")); pl = new std::vector<double>; props = pl;
	}
	PRNG p2 = words_prng(*w2);
	pdf_sampler ps(pk == 0 ? prop_uniform : pk == 1 ? prop_two : prop_const, { -st, st }, p2);
	real_function f = [&](real x) { Unwatched u; return (*s.f)(x); };
	double r = shared ? (d ? metropolis(f, ps, x0) : metropolis(f, ps, x0, depth)) : (d ? metropolis(f, ps, x0, *s.p) : metropolis(f, ps, x0, *s.p, depth));
	Unwatched u; if(d) depth = STATISTICS_METROPOLIS_DEPTH; const char* what = "metropolis"; count(K_STEPS, depth); if(shared) count(K_SHARED);
	if(pl->size() != depth) VIOL("steps", "%s asked for %u steps drew %zu proposals", what, depth, pl->size());
	unsigned per = pk == 2 ? 0 : pk + 1;          // words per proposal
	size_t w1n = shared ? 0 : depth, w2n = (size_t) depth * (per + (shared ? 1 : 0));
	if(s.w->log.size() != w1n || w2->log.size() != w2n) VIOL("words", "%s of %u steps consumed %zu uniform words and %zu words of the proposal generator instead of %zu and %zu", what, depth, s.w->log.size(), w2->log.size(), w1n, w2n);
	double cur = x0, dc = (*s.f)(x0); bool sane = dc > 1e-290 && dc < 1e290;
	for(unsigned i = 0; i < depth; ++i) {
		double nx = cur + (*pl)[i], u0 = uni(0, 1, shared ? w2->log[(size_t) i * (per + 1) + per] : s.w->log[i]), dn = (*s.f)(nx);
		if(dn == 0) count(K_ZERO); if((1 - u0) * dc == dn) count(K_TIES);
		if((1 - u0) * dc <= dn) { cur = nx; dc = dn; } else count(K_REJECT);
		if(sane && !(dc > 0)) harness_error("oracle left the support");
		if(!(dc > 1e-290)) sane = false;
	}
	double fr = (*s.f)(r);
	if(sane && (*s.f)(x0) > 0 && !(fr > 0)) VIOL("left-the-support", "%s started at %s (density %s) and ended at %s (density %s)", what, fmt(x0).c_str(), fmt((*s.f)(x0)).c_str(), fmt(r).c_str(), fmt(fr).c_str());
	if(!bit_eq(r, cur)) VIOL("wrong-walk", "%s of %u steps from %s ended at %s, the acceptance rule leads to %s", what, depth, fmt(x0).c_str(), fmt(r).c_str(), fmt(cur).c_str());
	if(errno != 0) VIOL("spurious-error", "%s set errno %d", what, errno);
	count(K_FAULTY, w2->faulty); c.result = dig(r); props = nullptr; delete pl; delete w2;
}
static void gen_w(Rng& g, Line& l, bool) { l.set("w", words_gen(g, false)); }
static void gen_w2(Rng& g, Line& l, bool) { l.set("w", words_gen(g, false)); l.set("w2", words_gen(g, false)); }
const OpDef OPS[] = { { "trycatch", op_trycatch, gen_w, 3 }, { "rejectsamp", op_reject, gen_w, 3 }, { "metropolis", op_metropolis, gen_w2, 4 } };
const unsigned NOPS = sizeof OPS / sizeof OPS[0];
const OpsConfig OPSCFG = { 3, 5, 0.3, 80000000 };
OPS_HARNESS
