// C05: samplers stay in their support for any stream of random words.
#include "words.h"
namespace sim {
const char* PROPERTY = "C05"; const char* VARIANT = "default";
enum { K_CALLS, K_FAULTY_WORDS, K_ERR, K_NONFINITE, K_HEALTHY_AFTER, K_BADPARAM, K_REJECT };
const char* CTR_NAMES[] = { "sampler_calls", "faulty_words_consumed", "errors_reported", "not_a_number_results", "healthy_calls_after_faults", "invalid_parameters", "rejected_pairs", nullptr };
}
using namespace sim;
typedef long double LD;

// One call: returns the sample; `want` is the documented transform of the words
// (NaN: no prediction), [lo, hi] the support, `maxw` the bound on words.
struct Spec { LD want; LD rel; double lo, hi; size_t minw, maxw; bool predict; };
static const double INF = std::numeric_limits<double>::infinity();

template<typename Call> static double sample(OpCall& c, Words& w, PRNG& p, const char* what, Call f, size_t& n0, int& err) {
	{ Unwatched u; n0 = w.log.size(); count(K_CALLS); }
	errno = 0;
	double x = f(p);
	err = errno;
	return x;
}
static void judge(OpCall& c, Words& w, const char* what, double x, int err, size_t n0, unsigned f0, const Spec& s) {
	Unwatched u;
	size_t used = w.log.size() - n0;
	count(K_FAULTY_WORDS, w.faulty - f0);
	if(err) count(K_ERR);
	if(used > s.maxw || used < s.minw) VIOL("words-consumed", "%s consumed %zu words (allowed %zu to %zu)", what, used, s.minw, s.maxw);
	if(x != x) {
		count(K_NONFINITE);
		if(!err) VIOL("silent-nan", "%s returned not-a-number without an error", what);
		// only a rejection method may give up, and only after a full budget of words
		if(s.predict) VIOL("gave-up", "%s failed although its %zu words give an ordinary sample (%s)", what, used, fmt((double) s.want).c_str());
		return;
	}
	if(std::isinf(x)) VIOL("not-finite", "%s returned %s", what, fmt(x).c_str());
	double m = 1e-9 * (std::fabs(s.lo) < 1e300 ? std::fabs(s.lo) : 0) + 1e-9 * (std::fabs(s.hi) < 1e300 ? std::fabs(s.hi) : 0) + 1e-300;
	if(x < s.lo - m || x > s.hi + m) VIOL("outside-support", "%s returned %s outside [%s, %s]", what, fmt(x).c_str(), fmt(s.lo).c_str(), fmt(s.hi).c_str());
	if(s.predict && !near(x, s.want, s.rel * (1 + std::fabs((double) s.want)))) VIOL("wrong-transform", "%s returned %s, the words it consumed give %s", what, fmt(x).c_str(), fmt((double) s.want).c_str());
	if(err) VIOL("error-on-success", "%s returned the number %s and reported error %d", what, fmt(x).c_str(), err);
	if(f0 && w.faulty == f0) count(K_HEALTHY_AFTER);
	c.result = c.result * 31 + dig(x);
}
#define CALL(what, expr, SPEC) { size_t n0; int err; unsigned f0; { Unwatched u; f0 = w.faulty; } \
	double x = sample(c, w, p, what, [&](PRNG& g) { return expr; }, n0, err); \
	Spec s_; { Unwatched u; size_t used = w.log.size() - n0; std::vector<uint64_t> pad(w.log.begin() + n0, w.log.end()); pad.resize(used + 2); const uint64_t* W = pad.data(); (void) W; (void) used; s_ = SPEC; } \
	judge(c, w, what, x, err, n0, f0, s_); }

static void setup(OpCall& c, std::string& ws, unsigned& n) { Unwatched u; ws = c.l.str("w", "h"); n = (unsigned) c.l.num("n", 3); }
#define BEGIN std::string ws; unsigned n; setup(c, ws, n); Words* wp; { Unwatched u; wp = new Words(c.l.u64("seed"), ws); } Words& w = *wp; PRNG p = words_prng(w); for(unsigned i = 0; i < n; ++i)
#define END { Unwatched u; delete wp; }

static Spec sp(LD want, LD rel, double lo, double hi, size_t minw, size_t maxw) { Spec s = { want, rel, lo, hi, minw, maxw, true }; return s; }
static Spec err_spec() { Spec s = { 0, 0, 1, 0, 0, 0, false }; return s; }

// ---- parameters
static double pos(OpCall& c) { static const double v[] = { 1, 0.5, 2, 1e-3, 1e3, 0.1, 7.25, 30 }; return v[c.g.below(8)]; }
static double any(OpCall& c) { static const double v[] = { 0, 1, -1, 5, -17.5, 1e3, -1e3, 0.125, 1e-6 }; return v[c.g.below(9)]; }

static void op_uniform(OpCall& c) {
	BEGIN {
		double a = any(c), b = any(c); if(c.g.chance(0.6) && a > b) std::swap(a, b);
		double lo = a < b ? a : b, hi = a < b ? b : a;
		CALL("rand_uniform", rand_uniform(a, b, g), sp(uniform_of(a, b, W[0]), 1e-12L, lo, hi, 1, 1));
		uint64_t prec; { Unwatched u; static const uint64_t pr[] = { 1, 2, 1000, 1u << 16, 1ull << 31, 1ull << 40, 1ull << 52 }; prec = pr[c.g.below(7)]; }
		CALL("rand_uniform with precision", rand_uniform(a, b, g, prec), sp(a + (LD) (b - a) * ((LD) (W[0] % prec) / prec), 1e-12L, lo, hi, 1, 1));
		std::vector<real> th = { a, b };
		CALL("rand_uniform from parameters", rand_uniform(th, g), sp(uniform_of(a, b, W[0]), 1e-12L, lo, hi, 1, 1));
		pdf_sampler ps = pdf_sampler::uniform(a, b, p);
		CALL("uniform sampler", ps(), sp(uniform_of(a, b, W[0]), 1e-12L, lo, hi, 1, 1));
	} END
}
static void op_coin(OpCall& c) {
	BEGIN {
		CALL("rand_cointoss", rand_cointoss(g), sp(W[0] % 2 ? -1 : 1, 0, -1, 1, 1, 1));
		std::vector<real> th = { 1.0 };
		CALL("rand_cointoss from parameters", rand_cointoss(th, g), sp(W[0] % 2 ? -1 : 1, 0, -1, 1, 1, 1));
	} END
}
static void op_dice(OpCall& c) {
	BEGIN {
		static const unsigned fs[] = { 1, 2, 3, 6, 7, 20, 100, 65536, 4294967295u };
		unsigned f = fs[c.g.below(9)];
		CALL("rand_diceroll", rand_diceroll(f, g), sp(W[0] % f + 1, 0, 1, f, 1, 1));
		std::vector<real> th = { (double) f };
		CALL("rand_diceroll from parameters", rand_diceroll(th, g), sp(W[0] % f + 1, 0, 1, f, 1, 1));
	} END
}
static Spec polar(double mean, double sigma, const uint64_t* W, size_t used) {
	Spec s; s.lo = -INF; s.hi = INF; s.minw = 2; s.maxw = 20000; s.predict = false; s.rel = 1e-9L; s.want = 0;
	if(used % 2) VIOL("words-consumed", "the polar method consumed an odd number of words");
	for(size_t i = 0; i + 1 < used; i += 2) {
		double x = uniform_of(-1, 1, W[i]), y = uniform_of(-1, 1, W[i + 1]);
		double r = x * x + y * y;
		bool ok = !(r >= 1 || r <= MACH_EPSILON);
		if(ok && i + 2 < used) VIOL("skipped-sample", "the polar method passed over an acceptable point");
		if(!ok) count(K_REJECT);
		if(ok) { LD R = (LD) r; s.predict = true; s.want = mean + (LD) sigma * x * sqrtl(-2 * logl(R) / R); s.rel = 1e-6L * (1 + fabsl(sigma)); }
	}
	if(!s.predict && used < 40) VIOL("gave-up", "the polar method stopped after only %zu words without a sample", used);
	if(!s.predict) { s.lo = 1; s.hi = 0; }
	return s;
}
static void op_gauss(OpCall& c) {
	BEGIN {
		double m = any(c), sg = pos(c);
		CALL("rand_gaussian", rand_gaussian(m, sg, g), polar(m, sg, W, used));
		CALL("rand_gaussian_polar", rand_gaussian_polar(m, sg, g), polar(m, sg, W, used));
		std::vector<real> th = { m, sg };
		CALL("rand_gaussian from parameters", rand_gaussian(th, g), polar(m, sg, W, used));
		pdf_sampler ps = pdf_sampler::gaussian(m, sg, p);
		CALL("gaussian sampler", ps.next(), polar(m, sg, W, used));
	} END
}
static Spec boxm(double m, double s, const uint64_t* W) {
	LD x = 1 - (LD) unit_of(W[0]), y = unit_of(W[1]);
	return sp(m + s * sqrtl(-2 * logl(x)) * cosl(6.283185307179586476925286766559L * y), 1e-6L * (1 + s), -INF, INF, 2, 2);
}
static void op_boxm(OpCall& c) {
	BEGIN {
		double m = any(c), sg = pos(c);
		CALL("rand_gaussian_boxmuller", rand_gaussian_boxmuller(m, sg, g), boxm(m, sg, W));
	} END
}
static Spec clt(double m, double s, const uint64_t* W, size_t used, unsigned N) {
	LD sum = 0; for(size_t i = 0; i < used; ++i) sum += uniform_of(-1, 1, W[i]);
	double ext = s * std::sqrt(3.0 * N);
	return sp(m + sum / N * s * sqrtl(3 * (LD) N), 1e-9L * (1 + s), m - ext, m + ext, N, N);
}
static void op_clt(OpCall& c) {
	BEGIN {
		double m = any(c), sg = pos(c); unsigned N = (unsigned) (c.g.chance(0.02) ? c.g.range(31, 2000) : c.g.range(1, 30));
		CALL("rand_gaussian_clt", rand_gaussian_clt(m, sg, g), clt(m, sg, W, used, 12));
		CALL("rand_gaussian_clt with N", rand_gaussian_clt(m, sg, g, N), clt(m, sg, W, used, N));
	} END
}
static void op_exp(OpCall& c) {
	BEGIN {
		double l = pos(c);
		CALL("rand_exponential", rand_exponential(l, g), sp(-logl(1 - (LD) unit_of(W[0])) / l, 1e-8L, 0, INF, 1, 1));
		std::vector<real> th = { l };
		CALL("rand_exponential from parameters", rand_exponential(th, g), sp(-logl(1 - (LD) unit_of(W[0])) / l, 1e-8L, 0, INF, 1, 1));
		pdf_sampler ps = pdf_sampler::exponential(l, p);
		CALL("exponential sampler", ps(), sp(-logl(1 - (LD) unit_of(W[0])) / l, 1e-8L, 0, INF, 1, 1));
	} END
}
static Spec ray(double s, uint64_t w) { return sp(s * sqrtl(-2 * logl(1 - (LD) unit_of(w))), 1e-6L, 0, INF, 1, 1); }
static void op_rayleigh(OpCall& c) {
	BEGIN {
		double s = pos(c);
		CALL("rand_rayleigh", rand_rayleigh(s, g), ray(s, W[0]));
		std::vector<real> th = { s };
		CALL("rand_rayleigh from parameters", rand_rayleigh(th, g), ray(s, W[0]));
		pdf_sampler ps = pdf_sampler::rayleigh(s, p);
		CALL("rayleigh sampler", ps(), ray(s, W[0]));
	} END
}
static Spec cauchy(double mu, double a, uint64_t w) {
	double u = unit_of(w);
	Spec s = sp(a * tanl(3.14159265358979323846264338327950288L * ((LD) u - 0.5L)) + mu, 1e-5L, -INF, INF, 1, 1);
	if(u < 1e-6 || u > 1 - 1e-6) { s.predict = false; s.lo = u < 0.5 ? -INF : 1e3 * a + mu; s.hi = u < 0.5 ? INF : INF; }
	return s;
}
static void op_cauchy(OpCall& c) {
	BEGIN {
		double mu = any(c), a = pos(c);
		CALL("rand_cauchy", rand_cauchy(mu, a, g), cauchy(mu, a, W[0]));
		std::vector<real> th = { mu, a };
		CALL("rand_cauchy from parameters", rand_cauchy(th, g), cauchy(mu, a, W[0]));
		pdf_sampler ps = pdf_sampler::cauchy(mu, a, p);
		CALL("cauchy sampler", ps(), cauchy(mu, a, W[0]));
	} END
}
static Spec lapl(double mu, double b, const uint64_t* W) {
	LD u = unit_of(W[0]); LD r = mu - b * (LD) (W[1] % 2 ? -1 : 1) * logl(1 - u);
	return sp(r, 1e-7L, -INF, INF, 2, 2);
}
static void op_laplace(OpCall& c) {
	BEGIN {
		double mu = any(c), b = pos(c);
		CALL("rand_laplace", rand_laplace(mu, b, g), lapl(mu, b, W));
		std::vector<real> th = { mu, b };
		CALL("rand_laplace from parameters", rand_laplace(th, g), lapl(mu, b, W));
		pdf_sampler ps = pdf_sampler::laplace(mu, b, p);
		CALL("laplace sampler", ps(), lapl(mu, b, W));
	} END
}
static Spec pare(double xm, double a, uint64_t w) { LD u = unit_of(w); LD r = xm / powl(1 - u, 1 / (LD) a); return sp(r, 1e-6L, xm * (1 - 1e-9), INF, 1, 1); }
static void op_pareto(OpCall& c) {
	BEGIN {
		static const double as[] = { 0.5, 1, 2, 3.5, 10 };
		double xm = pos(c), a = as[c.g.below(5)];
		CALL("rand_pareto", rand_pareto(xm, a, g), pare(xm, a, W[0]));
		std::vector<real> th = { xm, a };
		CALL("rand_pareto from parameters", rand_pareto(th, g), pare(xm, a, W[0]));
		pdf_sampler ps = pdf_sampler::pareto(xm, a, p);
		CALL("pareto sampler", ps(), pare(xm, a, W[0]));
	} END
}
static void op_fill(OpCall& c) {
	std::string ws; unsigned n; setup(c, ws, n);
	Words* wp; { Unwatched u; wp = new Words(c.l.u64("seed"), ws); } Words& w = *wp; PRNG p = words_prng(w);
	double a = any(c), b = any(c);
	unsigned len = 1 + (unsigned) c.g.below(c.g.chance(0.02) ? 1500 : 12), part = (unsigned) c.g.below(len + 1); int how = (int) c.g.below(3);
	pdf_sampler ps = pdf_sampler::uniform(a, b, p);
	vec<real> v; v.resize(len); for(unsigned i = 0; i < len; ++i) v[i] = 777.5;
	errno = 0;
	unsigned filled = len;
	if(how == 0) ps.fill(v);
	else if(how == 1) { ps.fill(v, part); filled = part; }
	else for(unsigned i = 0; i < len; ++i) ps >> v[i];
	Unwatched u;
	count(K_CALLS, filled); count(K_FAULTY_WORDS, w.faulty);
	if(w.log.size() != filled) VIOL("words-consumed", "filling %u elements consumed %zu words", filled, w.log.size());
	for(unsigned i = 0; i < len; ++i) {
		if(i < filled) { if(!near(v[i], uniform_of(a, b, w.log[i]), 1e-9)) VIOL("wrong-transform", "element %u of a filled vector is not the sample of its word", i); }
		else if(v[i] != 777.5) VIOL("touched", "fill changed an element past the requested count");
	}
	delete wp;
}
// wrong number of parameters: refused with an error, no words consumed
static void op_badparam(OpCall& c) {
	std::string ws; unsigned n; setup(c, ws, n);
	Words* wp; { Unwatched u; wp = new Words(c.l.u64("seed"), ws); } Words& w = *wp; PRNG p = words_prng(w);
	typedef double (*F)(const std::vector<real>&, PRNG&);
	static const F fs[] = { rand_uniform, rand_diceroll, rand_gaussian, rand_exponential, rand_rayleigh, rand_cauchy, rand_laplace, rand_pareto };
	static const unsigned arity[] = { 2, 1, 2, 1, 1, 2, 2, 2 };
	static const char* nm[] = { "rand_uniform", "rand_diceroll", "rand_gaussian", "rand_exponential", "rand_rayleigh", "rand_cauchy", "rand_laplace", "rand_pareto" };
	for(unsigned i = 0; i < n; ++i) {
		unsigned k = (unsigned) c.g.below(8), m = (unsigned) c.g.below(5);
		std::vector<real> th; for(unsigned j = 0; j < m; ++j) th.push_back(1 + 0.5 * j);
		const char* what = nm[k]; bool bad = m != arity[k];
		if(!bad && k == 1 && c.g.chance(0.5)) { th[0] = c.g.chance(0.5) ? -3 : 0.25; bad = true; }
		if(!bad && k == 3 && c.g.chance(0.5)) { th[0] = 0; bad = true; }
		size_t n0; { Unwatched u; n0 = w.log.size(); count(K_CALLS); if(bad) count(K_BADPARAM); }
		errno = 0;
		double x = fs[k](th, p);
		int err = errno;
		Unwatched u;
		if(bad && (x == x || !err)) VIOL("not-refused", "%s with invalid parameters returned %s, error %d", what, fmt(x).c_str(), err);
		if(!bad && x != x && !err) VIOL("silent-nan", "%s returned not-a-number without an error", what);
	}
	{ Unwatched u; delete wp; }
}

static void gen_w(Rng& g, Line& l, bool th) { l.set("w", words_gen(g, g.chance(0.7))); l.set("n", (int64_t) g.range(1, th ? 20 : 8)); }
const OpDef OPS[] = {
	{ "uniform", op_uniform, gen_w, 2 }, { "coin", op_coin, gen_w, 1 }, { "dice", op_dice, gen_w, 1 }, { "gauss", op_gauss, gen_w, 4 },
	{ "boxmuller", op_boxm, gen_w, 3 }, { "clt", op_clt, gen_w, 2 }, { "exponential", op_exp, gen_w, 2 }, { "rayleigh", op_rayleigh, gen_w, 2 },
	{ "cauchy", op_cauchy, gen_w, 2 }, { "laplace", op_laplace, gen_w, 2 }, { "pareto", op_pareto, gen_w, 2 }, { "fill", op_fill, gen_w, 2 }, { "badparam", op_badparam, gen_w, 1 },
};
const unsigned NOPS = sizeof OPS / sizeof OPS[0];
const OpsConfig OPSCFG = { 3, 5, 0.3, 60000000 };
OPS_HARNESS
