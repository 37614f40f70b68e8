// C06: Monte Carlo estimates are exactly what their sample history implies.
#include "words.h"
namespace sim {
const char* PROPERTY = "C06"; const char* VARIANT = "default";
enum { K_CALLS, K_EVALS, K_FAULTY, K_NONFIN, K_HITS, K_NEST };
const char* CTR_NAMES[] = { "estimates", "integrand_evaluations", "faulty_words_consumed", "non_finite_integrand_values", "hits_counted", "nested_estimates", nullptr };
}
using namespace sim;
typedef long double LD;

// the integrand: deterministic, logged, sometimes hostile
struct Fun {
	int kind; double k1, k2; uint64_t nseed; unsigned bad_at;   // bad_at: evaluation that yields a non-finite value (0 = none)
	int bad; bool nested;
	std::vector<double> args, vals;      // one entry per evaluation (args: dim values each)
	unsigned dim;
	Rng* rng; 
	double eval(const double* x, unsigned n) {
		double s = 0;
		for(unsigned i = 0; i < n; ++i) s += x[i] * (1 + 0.25 * i);
		double y;
		switch(kind) {
			case 0: y = k1; break;
			case 1: y = k1 * s + k2; break;
			case 2: y = s * s - k2; break;
			case 3: y = s > k1 ? k2 : -k2; break;
			case 4: y = std::sin(7 * s) * k1; break;
			default: y = k1 * std::exp(-s * s);
		}
		args.insert(args.end(), x, x + n);
		if(bad_at && vals.size() + 1 == bad_at) { y = bad == 0 ? NAN : bad == 1 ? INFINITY : -INFINITY; count(K_NONFIN); }
		vals.push_back(y); count(K_EVALS);
		return y;
	}
};
static thread_local Fun* cur;
static double call1(double x) { double y; bool nest; Fun* me; { Unwatched u; me = cur; y = me->eval(&x, 1); nest = me->nested && me->vals.size() == 2; }
	if(nest) {   // the integrand itself integrates something
		{ Unwatched u; count(K_NEST); cur = nullptr; }
		double z = integral_quasi_crude([](real t) { return t; }, 0, 1, 3); (void) z;
		Unwatched u; cur = me;
	}
	return y; }
static double call2(double x, double y) { Unwatched u; double v[2] = { x, y }; return cur->eval(v, 2); }
template<unsigned S> static double callS(vec<real, S> v) { Unwatched u; double t[S]; for(unsigned i = 0; i < S; ++i) t[i] = v[i]; return cur->eval(t, S); }

struct Job {
	OpCall& c; Words* w; PRNG* p; Fun f; unsigned N; double a, b;
	Job(OpCall& c, unsigned dim) : c(c) {
		Unwatched u;
		w = new Words(c.l.u64("seed"), c.l.str("w", "h"));
		f.kind = (int) c.g.below(6); f.k1 = c.g.real(-3, 3); f.k2 = c.g.real(0.1, 4); f.dim = dim; f.nested = c.g.chance(0.15);
		f.bad_at = 0; f.bad = 0;
		static const unsigned ns[] = { 1, 2, 3, 7, 10, 64, 100 };
		N = c.g.chance(0.05) ? 1000 : ns[c.g.below(7)];
		if(c.g.chance(0.01)) N = (unsigned) c.g.range(1001, 5000);
		if(c.g.chance(0.0006)) N = (unsigned) c.g.range(33000, 70000);
		if(c.g.chance(0.12)) { f.bad_at = 1 + (unsigned) c.g.below(N); f.bad = (int) c.g.below(3); }
		a = c.g.chance(0.5) ? 0 : c.g.real(-5, 5); b = a + (c.g.chance(0.2) ? 1e-3 : c.g.real(0.1, 6));
		if(c.g.chance(0.1)) std::swap(a, b);
		f.args.reserve(N * dim + dim); f.vals.reserve(N + 1);
		cur = &f; count(K_CALLS);
		p = new PRNG(words_prng(*w));
	}
	~Job() { Unwatched u; count(K_FAULTY, w->faulty); cur = nullptr; delete p; delete w; }
	void evals(const char* what, unsigned n) { if(f.vals.size() != n) VIOL("evaluations", "%s with N = %u evaluated the integrand %zu times", what, N, f.vals.size()); }
	void words(const char* what, size_t n) { if(w->log.size() != n) VIOL("words", "%s with N = %u consumed %zu random words instead of %zu", what, N, w->log.size(), n); }
	void point(const char* what, unsigned i, unsigned k, double want, double lo, double hi) {
		double x = f.args[i * f.dim + k]; double m = 1e-12 * (std::fabs(lo) + std::fabs(hi) + 1);
		if(lo > hi) std::swap(lo, hi);
		if(!(x >= lo - m && x <= hi + m)) VIOL("outside-region", "%s evaluated the integrand at %s, outside [%s, %s]", what, fmt(x).c_str(), fmt(lo).c_str(), fmt(hi).c_str());
		if(!near(x, want, 1e-9 * (std::fabs(lo) + std::fabs(hi) + 1e-3))) VIOL("wrong-point", "%s: evaluation %u is at %s, the sequence gives %s", what, i, fmt(x).c_str(), fmt(want).c_str());
	}
	void mean(const char* what, double res, LD vol, const std::vector<double>& v) {
		LD s = 0, m = 0; for(double y : v) { s += y; m += fabsl(y); }
		LD want = vol * s / N;
		if(!near(res, want, 1e-9L * (fabsl(vol) * m / N) + 1e-300L)) VIOL("wrong-estimate", "%s with N = %u returned %s, its evaluations give %s", what, N, fmt(res).c_str(), fmt((double) want).c_str());
		c.result = dig(res);
	}
	void hits(const char* what, double res, long h, LD vol) {
		count(K_HITS, h < 0 ? -h : h);
		LD want = (LD) h / N * vol;
		if(!near(res, want, 1e-9L * fabsl(vol) + 1e-300L)) VIOL("wrong-estimate", "%s with N = %u returned %s, its %ld hits give %s", what, N, fmt(res).c_str(), h, fmt((double) want).c_str());
		c.result = dig(res);
	}
};
static double frac(LD x) { return (double) (x - floorl(x)); }
static const LD INVPHI_L = 0.6180339887498948482045868343656L;

static void op_crude(OpCall& c) {
	Job j(c, 1);
	double r = integral_crude(call1, j.a, j.b, *j.p, j.N);
	Unwatched u; const char* w = "integral_crude";
	j.evals(w, j.N); j.words(w, j.N);
	for(unsigned i = 0; i < j.N; ++i) j.point(w, i, 0, uniform_of(j.a, j.b, j.w->log[i]), j.a, j.b);
	j.mean(w, r, j.b - j.a, j.f.vals);
}
template<unsigned S> static vec<vec2, S> region(OpCall& c) { vec<vec2, S> e; for(unsigned k = 0; k < S; ++k) { double lo = c.g.real(-3, 3), hi = lo + c.g.real(0.1, 3); e[k] = vec2({ lo, hi }); } return e; }
template<unsigned S> static void op_crude_n(OpCall& c) {
	Job j(c, S); j.f.nested = false;
	vec<vec2, S> e = region<S>(c);
	double r = integral_crude<S>(callS<S>, e, *j.p, j.N);
	Unwatched u; const char* w = "integral_crude (multidimensional)";
	j.evals(w, j.N); j.words(w, (size_t) j.N * S);
	LD vol = 1; for(unsigned k = 0; k < S; ++k) vol *= (LD) e[k][1] - e[k][0];
	for(unsigned i = 0; i < j.N; ++i) for(unsigned k = 0; k < S; ++k) j.point(w, i, k, uniform_of(e[k][0], e[k][1], j.w->log[i * S + k]), e[k][0], e[k][1]);
	j.mean(w, r, vol, j.f.vals);
}
static void op_qcrude(OpCall& c) {
	Job j(c, 1);
	double r = integral_quasi_crude(call1, j.a, j.b, j.N);
	Unwatched u; const char* w = "integral_quasi_crude";
	j.evals(w, j.N);
	for(unsigned i = 0; i < j.N; ++i) j.point(w, i, 0, j.a + (j.b - j.a) * frac(i * INVPHI_L), j.a, j.b);
	j.mean(w, r, j.b - j.a, j.f.vals);
}
template<unsigned S> static void op_qcrude_n(OpCall& c) {
	Job j(c, S); j.f.nested = false;
	vec<vec2, S> e = region<S>(c); int how = (int) c.g.below(3);
	vec<real, S> al; LD alpha[S];
	double r; LD slack = 0;
	if(how == 0) { for(unsigned k = 0; k < S; ++k) { al[k] = c.g.real(0.1, 0.9); alpha[k] = al[k]; } r = integral_quasi_crude<S>(callS<S>, e, j.N, al); }
	else if(how == 1) { double a0 = c.g.real(0.2, 0.9); LD q = 1; for(unsigned k = 0; k < S; ++k) { q *= a0; alpha[k] = q; } r = integral_quasi_crude<S>(callS<S>, e, j.N, a0); }
	else {
		{ Unwatched u; LD x = 1.5L; for(int i = 0; i < 100; ++i) x -= (powl(x, S + 1) - x - 1) / ((S + 1) * powl(x, S) - 1); LD q = 1; for(unsigned k = 0; k < S; ++k) { q /= x; alpha[k] = q; } slack = 1e-6L; }
		r = integral_quasi_crude<S>(callS<S>, e, j.N);
	}
	Unwatched u; const char* w = "integral_quasi_crude (multidimensional)";
	j.evals(w, j.N);
	LD vol = 1; for(unsigned k = 0; k < S; ++k) vol *= (LD) e[k][1] - e[k][0];
	for(unsigned i = 0; i < j.N; ++i) for(unsigned k = 0; k < S; ++k) {
		double lo = e[k][0], hi = e[k][1], x = j.f.args[i * S + k], f = frac(i * alpha[k]), got = (x - lo) / (hi - lo);
		if(!(got >= -1e-9 && got <= 1 + 1e-9)) VIOL("outside-region", "%s evaluated outside of its region", w);
		double dist = std::fabs(got - f); if(dist > 0.5) dist = 1 - dist;
		if(dist > 1e-9 + (double) slack * (i + 1)) VIOL("wrong-point", "%s: evaluation %u, coordinate %u is not on the Weyl sequence", w, i, k);
	}
	j.mean(w, r, vol, j.f.vals);
}
static bool hit_signed(double f, double y, long& h) { if(f >= 0) { if(y >= 0 && f >= y) { h++; return true; } } else if(f < 0) { if(y < 0 && f < y) { h--; return true; } } return false; }
static void op_hom(OpCall& c) {
	Job j(c, 1); int how = (int) c.g.below(4); double fm = c.g.real(0.5, 5), lo = c.g.chance(0.3) ? 0 : c.g.real(-4, 0);
	double r; const char* w;
	switch(how) {
		case 0: w = "integral_hom"; r = integral_hom(call1, j.a, j.b, fm, *j.p, j.N); break;
		case 1: w = "integral_hom (signed)"; r = integral_hom(call1, j.a, j.b, lo, fm, *j.p, j.N); break;
		case 2: w = "integral_quasi_hom"; r = integral_quasi_hom(call1, j.a, j.b, fm, j.N); break;
		default: w = "integral_quasi_hom (signed)"; r = integral_quasi_hom(call1, j.a, j.b, lo, fm, j.N);
	}
	Unwatched u; long h = 0, amb = 0; bool sg = how & 1; double base = sg ? lo : 0;
	const double al = 0.7548776662466927;
	j.evals(w, j.N); if(how < 2) j.words(w, 2 * (size_t) j.N);
	for(unsigned i = 0; i < j.N; ++i) {
		double x, y;
		if(how < 2) { x = uniform_of(j.a, j.b, j.w->log[2 * i]); y = uniform_of(base, fm, j.w->log[2 * i + 1]); }
		else { x = j.a + (j.b - j.a) * frac((LD) i * al); y = base + (fm - base) * frac((LD) i * (al * al)); }
		j.point(w, i, 0, x, j.a, j.b);
		double f = j.f.vals[i];
		if(std::fabs(f - y) < 1e-9 || (sg && std::fabs(y) < 1e-9)) amb++;
		if(sg) hit_signed(f, y, h); else if(f > y) h++;
	}
	if(amb) { if(r != r || std::fabs(r / ((j.b - j.a) * (fm - base)) * j.N - h) > amb + 1e-6) VIOL("wrong-estimate", "%s: hits", w); c.result = dig(r); }
	else j.hits(w, r, h, (LD) (j.b - j.a) * (fm - base));
}
static void op_hom2(OpCall& c) {
	Job j(c, 2); j.f.nested = false; double lo = c.g.real(-2, 2), hi = lo + c.g.real(0.1, 3), fm = c.g.real(0.5, 5);
	double r = integral_hom_2d(call2, j.a, j.b, lo, hi, fm, *j.p, j.N);
	Unwatched u; const char* w = "integral_hom_2d"; long h = 0;
	j.evals(w, j.N); j.words(w, 3 * (size_t) j.N);
	for(unsigned i = 0; i < j.N; ++i) {
		const uint64_t* W = &j.w->log[3 * i];
		j.point(w, i, 0, uniform_of(j.a, j.b, W[0]), j.a, j.b); j.point(w, i, 1, uniform_of(lo, hi, W[1]), lo, hi);
		if(j.f.vals[i] > uniform_of(0, fm, W[2])) h++;
	}
	j.hits(w, r, h, (LD) (j.b - j.a) * (hi - lo) * fm);
}
static void op_imp(OpCall& c) {
	Job j(c, 1); bool quasi = c.g.chance(0.5); double k = c.g.real(0.5, 3);
	std::vector<double>* us; std::vector<double>* gs; { Unwatched u; us = new std::vector<double>; gs = new std::vector<double>; }
	auto G = [us, k](real t) { { Unwatched u; us->push_back(t); } return k * t; };
	auto g = [gs, k](real z) { double r = 1.0 / k + 0.1 * z; { Unwatched u; gs->push_back(r); } return r; };
	double r = quasi ? integral_quasi_impsamp(call1, g, G, j.N) : integral_impsamp(call1, g, G, *j.p, j.N);
	Unwatched u; const char* w = quasi ? "integral_quasi_impsamp" : "integral_impsamp";
	j.evals(w, j.N); if(!quasi) j.words(w, j.N);
	if(us->size() != j.N) VIOL("evaluations", "%s evaluated the inverse primitive %zu times for N = %u", w, us->size(), j.N);
	std::vector<double> q;
	for(unsigned i = 0; i < j.N; ++i) {
		double t = quasi ? frac((i + 1) * INVPHI_L) : unit_of(j.w->log[i]);
		if(!near((*us)[i], t, 1e-9)) VIOL("wrong-point", "%s: uniform %u is not the one of its sequence", w, i);
		j.point(w, i, 0, k * t, 0, k);
		q.push_back(j.f.vals[i] / (1.0 / k + 0.1 * j.f.args[i]));
	}
	j.mean(w, r, 1, q);
	delete us; delete gs;
}
static void op_sample(OpCall& c) {
	Job j(c, 1); unsigned nv = 1 + (unsigned) c.g.below(4); bool sep = c.g.chance(0.4);
	Words* w2; { Unwatched u; w2 = new Words(c.l.u64("seed") + 5, "h"); } PRNG p2 = words_prng(*w2);
	std::vector<pdf_sampler> rv; std::vector<int> kd; std::vector<double> A, B;
	for(unsigned k = 0; k < nv; ++k) {
		double a = c.g.real(-2, 2), b = a + c.g.real(0.1, 2); int kind = (int) c.g.below(3); PRNG& g = (sep && k % 2) ? p2 : *j.p;
		rv.push_back(kind == 0 ? pdf_sampler::uniform(a, b, g) : kind == 1 ? pdf_sampler::exponential(b - a, g) : pdf_sampler::rayleigh(b - a, g));
		Unwatched u; kd.push_back(kind); A.push_back(a); B.push_back(b);
	}
	std::vector<std::vector<double>>* seen; { Unwatched u; seen = new std::vector<std::vector<double>>; }
	std::vector<real> s = sample_mc([seen](vec<real> v) { Unwatched u; std::vector<double> t; double y = 0; for(size_t i = 0; i < v.size(); ++i) { t.push_back(v[i]); y += v[i] * (i + 1); } seen->push_back(t); return y; }, rv, j.N);
	Unwatched u; const char* w = "sample_mc";
	if(seen->size() != j.N) VIOL("evaluations", "%s of %u points evaluated the function %zu times", w, j.N, seen->size());
	if(s.size() != j.N) VIOL("wrong-length", "%s of %u points returned %zu", w, j.N, s.size());
	size_t n1 = 0, n2 = 0;
	for(unsigned i = 0; i < j.N; ++i) {
		if((*seen)[i].size() != nv) VIOL("wrong-length", "%s passed %zu variables instead of %u", w, (*seen)[i].size(), nv);
		double y = 0;
		for(unsigned k = 0; k < nv; ++k) {
			bool second = sep && k % 2; Words& ws = second ? *w2 : *j.w; size_t& n = second ? n2 : n1;
			if(n >= ws.log.size()) VIOL("words", "%s drew too few words", w);
			double t = unit_of(ws.log[n++]), d = B[k] - A[k];
			double want = kd[k] == 0 ? A[k] + d * t : kd[k] == 1 ? -std::log(1 - t) / d : d * std::sqrt(-2 * std::log(1 - t));
			if(!near((*seen)[i][k], want, 1e-6 * (1 + std::fabs(want)))) VIOL("wrong-variable", "%s: variable %u of point %u is %s, its draw gives %s", w, k, i, fmt((*seen)[i][k]).c_str(), fmt(want).c_str());
			y += (*seen)[i][k] * (k + 1);
		}
		if(!bit_eq(s[i], y)) VIOL("wrong-value", "%s: value %u is not the function of its variables", w, i);
	}
	if(n1 != j.w->log.size() || n2 != w2->log.size()) VIOL("words", "%s drew more words than its variables need", w);
	count(K_EVALS, j.N); c.result = dig(s);
	delete seen; delete w2;
}
// the low-discrepancy sequence itself
static void op_weyl(OpCall& c) {
	unsigned n = (unsigned) c.g.below(c.g.chance(0.2) ? 1000000 : 2000); double al = c.g.real(0.1, 0.95);
	double a = qrand_weyl(n), b = qrand_weyl(n, al); vec2 v = qrand_weyl2(n); vec<real, 4> m = qrand_weyl_multi<4>(n, al);
	double prev = c.g.chance(0.3) ? 0 : c.g.real(0, 1), rr = qrand_weyl_recurr(prev, al);
	Unwatched u; count(K_CALLS);
	auto same = [](double got, LD want, double tol) { double d = std::fabs(got - frac(want)); return (got >= -1e-9 && got <= 1 + 1e-9) && (d <= tol || 1 - d <= tol); };
	double tol = 1e-9 + n * 1e-14;
	if(!same(a, n * INVPHI_L, tol) || !same(b, (LD) n * al, tol)) VIOL("wrong-point", "qrand_weyl(%u) is not on the sequence", n);
	if(!same(v[0], (LD) n * 0.7548776662466927L, tol) || !same(v[1], (LD) n * 0.7548776662466927L * 0.7548776662466927L, tol)) VIOL("wrong-point", "qrand_weyl2(%u) is not on the sequence", n);
	LD q = 1; for(int k = 0; k < 4; ++k) { q *= al; if(!same(m[k], n * q, tol)) VIOL("wrong-point", "qrand_weyl_multi(%u), coordinate %d is not on the sequence", n, k); }
	if(!same(rr, prev == 0 ? (LD) al : (LD) prev + al, 1e-9)) VIOL("wrong-point", "qrand_weyl_recurr is not the next element");
	c.result = dig(a, b, v, m, rr);
}
static void gen_w(Rng& g, Line& l, bool) { l.set("w", words_gen(g, false)); }
const OpDef OPS[] = {
	{ "crude", op_crude, gen_w, 3 }, { "crude2", op_crude_n<2>, gen_w, 1 }, { "crude3", op_crude_n<3>, gen_w, 1 }, { "quasi_crude", op_qcrude, nullptr, 2 },
	{ "quasi_crude1d", op_qcrude_n<1>, nullptr, 1 }, { "quasi_crude2", op_qcrude_n<2>, nullptr, 1 }, { "quasi_crude3", op_qcrude_n<3>, nullptr, 1 },
	{ "hom", op_hom, gen_w, 5 }, { "hom2d", op_hom2, gen_w, 2 }, { "impsamp", op_imp, gen_w, 3 }, { "sample_mc", op_sample, gen_w, 3 }, { "weyl", op_weyl, nullptr, 1 },
};
const unsigned NOPS = sizeof OPS / sizeof OPS[0];
const OpsConfig OPSCFG = { 3, 4, 0.3, 80000000 };
OPS_HARNESS
