// C15: histogram contents depend only on the set of points accepted.
#include "words.h"
namespace sim {
const char* PROPERTY = "C15"; const char* VARIANT = "default";
enum { K_INS, K_NAN, K_INF, K_OUT, K_EDGE, K_DUP, K_CRASH, K_PERM, K_BATCH, K_BURST, K_HIST, K_TEXT };
const char* CTR_NAMES[] = { "insertions", "not_a_number_delivered", "infinities_delivered", "out_of_range_delivered", "boundary_values", "duplicates", "crash_and_restore", "reordered_deliveries", "built_at_once", "bursts", "histograms", "texts", nullptr };
}
using namespace sim;
typedef long double LD;

struct Model {
	unsigned nb; double lo, hi; std::vector<double> acc; LD big = 0;
	std::vector<unsigned> bins;
	bool inside(double x) const { return x >= lo && x <= hi; }
	// bins x may be counted in: first and last
	void where(double x, unsigned& a, unsigned& b) const {
		if(x >= hi) { a = b = nb - 1; return; }
		if(x <= lo) { a = b = 0; return; }
		LD t = ((LD) x - lo) / ((LD) hi - lo) * nb, f = floorl(t); double slack = 1e-9L * (1 + nb * 1e-3L);
		int e; bool dyadic = std::frexp(hi - lo, &e) == 0.5 && (nb & (nb - 1)) == 0 && (double) (x - lo) + lo == x && (LD) (double) (hi - lo) == (LD) hi - lo && (LD) (double) (x - lo) == (LD) x - lo;
		// with exact arithmetic there is no doubt
		if(dyadic) { a = b = (unsigned) f; return; }
		if(t - f < slack && f > 0) { a = (unsigned) f - 1; b = (unsigned) f; }
		else if(f + 1 - t < slack) { a = (unsigned) f; b = (unsigned) f + 1; }
		else a = b = (unsigned) f;
		if(a > nb - 1) a = nb - 1; if(b > nb - 1) b = nb - 1;
	}
	LD mean() const { LD s = 0; for(double x : acc) s += x; return s / acc.size(); }
	LD tss() const { LD m = mean(), s = 0; for(double x : acc) s += (x - m) * (x - m); return s; }
	double mn() const { double m = acc[0]; for(double x : acc) if(x < m) m = x; return m; }
	double mx() const { double m = acc[0]; for(double x : acc) if(x > m) m = x; return m; }
};
static void check_stats(const histogram& h, const Model& m, const char* when) {
	size_t n = m.acc.size();
	double mean, tss, mn, mx, m2, t2; unsigned num; std::vector<unsigned> b;
	{ mean = h.mean(); tss = h.tss(); mn = h.min(); mx = h.max(); num = h.number(); m2 = stats::mean(h); t2 = stats::tss(h); }
	Unwatched u; b = h.bins();
	if(num != n) VIOL("wrong-count", "%s: %u points counted, %zu were accepted", when, num, n);
	uint64_t s = 0; for(unsigned x : b) s += x;
	if(s != n) VIOL("bins-sum", "%s: the bins hold %llu points, %zu were accepted", when, (unsigned long long) s, n);
	if(b.size() != m.nb) VIOL("wrong-bins", "%s: %zu bins instead of %u", when, b.size(), m.nb);
	for(unsigned i = 0; i < m.nb; ++i) { if(b[i] != h[i]) VIOL("wrong-bins", "%s: operator[] and bins() disagree", when); if(b[i] != m.bins[i]) VIOL("wrong-bins", "%s: bin %u holds %u points instead of %u", when, i, b[i], m.bins[i]); }
	if(!bit_eq(mean, m2) || !bit_eq(tss, t2) || !bit_eq(mn, th::min(h)) || !bit_eq(mx, th::max(h))) VIOL("accessors", "%s: accessors disagree", when);
	if(!n) return;
	LD M = m.mean(), T = m.tss(), e = 3e-16L;
	if(mn != m.mn()) VIOL("wrong-minimum", "%s: minimum %s instead of %s", when, fmt(mn).c_str(), fmt(m.mn()).c_str());
	if(mx != m.mx()) VIOL("wrong-maximum", "%s: maximum %s instead of %s", when, fmt(mx).c_str(), fmt(m.mx()).c_str());
	if(!near(mean, M, 8 * e * (n + 2) * m.big + 1e-300L)) VIOL("wrong-mean", "%s: mean %s instead of %s over %zu points", when, fmt(mean).c_str(), fmt((double) M).c_str(), n);
	if(!near(tss, T, 16 * e * (n + 2) * (T + m.big * m.big) + 1e-300L)) VIOL("wrong-tss", "%s: sum of squares %s instead of %s over %zu points", when, fmt(tss).c_str(), fmt((double) T).c_str(), n);
}
// the text form: a line per bin, with its position and its count or fraction
static void check_text(const histogram& h, const Model& m, Rng& g) {
	bool norm = g.chance(0.5), low = g.chance(0.5), semi = g.chance(0.5); std::string t = norm && !low && !semi ? h.to_string() : h.to_string(semi ? ";" : " ", norm, low);
	Unwatched u; count(K_TEXT); size_t n = m.acc.size();
	if(!n) { if(!t.empty()) VIOL("wrong-text", "an empty histogram has the text \"%.60s\"", t.c_str()); return; }
	LD w = ((LD) m.hi - m.lo) / m.nb; const char* q = t.c_str();
	for(unsigned i = 0; i < m.nb; ++i) {
		char *e, *f; double x = strtod(q, &e); if(e == q || *e != (semi ? ';' : ' ')) VIOL("wrong-text", "line %u of the text of a histogram is \"%.40s\"", i, q);
		double y = strtod(e + 1, &f); if(f == e + 1 || *f != '\n') VIOL("wrong-text", "line %u of the text of a histogram is \"%.40s\"", i, q); q = f + 1;
		LD p = m.lo + (i + (low ? 0.0L : 0.5L)) * w, c = norm ? (LD) m.bins[i] / n : (LD) m.bins[i];
		if(!(fabsl(x - p) <= 2e-5L * (fabsl(p) + w * 1e-6L) + 1e-9L * (fabsl((LD) m.lo) + fabsl((LD) m.hi)))) VIOL("wrong-text", "the text of a histogram puts bin %u of %u in [%g, %g] at %g", i, m.nb, m.lo, m.hi, x);
		if(!(fabsl(y - c) <= 2e-5L * c)) VIOL("wrong-text", "the text of a histogram gives bin %u %g instead of %g", i, y, (double) c);
	}
	if(*q) VIOL("wrong-text", "the text of a histogram goes on with \"%.40s\"", q);
}
static void feed(histogram& h, Model& m, double x, Rng& g) {
	std::vector<unsigned> before; unsigned n0;
	{ Unwatched u; before = m.bins; n0 = (unsigned) m.acc.size(); count(K_INS); if(x != x) count(K_NAN); else if(std::isinf(x)) count(K_INF); else if(!m.inside(x)) count(K_OUT); else if(x == m.lo || x == m.hi) count(K_EDGE); }
	h.insert(x);
	Unwatched u; std::vector<unsigned> after = h.bins();
	if(after.size() != before.size()) VIOL("wrong-bins", "insertion changed the number of bins");
	if(!m.inside(x)) { for(unsigned i = 0; i < m.nb; ++i) if(after[i] != before[i]) VIOL("accepted-outside", "the value %s outside [%s, %s] was counted in bin %u", fmt(x).c_str(), fmt(m.lo).c_str(), fmt(m.hi).c_str(), i);
		if(h.number() != n0) VIOL("accepted-outside", "the value %s outside [%s, %s] was counted", fmt(x).c_str(), fmt(m.lo).c_str(), fmt(m.hi).c_str()); }
	else {
		unsigned a, b; m.where(x, a, b); int hit = -1;
		for(unsigned i = 0; i < m.nb; ++i) if(after[i] != before[i]) { if(hit >= 0 || after[i] != before[i] + 1) VIOL("wrong-bins", "inserting %s changed several bins or not by one", fmt(x).c_str()); hit = (int) i; }
		if(hit < 0) VIOL("lost-point", "the value %s in [%s, %s] was not counted", fmt(x).c_str(), fmt(m.lo).c_str(), fmt(m.hi).c_str());
		if((unsigned) hit < a || (unsigned) hit > b) VIOL("wrong-bin", "the value %s of [%s, %s] was counted in bin %d of %u, it lies in bin %u", fmt(x).c_str(), fmt(m.lo).c_str(), fmt(m.hi).c_str(), hit, m.nb, a);
		m.bins[hit]++; m.acc.push_back(x); LD v = fabsl((LD) x); if(v > m.big) m.big = v;
		unsigned ix = h.index(x); if((int) ix != hit) VIOL("wrong-bin", "index(%s) is %u, the point was counted in bin %d", fmt(x).c_str(), ix, hit);
	}
	// the step function
	histogram& hh = h; double v = hh(x); if(m.inside(x) ? v != m.bins[h.index(x)] : v != 0) VIOL("step-function", "the histogram evaluates to %s at %s", fmt(v).c_str(), fmt(x).c_str());
}
static double point(Rng& g, const Model& m) {
	double w = m.hi - m.lo;
	switch(g.below(16)) {
		case 0: return NAN; case 1: return g.chance(0.5) ? INFINITY : -INFINITY;
		case 2: return g.chance(0.5) ? m.hi + w * g.unit() + 1e-300 : m.lo - w * g.unit();
		case 3: return std::nextafter(m.hi, g.chance(0.5) ? INFINITY : -INFINITY); case 4: return std::nextafter(m.lo, g.chance(0.5) ? INFINITY : -INFINITY);
		case 5: return m.hi; case 6: return m.lo;
		case 7: return m.lo + w * (double) g.below(m.nb + 1) / m.nb;                      // a bin boundary
		case 8: return std::nextafter(m.lo + w * (double) g.below(m.nb + 1) / m.nb, g.chance(0.5) ? INFINITY : -INFINITY);
		case 9: return g.chance(0.5) ? 0.0 : -0.0; case 10: return g.chance(0.5) ? 1e300 : -1e300;
		default: return m.lo + w * g.unit();
	}
}
static Model model(Rng& g) {
	Model m; static const unsigned nbs[] = { 1, 2, 3, 4, 7, 8, 10, 16, 100, 1000 };
	m.nb = nbs[g.below(10)];
	if(g.chance(0.4)) { static const double ws[] = { 1, 2, 8, 0.5, 1024 }; m.lo = (double) g.range(-8, 4); m.hi = m.lo + ws[g.below(5)]; }
	else { m.lo = g.real(-10, 10); m.hi = m.lo + (g.chance(0.2) ? 1e-6 : g.real(0.1, 50)); if(g.chance(0.1)) { m.lo += 1000; m.hi += 1000; } }
	m.bins.assign(m.nb, 0); count(K_HIST);
	return m;
}
static void op_stream(OpCall& c) {
	Model *m, *m2; unsigned n; { Unwatched u; m = new Model(model(c.g)); n = (unsigned) c.g.range(0, c.l.num("n", 20)); }
	histogram* h = new histogram(m->nb, m->lo, m->hi);
	check_stats(*h, *m, "empty");
	std::vector<double>* sent; { Unwatched u; sent = new std::vector<double>; }
	for(unsigned i = 0; i < n; ++i) {
		double x; bool crash, dup; unsigned burst = 1;
		{ Unwatched u; x = point(c.g, *m); crash = c.g.chance(0.08); dup = c.g.chance(0.15); if(c.g.chance(0.03)) { burst = (unsigned) c.g.range(5, 60); count(K_BURST); } if(dup && !sent->empty()) { x = sent->back(); count(K_DUP); } sent->push_back(x); }
		for(unsigned b = 0; b < burst; ++b) feed(*h, *m, x, c.g);
		if(i < 40 || i + 1 == n || i % 16 == 0) check_stats(*h, *m, "after an insertion");
		if(crash) {   // only a copy made before survives
			histogram* k = new histogram(*h); delete h; { Unwatched u; count(K_CRASH); } h = k; check_stats(*h, *m, "restored copy"); check_text(*h, *m, c.g);
			if(c.g.chance(0.4)) { histogram other(3, 0, 1); other = *h; other.insert(0.5 * (m->lo + m->hi)); check_stats(*h, *m, "after its copy was modified"); }
		}
	}
	// the same points in another order
	if(!m->acc.empty() && c.g.chance(0.6)) {
		{ Unwatched u; m2 = new Model(*m); m2->bins.assign(m2->nb, 0); m2->acc.clear(); std::vector<double> p = *sent; for(size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[c.g.below(i)]); *sent = p; count(K_PERM); }
		histogram h2(m->nb, m->lo, m->hi);
		std::vector<double>* acc; { Unwatched u; acc = new std::vector<double>(m->acc); for(size_t i = acc->size(); i > 1; --i) std::swap((*acc)[i - 1], (*acc)[c.g.below(i)]); }
		for(double x : *acc) feed(h2, *m2, x, c.g);
		check_stats(h2, *m2, "after delivery in another order");
		std::vector<unsigned> ba = h->bins(), bb = h2.bins();
		Unwatched u; if(ba != bb || h->number() != h2.number()) VIOL("order-dependent", "the bins depend on the order of delivery");
		delete acc; delete m2;
	}
	c.result = dig(h->mean(), h->tss(), h->bins());
	Unwatched u; delete h; delete m; delete sent;
}
template<typename D> static void batch(OpCall& c, D& data, unsigned n, unsigned nb) {
	Model* m; { Unwatched u; m = new Model; m->lo = INFINITY; m->hi = -INFINITY; for(unsigned i = 0; i < n; ++i) { if(data[i] < m->lo) m->lo = data[i]; if(data[i] > m->hi) m->hi = data[i]; } count(K_BATCH); count(K_HIST); }
	uint64_t d0 = dig(data);
	histogram* h = nb ? new histogram(data, nb) : new histogram(data);
	std::vector<unsigned> b = h->bins();
	{ Unwatched u; m->nb = (unsigned) b.size(); if(nb && m->nb != nb) VIOL("wrong-bins", "%u bins were requested, there are %u", nb, m->nb);
		if(!m->nb) VIOL("wrong-bins", "no bins for %u points", n);
		if(!nb && std::fabs((double) m->nb - std::sqrt((double) n)) > 1) VIOL("wrong-bins", "%u bins by default for %u points", m->nb, n); }
	// reference: the same points one at a time
	{ Unwatched u; m->bins.assign(m->nb, 0); }
	histogram r(m->nb, m->lo, m->hi);
	for(unsigned i = 0; i < n; ++i) feed(r, *m, data[i], c.g);
	check_stats(r, *m, "reference");
	check_stats(*h, *m, "built at once"); check_text(*h, *m, c.g);
	// and both accept more points
	for(unsigned i = c.g.chance(0.5) ? 3 : 0; i; --i) { double x; { Unwatched u; x = point(c.g, *m); } h->insert(x); feed(r, *m, x, c.g); check_stats(*h, *m, "built at once, then continued"); }
	if(dig(data) != d0) VIOL("input-changed", "the data set was changed");
	c.result = dig(h->mean(), h->tss(), h->bins());
	delete h; Unwatched u; delete m;
}
static void op_batch(OpCall& c) {
	unsigned n = 1 + (unsigned) c.g.below(c.l.num("n", 20)), nb = c.g.chance(0.3) ? 0 : 1 + (unsigned) c.g.below(12); bool same = c.g.chance(0.1); double base = c.g.real(-5, 5);
	auto v = [&](unsigned i) { return same ? base : c.g.chance(0.3) ? (double) c.g.range(-4, 4) : base + c.g.real(0, 3); };
	int kind = (int) c.g.below(3);
	if(kind == 0) { vec<real> d(n); for(unsigned i = 0; i < n; ++i) d[i] = v(i); batch(c, d, n, nb); }
	else if(kind == 1) { std::vector<real> d(n); for(unsigned i = 0; i < n; ++i) d[i] = v(i); batch(c, d, n, nb); }
	else { vec<real, 6> d; for(unsigned i = 0; i < 6; ++i) d[i] = v(i); batch(c, d, 6, nb); }
}
static void op_derived(OpCall& c) {    // variance and standard deviation
	histogram h(4, -1, 1); unsigned n = (unsigned) c.g.below(5); double s = 0, s2 = 0;
	for(unsigned i = 0; i < n; ++i) { double x = c.g.real(-1, 1); h.insert(x); s += x; s2 += x * x; }
	errno = 0; double v = stats::variance(h); int e1 = errno; errno = 0; double d = stats::stdev(h); int e2 = errno;
	Unwatched u; count(K_HIST);
	if(n < 2) { if(v == v || d == d || !e1 || !e2) VIOL("silent-failure", "variance of %u points is %s with errno %d", n, fmt(v).c_str(), e1); }
	else { double w = (s2 - s * s / n) / (n - 1); if(!near(v, w, 1e-12) || !near(d * d, w, 1e-9)) VIOL("wrong-variance", "variance of %u points is %s instead of %s", n, fmt(v).c_str(), fmt(w).c_str()); }
	c.result = dig(v, d);
}
static void gen_n(Rng& g, Line& l, bool th) { l.set("n", g.chance(0.1) ? g.range(50, th ? 600 : 250) : g.chance(0.001) ? g.range(1000, 6000) : g.range(1, 25)); }
const OpDef OPS[] = { { "stream", op_stream, gen_n, 6 }, { "batch", op_batch, gen_n, 3 }, { "derived", op_derived, nullptr, 1 } };
const unsigned NOPS = sizeof OPS / sizeof OPS[0];
const OpsConfig OPSCFG = { 3, 4, 0.3, 80000000 };
OPS_HARNESS
