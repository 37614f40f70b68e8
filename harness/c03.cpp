// C03: each random generator's stream is isolated and reproducible.
// A run creates generators, hands them from thread to thread between phases
// and uses them alongside each other; every generator's history must equal the
// history of the same operations done alone in a fresh process.
#include "ops.h"
#include <map>
#include <new>
namespace sim {
const char* PROPERTY = "C03"; const char* VARIANT = "default";
enum { K_OPS, K_GENS, K_HANDOFF, K_REUSE, K_TWIN, K_COPY, K_SHARED_THREAD, K_MOVED, K_RESTORED, K_GHOST };
const char* CTR_NAMES[] = { "generator_operations", "generators", "handed_to_another_thread", "generator_memory_reused", "identical_twins", "copies_made", "operations_between_other_generators", "moved_to_other_memory", "crash_and_restore", "copies_used_alongside", nullptr };
}
using namespace sim;

struct GenOp { const char* name; void (*run)(PRNG& p, Rng& g, Dig& d); };
static double f1(double x) { return x * x - 0.3 * x + 1; }
static double f2(double x, double y) { return x * y * 0.5 + 0.2; }
static double f3(vec<real, 3> v) { return v[0] * v[1] + v[2]; }
static double pdf(double x, const vec<real>& t) { return t[0] * (x > 0 && x < 1 ? x : 0); }
static unsigned big(Rng& g, unsigned n) { return g.chance(0.04) ? n * 40 + (unsigned) g.below(400) : n; }   // a few much larger requests
#define GOP(N) static void g_##N(PRNG& p, Rng& g, Dig& d)
GOP(next) { unsigned n = big(g, 1 + (unsigned) g.below(4)); for(unsigned i = 0; i < n; ++i) d(p.next()); d(p.last()); }
GOP(call) { d(p()); uint64_t x; p >> x; d(x); }
GOP(discard) { p.discard(big(g, (unsigned) g.below(9))); d(p()); }
GOP(uniform) { d(rand_uniform(-1, 2, p)); d(rand_uniform(0, 1, p, 1000)); std::vector<real> t = { 0, 3 }; d(rand_uniform(t, p)); }
GOP(toss) { unsigned n = 1 + g.below(5); for(unsigned i = 0; i < n; ++i) d(rand_cointoss(p)); }
GOP(dice) { unsigned n = 1 + g.below(5); for(unsigned i = 0; i < n; ++i) d(rand_diceroll(6, p)); }
GOP(unif) { unsigned n = 1 + g.below(3); for(unsigned i = 0; i < n; ++i) d(rand_uniform(0, 1, p)); }
GOP(expo) { unsigned n = 1 + g.below(3); for(unsigned i = 0; i < n; ++i) d(rand_exponential(0.7, p)); }
GOP(rayl) { unsigned n = 1 + g.below(3); for(unsigned i = 0; i < n; ++i) d(rand_rayleigh(0.7, p)); }
GOP(cauc) { unsigned n = 1 + g.below(3); for(unsigned i = 0; i < n; ++i) d(rand_cauchy(0.7, 2, p)); }
GOP(lapl) { unsigned n = 1 + g.below(3); for(unsigned i = 0; i < n; ++i) d(rand_laplace(0.7, 2, p)); }
GOP(pare) { unsigned n = 1 + g.below(3); for(unsigned i = 0; i < n; ++i) d(rand_pareto(0.7, 2, p)); }
GOP(cltn) { unsigned n = 1 + g.below(3); for(unsigned i = 0; i < n; ++i) d(rand_gaussian_clt(0.7, 2, p, 3)); }
GOP(coin) { d(rand_cointoss(p)); d(rand_diceroll(6, p)); std::vector<real> t = { 20 }; d(rand_diceroll(t, p)); }
GOP(gaussian) { unsigned n = 1 + g.below(3); for(unsigned i = 0; i < n; ++i) d(rand_gaussian(1, 2, p)); }
GOP(polar) { unsigned n = 1 + g.below(3); for(unsigned i = 0; i < n; ++i) d(rand_gaussian_polar(0, 1, p)); }
GOP(boxmuller) { unsigned n = 1 + g.below(3); for(unsigned i = 0; i < n; ++i) d(rand_gaussian_boxmuller(0, 1, p)); }
GOP(clt) { d(rand_gaussian_clt(0, 1, p)); d(rand_gaussian_clt(0, 1, p, big(g, 1 + (unsigned) g.below(20)))); }
GOP(theta) { std::vector<real> t = { 0.5, 2 }; d(rand_gaussian(t, p)); d(rand_cauchy(t, p)); d(rand_laplace(t, p)); d(rand_pareto(t, p)); std::vector<real> s = { 1.5 }; d(rand_exponential(s, p)); d(rand_rayleigh(s, p)); }
GOP(exponential) { d(rand_exponential(0.7, p)); d(rand_rayleigh(2, p)); }
GOP(cauchy) { d(rand_cauchy(1, 2, p)); d(rand_laplace(-1, 0.5, p)); d(rand_pareto(1, 3, p)); }
GOP(trycatch) { vec<real> t = { 2.0 }; d(rand_trycatch(pdf, t, -0.5, 1.5, 0, 2, p)); }
GOP(reject) { vec<real> t = { 2.0 }; d(rand_rejectsamp(pdf, t, [](real) { return 2.0; }, [](real u) { return u; }, p)); }
GOP(sampler) {
	pdf_sampler s = g.chance(0.5) ? pdf_sampler::gaussian(0, 1, p) : pdf_sampler::exponential(2, p);
	d(s()); d(s.next()); real x; s >> x; d(x);
	vec<real> v; v.resize(3); s.fill(v); d(v);
	std::vector<real> w(4); s.fill(w, 2); d(w[0]); d(w[1]);
}
// a sampler object draws from the very generator it was given, as the direct call does
GOP(through) {
	PRNG q = p; int k = (int) g.below(6); unsigned n = 1 + (unsigned) g.below(4);
	pdf_sampler s = k == 0 ? pdf_sampler::uniform(-1, 2, p) : k == 1 ? pdf_sampler::gaussian(1, 2, p) : k == 2 ? pdf_sampler::exponential(2, p) : k == 3 ? pdf_sampler::cauchy(1, 2, p) : k == 4 ? pdf_sampler::laplace(1, 2, p) : pdf_sampler::pareto(1, 2, p);
	pdf_sampler s2 = s;
	for(unsigned i = 0; i < n; ++i) {
		double a = i % 2 ? s2() : s(), b = k == 0 ? rand_uniform(-1, 2, q) : k == 1 ? rand_gaussian(1, 2, q) : k == 2 ? rand_exponential(2, q) : k == 3 ? rand_cauchy(1, 2, q) : k == 4 ? rand_laplace(1, 2, q) : rand_pareto(1, 2, q);
		d(a); Unwatched u; if(dig(a) != dig(b)) VIOL("other-stream", "sample %u of a sampler object is not the next sample of its generator", i);
	}
	uint64_t a = p(), b = q(); d(a); Unwatched u; if(a != b) VIOL("other-stream", "a generator is not where the samples of its sampler objects leave it");
}
GOP(samplers) {
	pdf_sampler a = pdf_sampler::gaussian(0, 1, p), b = pdf_sampler::laplace(0, 1, p), c = pdf_sampler::gaussian(5, 0.1, p);
	for(int i = 0; i < 3; ++i) { d(a()); d(b()); d(c()); }
}
GOP(metropolis) {
	pdf_sampler s = pdf_sampler::gaussian(0, 0.5, p);
	real_function f = [](real x) { return x > -2 && x < 2 ? 1 + 0.3 * x : 0.0; };
	d(metropolis(f, s, 0.1)); d(metropolis(f, s, 0.1, p, big(g, 5))); d(metropolis(f, s, 0.1, 1 + (unsigned) g.below(140)));
}
GOP(crude) { d(integral_crude(f1, 0, 2, p, big(g, 20))); vec<vec2, 3> e; for(int i = 0; i < 3; ++i) e[i] = vec2({ 0.0, 1.0 + i }); d(integral_crude<3>(f3, e, p, 10)); }
GOP(hom) { d(integral_hom(f1, 0, 1, 2, p, big(g, 20))); d(integral_hom(f1, 0, 1, -1, 2, p, 20)); d(integral_hom_2d(f2, 0, 1, 0, 1, 1, p, 15)); }
GOP(impsamp) { d(integral_impsamp(f1, [](real) { return 1.0; }, [](real u) { return u; }, p, big(g, 15))); }
GOP(sample_mc) {
	std::vector<pdf_sampler> rv = { pdf_sampler::gaussian(0, 1, p), pdf_sampler::uniform(0, 1, p), pdf_sampler::gaussian(2, 3, p) };
	d(sample_mc([](vec<real> v) { return v[0] + v[1] * v[2]; }, rv, big(g, 6)));
}
GOP(shuffle) { std::vector<int> v; unsigned n = 2 + g.below(7); for(unsigned i = 0; i < n; ++i) v.push_back((int) i); shuffle(v, p); for(int x : v) d(x); vec<real> w = { 1, 2, 3, 4 }; shuffle(w, p, 3); d(w); }
GOP(copy) { PRNG q = p; d(q()); d(rand_gaussian(0, 1, q)); d(rand_gaussian(0, 1, q)); Unwatched u; count(K_COPY); }
GOP(reseed) { uint64_t s = 1 + g.below(1000); p.seed(s); d(p()); d(p()); }
GOP(state) { d(p.last()); d(p.get_param()); std::vector<uint64_t> v = p.get_param(); PRNG q(p.get_function(), p.last(), v); d(q()); d(rand_gaussian(0, 1, q)); }
#undef GOP
#define G(N) { #N, g_##N },
static const GenOp GOPS[] = { G(next) G(call) G(discard) G(uniform) G(coin) G(gaussian) G(gaussian) G(polar) G(polar) G(boxmuller) G(boxmuller) G(clt) G(theta) G(exponential) G(cauchy) G(trycatch) G(reject)
	G(sampler) G(sampler) G(samplers) G(through) G(metropolis) G(crude) G(hom) G(impsamp) G(sample_mc) G(shuffle) G(toss) G(toss) G(dice) G(unif) G(expo) G(rayl) G(cauc) G(lapl) G(pare) G(cltn) G(copy) G(reseed) G(state) };
static const unsigned NG = sizeof GOPS / sizeof GOPS[0];
static const GenOp* find(const std::string& n) { for(auto& o : GOPS) if(n == o.name) return &o; return nullptr; }

static void make_gen(void* at, const Line& l) {
	int kind; uint64_t seed, a, b;
	{ Unwatched u; kind = (int) l.num("kind"); seed = l.u64("seed"); a = l.u64("a", 0); b = l.u64("b", 0); }
	switch(kind) {
		case 0: new(at) PRNG(PRNG::linear_congruential(seed)); break;
		case 1: new(at) PRNG(PRNG::xoshiro(seed)); break;
		case 2: new(at) PRNG(PRNG::splitmix64(seed)); break;
		case 3: new(at) PRNG(PRNG::wyrand(seed, a | 1, b)); break;
		case 4: new(at) PRNG(PRNG::middlesquare(seed, a)); break;
		case 5: new(at) PRNG(PRNG::xoshiro(std::vector<uint64_t>{ seed, a, b, 7 })); break;
		case 6: new(at) PRNG(seed); break;
		default: new(at) PRNG(randgen_congruential, seed % 1000, { 1103515245, 12345, 1u << 31 });
	}
}

enum { SLOTS = 4, MAXP = 4 };
struct Slot { alignas(PRNG) char mem[sizeof(PRNG)]; };
static Slot slots[SLOTS];
struct Rec { std::vector<uint64_t> h; };  // per generator op digests (harness memory)
static Rec recs[64];
static int owner[64], lastg[8];
static PRNG* where[64];                   // current object of each generator
static bool in_slot(PRNG* q) { return (char*) q >= (char*) slots && (char*) q < (char*) (slots + SLOTS); }
static void drop(PRNG* q) { if(in_slot(q)) q->~PRNG(); else delete q; }

struct Work { const Plan* p; int thread; int phase; int only; };
static void worker(void* a) {
	Work* w = (Work*) a;
	for(auto& l : w->p->lines) {
		int gid, pre; const GenOp* o; uint64_t seed; PRNG* pr;
		{
			Unwatched u;
			if(l.kind != "op") continue;
			gid = (int) l.num("g");
			if((int) l.num("ph") != w->phase || (w->only >= 0 ? gid != w->only : (int) l.num("t") != w->thread)) continue;
			o = find(l.str("fn")); seed = l.u64("seed");
			int slot = -1; for(auto& q : w->p->lines) if(q.kind == "gen" && (int) q.num("g") == gid) slot = (int) q.num("slot");
			if(!o || slot < 0 || gid >= 64) continue;
			if(w->only < 0) { if(owner[gid] >= 0 && owner[gid] != w->thread) count(K_HANDOFF); owner[gid] = w->thread; if(lastg[w->thread] >= 0 && lastg[w->thread] != gid) count(K_SHARED_THREAD); lastg[w->thread] = gid; }
			pr = where[gid];
			set_context("%s", o->name); count(K_OPS);
			pre = w->only >= 0 ? 0 : (int) l.num("pre", 0);
		}
		// the same generator in another object: a copy, one restored from its
		// durable state, or left where it is while a copy is used
		if(pre == 1) { PRNG* q = new PRNG(*pr); drop(pr); where[gid] = pr = q; Unwatched u; count(K_MOVED); }
		if(pre == 2) { pseudorandom_function pf = pr->get_function(); uint64_t x = pr->last(); std::vector<uint64_t> v = pr->get_param(); drop(pr); where[gid] = pr = new PRNG(pf, x, v); Unwatched u; count(K_RESTORED); }
		if(pre == 3) { PRNG q = *pr; Dig dd; Rng gg(seed + 1); o->run(q, gg, dd); Unwatched u; count(K_GHOST); }
		Dig d; Rng g(seed);
		errno = 0;
		o->run(*pr, g, d);
		Unwatched u;
		recs[gid].h.push_back(d.h);
		event(d.h);
	}
}
struct Body { const Plan* p; int only; };
static void body(const void* a) {
	const Body* b = (const Body*) a; const Plan& p = *b->p;
	unsigned T, P;
	{ Unwatched u; T = (unsigned) p.knob("threads", 1); P = (unsigned) p.knob("phases", 1); set_budget(40000000); if(b->only < 0) apply_schedule(p); for(int& x : owner) x = -1; for(int& x : lastg) x = -1; }
	if(b->only >= 0) {
		for(auto& l : p.lines) { bool mine; { Unwatched u; mine = l.kind == "gen" && (int) l.num("g") == b->only; } if(mine) { make_gen(slots[0].mem, l); where[b->only] = (PRNG*) slots[0].mem; } }
		for(unsigned ph = 0; ph < P; ++ph) { Work w = { &p, 0, (int) ph, b->only }; worker(&w); }
		((PRNG*) slots[0].mem)->~PRNG();
	} else for(unsigned ph = 0; ph < P; ++ph) {
		for(auto& l : p.lines) {
			bool start; int slot;
			{ Unwatched u; start = l.kind == "gen" && (unsigned) l.num("from") == ph; slot = (int) l.num("slot"); if(start) { count(K_GENS); if(ph) count(K_REUSE); if(l.num("twin", -1) >= 0) count(K_TWIN); } }
			if(start) { make_gen(slots[slot].mem, l); Unwatched u; where[l.num("g") & 63] = (PRNG*) slots[slot].mem; }
		}
		Work ws[4]; int ids[4];
		for(unsigned t = 0; t < T; ++t) { ws[t].p = &p; ws[t].thread = (int) t; ws[t].phase = (int) ph; ws[t].only = -1; }
		for(unsigned t = 1; t < T; ++t) ids[t] = spawn(worker, &ws[t]);
		worker(&ws[0]);
		for(unsigned t = 1; t < T; ++t) join(ids[t]);
		for(auto& l : p.lines) {
			bool end; int slot;
			{ Unwatched u; end = l.kind == "gen" && (unsigned) l.num("to") == ph; slot = (int) l.num("slot"); }
			if(end) { PRNG* q; { Unwatched u; q = where[l.num("g") & 63]; } drop(q); }
		}
	}
	Unwatched u;
	// publish: one record per op, tagged with its generator
	for(int g = 0; g < 64; ++g) for(size_t i = 0; i < recs[g].h.size(); ++i)
		if(R->nrec < MAX_REC) { OpRec& r = R->rec[R->nrec++]; r.digest = recs[g].h[i]; r.err = g; r.status = (int) i; }
}

namespace sim {
std::string info() { return "\"generator_operations_kinds\": " + std::to_string(NG); }
void generate(Rng& g, Plan& p, bool thorough, uint64_t) {
	unsigned T = g.chance(0.25) ? 1 : (unsigned) g.range(2, 4), P = (unsigned) g.range(1, 3);
	p.set_knob("threads", T); p.set_knob("phases", P); p.set_knob("salt", g.range(1, 1 << 30)); p.set_knob("block_rule", g.chance(0.5) ? g.range(1, 100000) : 0);
	unsigned ng = 0;
	std::vector<unsigned> pool; unsigned few = g.chance(0.6) ? (unsigned) g.range(1, 4) : NG;
	for(unsigned i = 0; i < few; ++i) pool.push_back(few == NG ? i : (unsigned) g.below(NG));
	unsigned S = (unsigned) g.range(2, SLOTS);
	int twin_of = -1; std::string twin_kind;
	for(unsigned s = 0; s < S; ++s) {
		unsigned ph = 0;
		while(ph < P && ng < 12) {
			unsigned to = (unsigned) g.range(ph, P - 1);
			Line& l = p.add("gen");
			l.set("g", ng).set("slot", s).set("from", ph).set("to", to).set("kind", (int64_t) g.below(8)).set("seed", g.chance(0.3) ? g.below(4) : g.next() >> 16).set("a", g.next() >> 8).set("b", g.next() >> 8);
			unsigned id = ng++;
			unsigned tprev = 99;
			for(unsigned q = ph; q <= to; ++q) {
				unsigned t = (unsigned) g.below(T);
				unsigned n = (unsigned) g.range(1, thorough ? 6 : 4);
				for(unsigned k = 0; k < n; ++k)
					(g.chance(0.35) ? p.add("op").set("pre", g.range(1, 3)) : p.add("op")).set("g", id).set("ph", q).set("t", t).set("fn", GOPS[pool[g.below(pool.size())]].name).set("seed", g.next() >> 30);
				tprev = t;
			}
			ph = to + 1;
		}
	}
	// mix the order of operations of different generators
	std::vector<Line*> opl; for(auto& l : p.lines) if(l.kind == "op") opl.push_back(&l);
	for(size_t i = 0; i + 1 < opl.size(); ++i) { size_t j = i + g.below(std::min<size_t>(4, opl.size() - i)); std::swap(*opl[i], *opl[j]); }
	// a twin: same creation and operations as generator 0, in another slot and thread
	if(ng < 12 && S < SLOTS && g.chance(0.6)) {
		Line gl; for(auto& l : p.lines) if(l.kind == "gen" && l.num("g") == 0) gl = l;
		gl.set("g", ng).set("slot", SLOTS - 1).set("twin", 0); p.lines.push_back(gl);
		std::vector<Line> add; unsigned tt = (unsigned) g.below(T);
		for(auto& l : p.lines) if(l.kind == "op" && l.num("g") == 0) { Line m = l; m.set("g", ng).set("t", tt); add.push_back(m); }
		for(auto& l : add) p.lines.push_back(l);
	}
	static const int64_t per[] = { 4, 15, 50, 200 };
	if(T > 1) { p.set_knob("rs_seed", (int64_t) (g.next() >> 24)); p.set_knob("rs_period", per[g.below(4)]); }
}
void run_plan(const Plan& p, Outcome& o) {
	std::map<int, std::vector<uint64_t>> got, ref;
	Body b = { &p, -1 };
	if(!run_child(body, &b, (uint64_t) p.knob("salt", 1), o)) return;
	for(uint32_t i = 0; i < R->nrec; ++i) got[R->rec[i].err].push_back(R->rec[i].digest);
	for(auto& kv : got) {
		Body s = { &p, kv.first };
		if(!run_child(body, &s, (uint64_t) p.knob("salt", 1) + 77, o)) return;
		std::vector<uint64_t> alone;
		for(uint32_t i = 0; i < R->nrec; ++i) if(R->rec[i].err == kv.first) alone.push_back(R->rec[i].digest);
		size_t n = 0; std::string bad;
		int64_t P = p.knob("phases", 1);
		for(int64_t ph = 0; ph < P && bad.empty(); ++ph) for(auto& l : p.lines) if(l.kind == "op" && l.num("ph") == ph && (int) l.num("g") == kv.first && find(l.str("fn"))) { if(n >= alone.size() || n >= kv.second.size() || alone[n] != kv.second[n]) { bad = l.str("fn"); break; } n++; }
		if(!bad.empty() || alone.size() != kv.second.size()) {
			o.violated = true; o.cls = "stream-not-isolated"; o.context = bad;
			o.detail = "generator " + std::to_string(kv.first) + ": result " + std::to_string(n) + " (" + bad + ") differs from the same operations done alone in a fresh process";
			return;
		}
	}
}
} // namespace sim
