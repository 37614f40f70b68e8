// Skeleton shared by most harnesses: a plan is a list of "op" lines, each run
// by one of a few simulated threads; every op checks its own history.
#ifndef OPS_H
#define OPS_H
#include "common.h"
#include "dig.h"
#include <cerrno>
#include <cmath>
#include <cfenv>
#include <functional>
#include <limits>
using namespace theoretica;
namespace th = theoretica;
using sim::Rng; using sim::Plan; using sim::Line; using sim::Unwatched;

struct OpCall {
	const Line& l;
	Rng g;              // seeded by the op
	unsigned thread, index;
	uint64_t result = 0; // folded into the event hash
	OpCall(const Line& l, unsigned t, unsigned k) : l(l), g(l.u64("seed")), thread(t), index(k) {}
	double num(const char* k, int64_t d = 0) const { return (double) l.num(k, d); }
};
struct OpDef {
	const char* name;
	void (*run)(OpCall&);                       // watched; glue inside must be Unwatched
	void (*gen)(Rng&, Line&, bool thorough);    // extra attributes, may be null
	int weight;
};
// each harness defines
#ifdef SIM_ZONES            // unoptimised builds keep unused helpers
#define SIM_WEAK __attribute__((weak))
#else
#define SIM_WEAK
#endif
extern const OpDef SIM_WEAK OPS[];
extern const unsigned SIM_WEAK NOPS;
struct OpsConfig { unsigned max_threads; unsigned max_ops; double multi; uint64_t budget; };
extern const OpsConfig SIM_WEAK OPSCFG;

#define VIOL(cls, ...) sim::violation(cls, __VA_ARGS__)
static inline bool bit_eq(double a, double b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
static inline bool near(double got, long double want, long double tol) {
	if(got != got || want != want) return got != got && want != want;
	if(std::isinf(got) || std::isinf((double) want)) return got == (double) want;
	return std::fabs((double) ((long double) got - want)) <= tol;
}
static inline std::string fmt(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }

namespace sim {
static const OpDef* find_op(const std::string& n) { for(unsigned i = 0; i < NOPS; ++i) if(n == OPS[i].name) return &OPS[i]; return nullptr; }

static inline void ops_generate(Rng& g, Plan& p, bool thorough) {
	unsigned T = g.chance(OPSCFG.multi) ? (unsigned) g.range(2, OPSCFG.max_threads) : 1;
	p.set_knob("threads", T);
	p.set_knob("salt", g.range(1, 1 << 30));
	p.set_knob("block_rule", g.chance(0.5) ? g.range(1, 100000) : 0);
	int total = 0; for(unsigned i = 0; i < NOPS; ++i) total += OPS[i].weight;
	// swarm: a run concentrates on a few operations
	unsigned few = g.chance(0.5) ? (unsigned) g.range(1, 3) : 0; std::vector<unsigned> pool;
	auto pick = [&]() { int r = (int) g.below(total); for(unsigned i = 0; i < NOPS; ++i) { r -= OPS[i].weight; if(r < 0) return i; } return 0u; };
	for(unsigned i = 0; i < few; ++i) pool.push_back(pick());
	for(unsigned t = 0; t < T; ++t) {
		unsigned n = (unsigned) g.range(1, OPSCFG.max_ops);
		for(unsigned k = 0; k < n; ++k) {
			const OpDef& o = OPS[pool.empty() ? pick() : pool[g.below(pool.size())]];
			Line& l = p.add("op");
			l.set("t", t).set("fn", o.name).set("seed", g.next() >> 24);
			if(o.gen) o.gen(g, l, thorough);
		}
	}
	if(T > 1) {
		static const int64_t per[] = { 5, 20, 60, 200, 1000 };
		p.set_knob("rs_seed", (int64_t) (g.next() >> 24));
		p.set_knob("rs_period", per[g.below(5)]);
	}
}

struct OpsThread { const Plan* p; unsigned t; };
static void ops_thread(void* a) {
	OpsThread* c = (OpsThread*) a; unsigned k = 0;
	for(auto& l : c->p->lines) {
		const OpDef* o;
		{ Unwatched u; if(l.kind != "op" || (unsigned) l.num("t") != c->t) continue; o = find_op(l.str("fn")); set_context("%s", l.str("fn").c_str()); }
		if(!o) harness_error("unknown op");
		OpCall call(l, c->t, k++);
		o->run(call);
		event(call.result + c->t * 7919 + k);
	}
}
static void ops_body(const void* a) {
	const Plan& p = *(const Plan*) a;
	OpsThread cs[8]; int ids[8]; unsigned n;
	{
		Unwatched u;
		n = (unsigned) p.knob("threads", 1); if(n > 8) n = 8; if(n < 1) n = 1;
		apply_schedule(p);
		set_budget(OPSCFG.budget);
		for(unsigned i = 0; i < n; ++i) cs[i] = OpsThread{ &p, i };
	}
	for(unsigned i = 1; i < n; ++i) ids[i] = spawn(ops_thread, &cs[i]);
	ops_thread(&cs[0]);
	for(unsigned i = 1; i < n; ++i) join(ids[i]);
}
} // namespace sim

#define OPS_HARNESS \
	namespace sim { \
	void generate(Rng& g, Plan& p, bool thorough, uint64_t) { ops_generate(g, p, thorough); } \
	void run_plan(const Plan& p, Outcome& o) { run_child(ops_body, &p, (uint64_t) p.knob("salt", 1), o); } \
	std::string info() { return "\"operations\": " + std::to_string(NOPS); } \
	}
#endif
