// Plans over the registry of operations: threads, each a list of "op" lines.
#ifndef REGRUN_H
#define REGRUN_H
#include "ctx.h"
#include <typeinfo>
namespace sim {
struct RegConfig { unsigned max_threads, max_ops; double multi; uint64_t budget; };
extern const RegConfig REGCFG;
void reg_line(Rng& g, Line& l, bool thorough);   // extra attributes of an op line
void reg_after(Ctx& c);                          // after an operation (unwatched)

static inline void reg_generate(Rng& g, Plan& p, bool thorough) {
	unsigned T = g.chance(REGCFG.multi) ? (unsigned) g.range(2, REGCFG.max_threads) : 1;
	p.set_knob("threads", T); p.set_knob("salt", g.range(1, 1 << 30)); p.set_knob("block_rule", g.chance(0.5) ? g.range(1, 100000) : 0);
	p.set_knob("reuse", g.chance(0.5)); p.set_knob("errno", g.chance(0.5) ? 77 : 0);
	// a run concentrates on a few operations, often the same one
	unsigned few = g.chance(0.7) ? (unsigned) g.range(1, 3) : 0; std::vector<unsigned> pool;
	for(unsigned i = 0; i < few; ++i) pool.push_back((unsigned) g.below(NREG));
	std::vector<Line> done;
	for(unsigned t = 0; t < T; ++t) {
		unsigned n = (unsigned) g.range(1, REGCFG.max_ops);
		for(unsigned k = 0; k < n; ++k) {
			Line l; l.kind = "op";
			if(!done.empty() && g.chance(0.45)) {
				// a sibling: the same inputs but for one number, or the same call again
				l = g.of(done); l.set("t", t); if(g.chance(0.8)) l.set("tweak", (int64_t) g.range(1, 14));
			} else {
				l.set("t", t).set("fn", REG[pool.empty() ? g.below(NREG) : pool[g.below(pool.size())]].name).set("seed", g.next() >> 24);
			}
			reg_line(g, l, thorough);
			done.push_back(l); p.lines.push_back(l);
		}
	}
	if(T > 1) {
		static const int64_t per[] = { 5, 20, 60, 200, 1000 };
		p.set_knob("rs_seed", (int64_t) (g.next() >> 24)); p.set_knob("rs_period", per[g.below(5)]);
	}
}
struct RegThread { const Plan* p; unsigned t; int only; int sentinel; };
static void reg_thread(void* a) {
	RegThread* c = (RegThread*) a; unsigned k = 0, at = 0;
	for(auto& l : c->p->lines) {
		const RegOp* o; uint64_t seed, tweak;
		{
			Unwatched u;
			if(l.kind != "op") continue;
			unsigned me = at++;
			if(c->only >= 0 ? (int) me != c->only : (unsigned) l.num("t") != c->t) continue;
			o = reg_find(l.str("fn")); set_context("%s", l.str("fn").c_str());
			if(!o) harness_error("unknown op");
			seed = l.u64("seed"); tweak = l.u64("tweak"); k = me;
		}
		errno = c->sentinel;
		Ctx x(l, seed, tweak, c->t, k); x.solo = c->only >= 0;
		o->run(x);
		Unwatched u;
		reg_after(x);
		event(x.result + c->t * 7919 + k);
		if(k < MAX_REC) { OpRec& r = R->rec[k]; r.digest = x.result; r.err = (int) x.errors; r.status = (int) x.calls; if(R->nrec <= k) R->nrec = k + 1; }
	}
}
struct RegBody { const Plan* p; int only; };
static void reg_body(const void* a) {
	const RegBody* b = (const RegBody*) a; const Plan& p = *b->p;
	RegThread cs[8]; int ids[8]; unsigned n; int sent;
	{
		Unwatched u;
		n = b->only >= 0 ? 1 : (unsigned) p.knob("threads", 1); if(n > 8) n = 8; if(n < 1) n = 1;
		sent = (int) p.knob("errno", 0); if(b->only >= 0) sent = sent ? 0 : 77;
		if(b->only < 0) { apply_schedule(p); set_reuse(p.knob("reuse", 0) != 0); }
		else set_clock(1234567890123ull, 99991);
		set_budget(REGCFG.budget);
		for(unsigned i = 0; i < n; ++i) cs[i] = RegThread{ &p, i, b->only, sent };
	}
	for(unsigned i = 1; i < n; ++i) ids[i] = spawn(reg_thread, &cs[i]);
	reg_thread(&cs[0]);
	for(unsigned i = 1; i < n; ++i) join(ids[i]);
}
// every operation alone in a fresh process, with other dirty memory, clock and
// error indicator, must give what it gave in the run
static inline bool reg_against_alone(const Plan& p, Outcome& o, unsigned max_refs) {
	std::vector<OpRec> got(R->rec, R->rec + R->nrec);
	std::vector<const Line*> ls; for(auto& l : p.lines) if(l.kind == "op") ls.push_back(&l);
	// later operations first: they have the longest history behind them
	std::vector<std::string> seen; std::vector<OpRec> ref;
	unsigned refs = 0;
	for(size_t q = ls.size(); q-- > 0 && q < got.size(); ) {
		std::string key = ls[q]->str("fn") + " " + ls[q]->str("seed") + " " + ls[q]->str("tweak");
		OpRec r; bool have = false;
		for(size_t i = 0; i < seen.size(); ++i) if(seen[i] == key) { r = ref[i]; have = true; }
		if(!have) {
			if(refs >= max_refs) continue;
			RegBody s = { &p, (int) q };
			if(!run_child(reg_body, &s, (uint64_t) p.knob("salt", 1) + 77 + q, o)) return false;
			r = R->rec[q]; seen.push_back(key); ref.push_back(r); refs++;
		}
		if(r.digest != got[q].digest || r.status != got[q].status || r.err != got[q].err) {
			o.violated = true; o.cls = "differs-from-alone"; o.context = ls[q]->str("fn");
			o.detail = "operation " + std::to_string(q) + " (" + o.context + ") gave another result or error status than alone in a fresh process";
			return false;
		}
	}
	return true;
}
} // namespace sim
#endif
