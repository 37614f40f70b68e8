// C19: algorithms are re-entrant. At a chosen evaluation of its function, an
// algorithm finds that function calling the library itself: the same operation
// on other data, another algorithm, or any operation, possibly two levels deep.
#include "regrun.h"
#include "users.h"
namespace sim {
const char* PROPERTY = "C19"; const char* VARIANT = "default";
enum { K_OPS, K_CALLS, K_EVALS, K_INNER, K_SAME, K_DEEP, K_FIRST, K_LAST, K_IERR, K_OTHER };
const char* CTR_NAMES[] = { "operations", "algorithm_call_blocks", "undisturbed_evaluations", "operations_made_inside_a_function", "inner_operations_of_the_same_kind", "operations_two_levels_deep", "inner_at_the_first_evaluation", "inner_at_the_last_evaluation", "inner_operations_reporting_errors", "operations_in_other_threads", nullptr };
const RegConfig REGCFG = { 3, 3, 0.3, 150000000 };
void reg_line(Rng& g, Line& l, bool thorough) { l.set("times", (int64_t) g.range(1, thorough ? 6 : 4)).set("nseed", g.next() >> 30); }
void reg_after(Ctx& c) { count(K_OPS); if(c.thread) count(K_OTHER); }
std::string info() { return "\"operations\": " + std::to_string(NREG); }
void generate(Rng& g, Plan& p, bool thorough, uint64_t) { reg_generate(g, p, thorough); users_only(g, p); }
void run_plan(const Plan& p, Outcome& o) { RegBody b = { &p, -1 }; run_child(reg_body, &b, (uint64_t) p.knob("salt", 1), o); }
} // namespace sim
using namespace sim;
// An inner operation. Level 0 is outside every function.
struct Inner { const RegOp* op; uint64_t seed, tweak; const Line* line; uint64_t digest; unsigned errors; bool done; int err_out; };
struct Nest { Inner in[2]; unsigned levels; uint64_t at2; };
static thread_local Nest* NEST; static thread_local unsigned level;
static void run_inner();
static uint64_t inner_op(Inner& q, unsigned& errors) {
	char was[96]; { Unwatched u; snprintf(was, sizeof was, "%s", get_context()); set_context("%s inside %s", q.op->name, was); }
	Ctx x(*q.line, q.seed, q.tweak, 0, 0); level++; q.op->run(x); level--;
	Unwatched u; set_context("%s", was); errors = x.errors; return x.result;
}
// called by the user function of the algorithm at its chosen evaluation
static void run_inner() {
	int e = errno; CbState s; Inner* q; unsigned me; uint64_t live;
	{ Unwatched u; s = cbs; cbs = CbState(); me = level - 1; q = &NEST->in[me]; if(me + 1 < NEST->levels) { cbs.armed = true; cbs.at = NEST->at2; cbs.inner = run_inner; } live = my_live(); }
	uint64_t r; unsigned er; errno = 0; r = inner_op(*q, er);
	{
		Unwatched u;
		q->done = true; count(K_INNER); if(er) count(K_IERR); if(me) count(K_DEEP);
		if(r != q->digest || er != q->errors) VIOL("inner-differs", "%s, made by the function of %s, gave another result or error status than on its own", q->op->name, get_context());
		if(my_live() != live) VIOL("leak", "%s inside %s left %lld more blocks allocated", q->op->name, get_context(), (long long) (my_live() - live));
		cbs = s;
	}
	errno = e;
}
static int outcome(CallFn f, void* p, Dig& d) { try { f(p, d); } catch(...) { return 1; } return 0; }
void ctx_call(Ctx& c, CallFn f, void* p) {
	if(level) {
		// inside a function: just the call and its error status
		errno = 0; Dig d; int t = outcome(f, p, d); int e = errno;
		Unwatched u; c.inputs_unchanged(" inside a function"); d.raw((uint64_t) t); d.raw((uint64_t) e); if(e) c.errors++; c.result = (c.result ^ d.h) * 0x100000001b3ull; return;
	}
	uint64_t n; int sent = errno, base; Dig d; { Dig d0; { Unwatched u; cbs = CbState(); } outcome(f, p, d0); errno = sent; }
	{ Unwatched u; cbs = CbState(); }
	base = outcome(f, p, d); int err0 = errno == sent ? 0 : errno; errno = sent;
	uint64_t times, nseed, live;
	{ Unwatched u; n = cbs.seen; live = my_live(); count(K_CALLS); count(K_EVALS, n); c.inputs_unchanged(""); times = c.l.u64("times", 1); nseed = c.l.u64("nseed"); c.result = (c.result ^ d.h) * 0x100000001b3ull; }
	if(n == 0) return;
	Rng g(nseed + c.calls * 977);
	for(uint64_t q = 0; q < times; ++q) {
		Nest nest; Dig e; int t;
		{
			Unwatched u;
			nest.levels = g.chance(0.3) ? 2 : 1; nest.at2 = 1 + g.below(g.chance(0.5) ? 3 : 30);
			for(unsigned i = 0; i < 2; ++i) {
				Inner& w = nest.in[i]; w.op = reg_find(c.l.str("fn")); w.seed = c.seed; w.tweak = 1 + g.below(14); w.line = &c.l; w.done = false;
				uint64_t r = g.below(10); if(r >= 5) { w.seed = g.next() >> 24; w.tweak = 0; } else count(K_SAME);
				if(r >= 7) w.op = r == 9 ? &REG[g.below(NREG)] : users_any(g);
			}
		}
		// what the inner operations give on their own
		for(unsigned i = 0; i < nest.levels; ++i) {
			{ Unwatched u; cbs = CbState(); }
			Inner& w = nest.in[i]; errno = 0; { unsigned e0; inner_op(w, e0); } unsigned er; uint64_t r = inner_op(w, er); Unwatched u; w.digest = r; w.errors = er; w.done = false;
		}
		{
			Unwatched u;
			cbs = CbState(); cbs.armed = true; cbs.inner = run_inner; uint64_t r = g.below(8); cbs.at = r == 0 ? 1 : r == 1 ? n : 1 + g.below(n);
			if(cbs.at == 1) count(K_FIRST); if(cbs.at == n) count(K_LAST); live = my_live();
		}
		NEST = &nest; errno = sent;
		{ struct Lv { Lv() { level = 1; } ~Lv() { level = 0; } } lv; t = outcome(f, p, e); }
		int err1 = errno == sent ? 0 : errno; errno = sent;
		Unwatched u; CbState s = cbs; cbs = CbState(); NEST = nullptr;
		if(!s.fired || s.seen != n) VIOL("evaluations-differ", "%s evaluated its function %llu times on its own and %llu times when evaluation %llu called %s", get_context(), (unsigned long long) n, (unsigned long long) s.seen, (unsigned long long) s.at, nest.in[0].op->name);
		if(t != base || e.h != d.h || err1 != err0) VIOL("outer-differs", "%s gave another result or error status because evaluation %llu of %llu called %s", get_context(), (unsigned long long) s.at, (unsigned long long) n, nest.in[0].op->name);
		if(my_live() != live) VIOL("leak", "%s left %lld more blocks allocated after an evaluation called %s", get_context(), (long long) (my_live() - live), nest.in[0].op->name);
		c.inputs_unchanged(" when its function used the library");
	}
}
void ctx_fails(Ctx& c, unsigned, bool (*f)(void*, Dig&), void* p) { struct X { bool (*f)(void*, Dig&); void* p; } x = { f, p }; ctx_call(c, [](void* q, Dig& d) { X* y = (X*) q; y->f(y->p, d); }, &x); }
