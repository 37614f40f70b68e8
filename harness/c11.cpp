// C11: an exception thrown by user code passes through every algorithm cleanly.
#include "regrun.h"
#include "users.h"
namespace sim {
const char* PROPERTY = "C11"; const char* VARIANT = "default";
enum { K_OPS, K_CALLS, K_EVALS, K_THROWN, K_FIRST, K_LAST, K_RETRY, K_OTHER };
const char* CTR_NAMES[] = { "operations", "algorithm_call_blocks", "undisturbed_evaluations", "exceptions_thrown_by_user_code", "thrown_at_the_first_evaluation", "thrown_at_the_last_evaluation", "runs_after_an_exception", "operations_in_other_threads", nullptr };
const RegConfig REGCFG = { 3, 3, 0.3, 120000000 };
void reg_line(Rng& g, Line& l, bool thorough) { l.set("faults", (int64_t) g.range(2, thorough ? 8 : 5)).set("fseed", g.next() >> 30); }
void reg_after(Ctx& c) { count(K_OPS); if(c.thread) count(K_OTHER); }
std::string info() { return "\"operations\": " + std::to_string(NREG); }
void generate(Rng& g, Plan& p, bool thorough, uint64_t) { reg_generate(g, p, thorough); users_only(g, p); }
void run_plan(const Plan& p, Outcome& o) { RegBody b = { &p, -1 }; run_child(reg_body, &b, (uint64_t) p.knob("salt", 1), o); }
} // namespace sim
using namespace sim;
// which exception arrived: 0 none, 1 exactly the one thrown, 2 another
static int arrived(CallFn f, void* p, Dig& d, int kind) {
	try { f(p, d); }
	catch(const SimFault& e) { return kind == 0 && e.id == 4711 ? 1 : 2; }
	catch(const SimError&) { return kind == 1 ? 1 : 2; }
	catch(const std::invalid_argument& e) { return kind == 4 && std::string(e.what()) == "simulated" ? 1 : 2; }
	catch(const std::bad_alloc&) { return kind == 3 ? 1 : 2; }
	catch(int i) { return kind == 2 && i == 4711 ? 1 : 2; }
	catch(const std::string& s) { return kind == 5 && s == "simulated" ? 1 : 2; }
	catch(...) { return 2; }
	return 0;
}
void ctx_call(Ctx& c, CallFn f, void* p) {
	uint64_t n, live, faults, fseed; int sent = errno;
	for(int i = 0; i < 2; ++i) { Dig d0; cbs = CbState(); arrived(f, p, d0, -1); errno = sent; }
	Dig d; int base;
	{ Unwatched u; cbs = CbState(); live = my_live(); }
	base = arrived(f, p, d, -1);
	int err0 = errno == sent ? 0 : errno;
	{
		Unwatched u;
		n = cbs.seen; count(K_CALLS); count(K_EVALS, n);
		if(my_live() != live) VIOL("leak", "%s left %lld more blocks allocated", get_context(), (long long) (my_live() - live));
		c.inputs_unchanged("");
		faults = c.l.u64("faults", 1); fseed = c.l.u64("fseed");
		c.result = (c.result ^ d.h) * 0x100000001b3ull;
	}
	errno = sent;
	if(n == 0 || base) return;
	Rng g(fseed + c.calls);
	for(uint64_t q = 0; q < faults; ++q) {
		Dig e; int kind, got; CbState s;
		{
			Unwatched u;
			cbs = CbState(); cbs.armed = true; kind = cbs.kind = (int) g.below(6);
			uint64_t r = g.below(10); cbs.at = r == 0 ? 1 : r == 1 ? n : 1 + g.below(n);
			if(cbs.at == 1) count(K_FIRST); if(cbs.at == n) count(K_LAST);
		}
		got = arrived(f, p, e, kind);
		{
			Unwatched u;
			s = cbs; cbs = CbState();
			unsigned long long at = s.at, m = n;
			if(!s.fired) VIOL("evaluations-differ", "%s evaluated its function fewer than %llu times on a repetition", get_context(), at);
			count(K_THROWN);
			if(got == 0) VIOL("exception-swallowed", "the function threw at evaluation %llu of %llu in %s, but the call returned normally", at, m, get_context());
			if(got == 2) VIOL("exception-replaced", "the function threw at evaluation %llu of %llu in %s, but another exception reached the caller", at, m, get_context());
			if(s.after) VIOL("evaluated-after-exception", "the function threw at evaluation %llu of %llu in %s and was evaluated %llu more times", at, m, get_context(), (unsigned long long) s.after);
			if(my_live() != live) VIOL("leak-on-exception", "the function threw at evaluation %llu of %llu in %s: %lld more blocks left allocated", at, m, get_context(), (long long) (my_live() - live));
			c.inputs_unchanged(" when the function threw");
		}
		errno = sent;
		Dig r; int again = arrived(f, p, r, -1);
		int err1 = errno == sent ? 0 : errno;
		Unwatched u;
		count(K_RETRY);
		if(again || r.h != d.h || err1 != err0 || cbs.seen != n) VIOL("rerun-differs", "after the function threw at evaluation %llu in %s, a run with a healthy function gives another result", (unsigned long long) s.at, get_context());
		if(my_live() != live) VIOL("leak", "%s left more blocks allocated", get_context());
		errno = sent;
	}
}
void ctx_fails(Ctx& c, unsigned, bool (*f)(void*, Dig&), void* p) { struct X { bool (*f)(void*, Dig&); void* p; } x = { f, p }; ctx_call(c, [](void* q, Dig& d) { X* y = (X*) q; y->f(y->p, d); }, &x); }
