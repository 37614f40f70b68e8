// C10: memory exhaustion at any point is reported and harms nothing.
#include "regrun.h"
namespace sim {
const char* PROPERTY = "C10"; const char* VARIANT = "default";
enum { K_OPS, K_CALLS, K_FAULTS, K_BAD, K_BURST, K_FOREVER, K_SURVIVED, K_RETRY, K_ALLOCS, K_OTHER, K_OBJECTS };
const char* CTR_NAMES[] = { "operations", "library_call_blocks", "allocation_failures_injected", "out_of_memory_reported", "failures_in_a_row", "memory_gone_for_good", "calls_that_coped", "retries_with_memory_back", "allocations_by_undisturbed_calls", "operations_in_other_threads", "half_changed_objects_used_again", nullptr };
const RegConfig REGCFG = { 3, 3, 0.3, 90000000 };
void reg_line(Rng& g, Line& l, bool thorough) { l.set("faults", (int64_t) g.range(2, thorough ? 8 : 5)).set("fseed", g.next() >> 30); }
void reg_after(Ctx& c) { count(K_OPS); if(c.thread) count(K_OTHER); }
std::string info() { return "\"operations\": " + std::to_string(NREG); }
void generate(Rng& g, Plan& p, bool thorough, uint64_t) { reg_generate(g, p, thorough); }
void run_plan(const Plan& p, Outcome& o) { RegBody b = { &p, -1 }; run_child(reg_body, &b, (uint64_t) p.knob("salt", 1), o); }
} // namespace sim
using namespace sim;
static thread_local uint64_t fired_before;
bool ctx_memory_back(Ctx&) { Unwatched u; uint64_t k = alloc_faults_fired(); if(!k) return false; fired_before += k; alloc_fault_at(0, 0); count(K_OBJECTS); return true; }
void ctx_call(Ctx& c, CallFn f, void* p) {
	uint64_t n0, n1, live, faults, fseed; int thrown = 0; int sent = errno;
	// undisturbed, twice: the first call may set up what lives on
	for(int i = 0; i < 2; ++i) {
		Dig d0; thrown = 0;
		try { f(p, d0); } catch(...) { thrown = 1; }
		errno = sent;
	}
	{ Unwatched u; n0 = alloc_count(); live = my_live(); }
	Dig d; thrown = 0;
	try { f(p, d); } catch(...) { thrown = 1; }
	{
		Unwatched u;
		n1 = alloc_count() - n0; count(K_CALLS); count(K_ALLOCS, n1);
		if(my_live() != live) VIOL("leak", "%s left %lld more blocks allocated", get_context(), (long long) (my_live() - live));
		c.inputs_unchanged("");
		faults = c.l.u64("faults", 1); fseed = c.l.u64("fseed");
		c.result = (c.result ^ d.h) * 0x100000001b3ull;
	}
	errno = sent;
	Rng g(fseed + c.calls);
	if(n1 == 0) return;
	for(uint64_t q = 0; q < faults; ++q) {
		uint64_t at, burst; int got = 0; Dig e; uint64_t fired;
		{
			Unwatched u;
			at = faults >= n1 ? q + 1 : 1 + g.below(n1); if(at > n1) break;
			switch(g.below(4)) { case 0: burst = 1 + g.below(3); break; case 1: burst = 1ull << 40; break; default: burst = 1; }
			alloc_fault_at(at, burst);
		}
		try { f(p, e); }
		catch(const std::bad_alloc&) { got = 1; }
		catch(...) { got = 2; }
		{
			Unwatched u;
			fired = alloc_faults_fired() + fired_before; fired_before = 0;
			alloc_fault_at(0, 0);
			count(K_FAULTS, fired); if(fired > 1) count(K_BURST); if(burst > 100 && fired) count(K_FOREVER);
			if(got == 1) count(K_BAD);
			if(got == 2) VIOL("wrong-exception", "allocation %llu of %llu failed in %s: an exception other than out-of-memory reached the caller", (unsigned long long) at, (unsigned long long) n1, get_context());
			if(got == 0 && fired) {
				if(e.h != d.h) VIOL("failure-not-reported", "allocation %llu of %llu failed in %s: the call returned normally with another result", (unsigned long long) at, (unsigned long long) n1, get_context());
				count(K_SURVIVED);
			}
			if(my_live() != live) VIOL("leak-on-failure", "allocation %llu of %llu failed in %s: %lld more blocks left allocated", (unsigned long long) at, (unsigned long long) n1, get_context(), (long long) (my_live() - live));
			c.inputs_unchanged(" when memory ran out");
		}
		errno = sent;
		Dig r; int again = 0;
		try { f(p, r); } catch(...) { again = 1; }
		Unwatched u;
		count(K_RETRY);
		if(again != thrown || r.h != d.h) VIOL("retry-differs", "after allocation %llu of %llu failed in %s, the same call with memory available gives another result", (unsigned long long) at, (unsigned long long) n1, get_context());
		if(my_live() != live) VIOL("leak", "%s left more blocks allocated", get_context());
		errno = sent;
	}
}
void ctx_fails(Ctx& c, unsigned, bool (*f)(void*, Dig&), void* p) { struct X { bool (*f)(void*, Dig&); void* p; } x = { f, p }; ctx_call(c, [](void* q, Dig& d) { X* y = (X*) q; y->f(y->p, d); }, &x); }
