// C02: calls on independent data never interfere.
#include "regrun.h"
namespace sim {
#ifdef SIM_ZONES
} extern "C" { int sim_stack_zones = 1; } namespace sim {
const char* PROPERTY = "C02"; const char* VARIANT = "zones";
#else
const char* PROPERTY = "C02"; const char* VARIANT = "default";
#endif
enum { K_OPS, K_CALLS, K_ERR, K_REUSED, K_SIB, K_MULTI, K_THROWN };
const char* CTR_NAMES[] = { "operations", "library_call_blocks", "calls_that_reported_an_error", "blocks_reusing_freed_memory", "siblings_differing_in_one_number", "operations_beside_other_threads", "exceptions", nullptr };
const RegConfig REGCFG = { 4, 6, 0.6, 60000000 };
void reg_line(Rng&, Line&, bool) {}
void reg_after(Ctx& c) { count(K_OPS); count(K_CALLS, c.calls); count(K_ERR, c.errors); if(c.tweak) count(K_SIB); }
std::string info() { return "\"operations\": " + std::to_string(NREG); }
void generate(Rng& g, Plan& p, bool thorough, uint64_t) { reg_generate(g, p, thorough); }
static void body(const void* a) {
	reg_body(a);
	Unwatched u; const RegBody* b = (const RegBody*) a;
	if(b->only < 0) { if(reused_blocks()) count(K_REUSED, reused_blocks()); if(b->p->knob("threads", 1) > 1) count(K_MULTI); }
}
void run_plan(const Plan& p, Outcome& o) {
	RegBody b = { &p, -1 };
	if(!run_child(body, &b, (uint64_t) p.knob("salt", 1), o)) return;
	reg_against_alone(p, o, 8);
}
} // namespace sim
using namespace sim;
void ctx_call(Ctx& c, CallFn f, void* p) {
	int before; uint64_t env, tag; int thrown = 0;
	{ Unwatched u; env = fp_env(); tag = fp_tag(); }
	before = errno;
	Dig d;
	try { f(p, d); } catch(...) { thrown = 1; }
	int after = errno;
	Unwatched u;
	if(thrown) { count(K_THROWN); d.raw(0xE0E0); }
	if(fp_env() != env) VIOL("fp-environment", "%s changed the floating-point environment", get_context());
	if(fp_tag() != tag) VIOL("fp-stack", "%s left values on the floating-point register stack", get_context());
	c.inputs_unchanged("");
	// error status: what the indicator says, however it stood before
	if(after != before) { d.raw((uint64_t) after + 1); c.errors++; }
	c.result = (c.result ^ d.h) * 0x100000001b3ull;
	errno = before;
}
void ctx_fails(Ctx& c, unsigned, bool (*f)(void*, Dig&), void* p) { struct X { bool (*f)(void*, Dig&); void* p; } x = { f, p }; ctx_call(c, [](void* q, Dig& d) { X* y = (X*) q; y->f(y->p, d); }, &x); }
