// C14: errors are reported to exactly the caller that caused them.
#include "regrun.h"
namespace sim {
const char* PROPERTY = "C14";
#if defined(THEORETICA_ONLY_EXCEPTIONS)
const char* VARIANT = "only_exceptions"; enum { MODE = 2 };
#elif defined(THEORETICA_THROW_EXCEPTIONS)
const char* VARIANT = "exceptions"; enum { MODE = 1 };
#else
const char* VARIANT = "default"; enum { MODE = 0 };
#endif
enum { K_OPS, K_CALLS, K_FAIL, K_GOOD, K_OTHER, K_REPORTED, K_THROWN, K_KEPT };
const char* CTR_NAMES[] = { "operations", "call_blocks", "failing_calls", "valid_calls_at_the_border", "operations_in_other_threads", "errors_reported", "exceptions_caught", "earlier_reports_kept", nullptr };
const RegConfig REGCFG = { 4, 5, 0.7, 120000000 };
void reg_line(Rng&, Line&, bool) {}
void reg_after(Ctx& c) { count(K_OPS); if(c.thread) count(K_OTHER); }
std::string info() { return "\"operations\": " + std::to_string(NREG); }
void generate(Rng& g, Plan& p, bool thorough, uint64_t) {
	reg_generate(g, p, thorough);
	// mostly failing calls, next to calls that succeed
	std::vector<const char*> errs; for(unsigned i = 0; i < NREG; ++i) if(!strncmp(REG[i].name, "err_", 4)) errs.push_back(REG[i].name);
	for(auto& l : p.lines) if(l.kind == "op" && g.chance(0.6)) l.set("fn", errs[g.below(errs.size())]);
}
void run_plan(const Plan& p, Outcome& o) {
	RegBody b = { &p, -1 };
	if(!run_child(reg_body, &b, (uint64_t) p.knob("salt", 1), o)) return;
	reg_against_alone(p, o, 4);
}
} // namespace sim
using namespace sim;
struct Seen { uint64_t h; int err; int thrown; int code; bool result; };   // thrown: 0 no, 1 math_exception, 2 other
static Seen observe(bool (*f)(void*, Dig&), void* p, int before) {
	Seen s = { 0, 0, 0, 0, true }; Dig d;
	errno = before;
	try { s.result = f(p, d); }
#if defined(THEORETICA_THROW_EXCEPTIONS) || defined(THEORETICA_ONLY_EXCEPTIONS)
	catch(const math_exception& e) { int x = errno; s.thrown = 1; s.code = (int) e.err_code(); errno = x; }
#endif
	catch(...) { s.thrown = 2; }
	s.err = errno; s.h = d.h;
	return s;
}
// the documented indicator of each error code
static int errno_of(int code) { return code == DIV_BY_ZERO || code == OUT_OF_RANGE || code == NO_ALGO_CONVERGENCE ? ERANGE : code == INVALID_ARGUMENT ? EINVAL : EDOM; }
static bool known_errno(int e) { return e == EDOM || e == ERANGE || e == EINVAL; }
// what holds for every call, failing or not
static void report_rules(Ctx& c, const Seen& s, int before, const char* when) {
	const char* w = get_context();
	if(s.thrown == 2) VIOL("foreign-exception", "%s let an exception that is not its error report reach the caller%s", w, when);
	if(MODE == 0 && s.err != before && !known_errno(s.err)) VIOL("indicator-corrupted", "%s left the error indicator at %d (it was %d)%s", w, s.err, before, when);
	if(MODE == 1 && s.thrown == 1 && s.err != errno_of(s.code)) VIOL("indicator-and-exception-differ", "%s threw code %d and left the error indicator at %d%s", w, s.code, s.err, when);
	if(MODE == 1 && !s.thrown && s.err != before) VIOL("indicator-changed-without-report", "%s returned normally but changed the error indicator from %d to %d%s", w, before, s.err, when);
	if(MODE == 2 && s.err != before) VIOL("indicator-touched", "%s changed the error indicator from %d to %d in the exceptions-only configuration%s", w, before, s.err, when);
	if(s.thrown == 1 && !(s.code == 1 || s.code == 2 || s.code == 4 || s.code == 8 || s.code == 16 || s.code == 32)) VIOL("exception-without-code", "%s threw an exception with error code %d%s", w, s.code, when);
}
static bool clean(bool (*f)(void*, Dig&), void* p, Ctx& c, int mask) {
	int sent = errno, other = sent ? 0 : 77; uint64_t live2;
	Seen a = observe(f, p, sent);
	{
		Unwatched u; live2 = my_live();
		report_rules(c, a, sent, ""); c.inputs_unchanged(a.thrown ? " when it failed" : "");
	}
	Seen b = observe(f, p, other);
	{
		Unwatched u;
		report_rules(c, b, other, ""); c.inputs_unchanged("");
		if(my_live() != live2) VIOL("leak", "%s left %lld more blocks allocated", get_context(), (long long) (my_live() - live2));
		// the report does not depend on what the indicator said before
		bool ra = a.thrown || a.err != sent, rb = b.thrown || b.err != other;
		if(a.h != b.h || a.thrown != b.thrown || a.code != b.code || ra != rb || (ra && MODE < 2 && a.err != b.err)) VIOL("report-depends-on-indicator", "%s reported %d/%d with the indicator at %d and %d/%d with the indicator at %d", get_context(), a.err, a.code, sent, b.err, b.code, other);
		count(K_CALLS); if(ra) { count(K_REPORTED); c.errors++; } else if(sent || other) count(K_KEPT); if(a.thrown) count(K_THROWN);
		if(mask > 0) {
			count(K_FAIL);
			if(MODE == 0) {
				bool match = false; for(int m = 1; m <= 32; m <<= 1) if((mask & m) && a.err == errno_of(m)) match = true;
				if(!ra) VIOL("error-not-reported", "call %u of %s is outside its domain, but the error indicator is untouched", c.calls, get_context());
				if(!match) VIOL("wrong-error", "call %u of %s left the error indicator at %d instead of that of error code %d", c.calls, get_context(), a.err, mask);
				if(!a.result || !b.result) VIOL("wrong-result-of-failure", "call %u of %s reported its error but did not return the documented result", c.calls, get_context());
			} else {
				if(!a.thrown) VIOL("error-not-reported", "call %u of %s is outside its domain, but nothing was thrown", c.calls, get_context());
				if(!(a.code & mask)) VIOL("wrong-error", "call %u of %s threw error code %d instead of %d", c.calls, get_context(), a.code, mask);
			}
		}
		if(mask == 0) {
			count(K_GOOD);
			if(ra) VIOL("error-without-cause", "call %u of %s is inside its domain, but an error was reported (%d/%d)", c.calls, get_context(), a.err, a.code);
			if(!a.result) VIOL("wrong-result", "call %u of %s is inside its domain, but its result is not a number", c.calls, get_context());
		}
		Dig d; d.raw(a.h); d.raw(ra); d.raw(a.thrown); d.raw(a.code); if(ra && MODE < 2) d.raw(a.err);
		c.result = (c.result ^ d.h) * 0x100000001b3ull;
	}
	errno = sent;
	return true;
}
void ctx_call(Ctx& c, CallFn f, void* p) {
	struct X { CallFn f; void* p; } x = { f, p };
	clean([](void* q, Dig& d) { X* y = (X*) q; y->f(y->p, d); return true; }, &x, c, -1);
}
void ctx_fails(Ctx& c, unsigned mask, bool (*f)(void*, Dig&), void* p) { clean(f, p, c, (int) mask); }
