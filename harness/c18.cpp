// C18: constant objects can be read by any number of threads at once.
#include "regrun.h"
namespace sim {
const char* PROPERTY = "C18"; const char* VARIANT = "default";
enum { K_OPS, K_READS, K_SHARED, K_THREADS };
const char* CTR_NAMES[] = { "operations", "concurrent_reads", "shared_objects", "reader_threads", nullptr };
const RegConfig REGCFG = { 1, 3, 0, 80000000 };
void reg_line(Rng& g, Line& l, bool) { l.set("readers", (int64_t) g.range(2, 4)); }
void reg_after(Ctx& c) { count(K_OPS); count(K_SHARED, c.watches.size()); }
std::string info() { return "\"operations\": " + std::to_string(NREG); }
void generate(Rng& g, Plan& p, bool thorough, uint64_t) {
	reg_generate(g, p, thorough);
	static const int64_t per[] = { 4, 12, 40, 150, 600 };
	p.set_knob("rs_seed", (int64_t) (g.next() >> 24)); p.set_knob("rs_period", per[g.below(5)]);
}
void run_plan(const Plan& p, Outcome& o) {
	RegBody b = { &p, -1 };
	if(!run_child(reg_body, &b, (uint64_t) p.knob("salt", 1), o)) return;
	reg_against_alone(p, o, 3);
}
} // namespace sim
using namespace sim;
struct Reader { CallFn f; void* p; Dig d; int before, after, thrown; };
static void read_once(void* a) {
	Reader* r = (Reader*) a; r->thrown = 0; r->d = Dig();
	errno = r->before;
	try { r->f(r->p, r->d); } catch(...) { r->thrown = 1; }
	r->after = errno;
}
static uint64_t seen(const Reader& r) { Dig d = r.d; if(r.thrown) d.raw(0xE0E0); if(r.after != r.before) d.raw((uint64_t) r.after + 1); return d.h; }
void ctx_call(Ctx& c, CallFn f, void* p) {
	unsigned n; int sent = errno;
	{ Unwatched u; n = (unsigned) c.l.num("readers", 1); if(n > 4) n = 4; if(c.solo) n = 1; }
	static thread_local unsigned spawned = 0;
	Reader r[4]; int ids[4];
	for(unsigned i = 0; i < n; ++i) { r[i].f = f; r[i].p = p; r[i].before = sent; }
	if(spawned + n > 48) n = 1;
	for(unsigned i = 1; i < n; ++i) { ids[i] = spawn(read_once, &r[i]); spawned++; }
	read_once(&r[0]);
	for(unsigned i = 1; i < n; ++i) join(ids[i]);
	{
		Unwatched u;
		count(K_READS, n); count(K_THREADS, n - 1);
		for(unsigned i = 1; i < n; ++i) if(seen(r[i]) != seen(r[0])) VIOL("readers-disagree", "two concurrent readers of the same constant object got different results in %s", get_context());
		c.inputs_unchanged(" while it was read");
	}
	// and once more alone
	if(n > 1) {
		Reader s; s.f = f; s.p = p; s.before = sent; read_once(&s);
		Unwatched u;
		if(seen(s) != seen(r[0])) VIOL("reader-differs-from-alone", "a concurrent reader got another result than a reader alone in %s", get_context());
		c.inputs_unchanged("");
	}
	Unwatched u;
	if(r[0].after != r[0].before) c.errors++;
	c.result = (c.result ^ seen(r[0])) * 0x100000001b3ull;
	errno = sent;
}
void ctx_fails(Ctx& c, unsigned, bool (*f)(void*, Dig&), void* p) { struct X { bool (*f)(void*, Dig&); void* p; } x = { f, p }; ctx_call(c, [](void* q, Dig& d) { X* y = (X*) q; y->f(y->p, d); }, &x); }
