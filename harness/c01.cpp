// C01: parallel element-wise evaluation equals sequential evaluation.
#include "common.h"
#include "dig.h"
#include <map>
#include <cmath>
using namespace theoretica;
namespace th = theoretica;
using sim::Rng; using sim::Plan; using sim::Line;

namespace sim {
const char* PROPERTY = "C01"; const char* VARIANT = "default";
enum { K_OPS, K_ELEMS, K_LARGE, K_EMPTY, K_FEWER, K_SHARED_IN, K_FEWER_GRANTED, K_CB };
const char* CTR_NAMES[] = { "parallel_calls", "elements", "large_vectors", "empty_or_single_vectors", "fewer_elements_than_threads", "input_shared_between_callers", "reduced_team_configured", "callback_evaluations", nullptr };
std::string info();
}

// ---- element generators
static double gen_real(Rng& g, int cls) {
	switch(cls) {
		case 0: return g.real(0.01, 0.99);
		case 1: return g.real(0.1, 40);
		case 2: return g.real(-6, 6);
		case 3: { static const double sp[] = { 0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 1e-300, 16.0, 100.0, -100.0, 0.25, 4.0, 1e-9, 3.0 };
			return g.chance(0.3) ? sp[g.below(14)] : g.real(-2, 2); }
		case 5: { static const double sp[] = { NAN, INFINITY, -INFINITY, 1e300, -1e300, 1e18, 5e-324, -1e-310, 1e5, -0.0 };
			return g.chance(0.4) ? sp[g.below(10)] : g.real(-2, 2); }
		default: return std::floor(g.real(1, 30));
	}
}
template<typename T> struct Gen;
template<> struct Gen<double> { static double make(Rng& g, int c) { return gen_real(g, c); } };
template<> struct Gen<complex<real>> { static complex<real> make(Rng& g, int c) { double a = gen_real(g, c); double b = gen_real(g, c); return complex<real>(a, b); } };
template<> struct Gen<dual> { static dual make(Rng& g, int c) { double a = gen_real(g, c); double b = gen_real(g, 2); return dual(a, b); } };
template<> struct Gen<dual2> { static dual2 make(Rng& g, int c) { double a = gen_real(g, c), b = gen_real(g, 2), d = gen_real(g, 2); return dual2(a, b, d); } };
template<> struct Gen<multidual<2>> { static multidual<2> make(Rng& g, int c) { double a = gen_real(g, c); vec<real, 2> v; v[0] = gen_real(g, 2); v[1] = gen_real(g, 2); return multidual<2>(a, v); } };

template<typename V> struct Maker { static V make(size_t n, Rng& g, int c) { V v; v.resize(n); for(size_t i = 0; i < n; ++i) v[i] = Gen<typename std::decay<decltype(v[0])>::type>::make(g, c); return v; } };
template<typename T, unsigned N> struct Maker<vec<T, N>> { static vec<T, N> make(size_t n, Rng& g, int c) { vec<T, N> v; if(N == 0) v.resize(n); for(size_t i = 0; i < v.size(); ++i) v[i] = Gen<T>::make(g, c); return v; } };

struct Arg { int n; double x; };

// exactly-once log for user functions
static unsigned* cb_log = nullptr; static unsigned cb_max = 0;
static void cb_note(unsigned k) { sim::Unwatched u; sim::count(sim::K_CB); if(k < cb_max) cb_log[k]++; }

#define PF(NAME) struct P_##NAME { \
	template<typename V> static V par(const V& v, const Arg&) { return parallel::NAME(v); } \
	template<typename T> static T seq(const T& x, const Arg&) { return th::NAME(x); } };
PF(square) PF(cube) PF(abs) PF(sqrt) PF(cbrt) PF(exp) PF(ln) PF(log2) PF(log10) PF(sin) PF(cos) PF(tan) PF(cot)
PF(asin) PF(acos) PF(atan) PF(sinh) PF(cosh) PF(tanh) PF(coth)
struct P_pow { template<typename V> static V par(const V& v, const Arg& a) { return parallel::pow(v, a.n); }
	template<typename T> static T seq(const T& x, const Arg& a) { return th::pow(x, a.n); } };
struct P_powf { template<typename V> static V par(const V& v, const Arg& a) { return parallel::powf(v, a.x); }
	template<typename T> static T seq(const T& x, const Arg& a) { return th::powf(x, a.x); } };

static double user_f(double x) { return x * x + 0.25 * x - 1.0; }
struct P_apply { template<typename V> static V par(const V& v, const Arg&) { return parallel::apply_function([](const typename std::decay<decltype(v[0])>::type& x) { return x * x + x; }, v); }
	template<typename T> static T seq(const T& x, const Arg&) { return x * x + x; } };
struct P_applyptr { template<typename V> static V par(const V& v, const Arg&) { return parallel::apply_function(user_f, v); }
	template<typename T> static T seq(const T& x, const Arg&) { return user_f(x); } };

struct Task { const Line* l; unsigned max_threads; };
typedef void (*op_fn)(const Task&, uint64_t& result);

template<typename F, typename V> static void op_run(const Task& t, uint64_t& result) {
	const Line& l = *t.l;
	size_t n; int cls; uint64_t seed; Arg a;
	V in, keep;
	{
		sim::Unwatched u;
		n = (size_t) l.num("n"); cls = (int) l.num("cls"); seed = l.u64("seed");
		a.n = (int) l.num("pn", 2); a.x = l.num("px", 150) / 100.0;
		sim::count(sim::K_OPS);
	}
	{ Rng g(seed); in = Maker<V>::make(n, g, cls); }
	keep = in;
	{
		sim::Unwatched u;
		n = in.size();
		sim::count(sim::K_ELEMS, n);
		if(n > 2000) sim::count(sim::K_LARGE);
		if(n <= 1) sim::count(sim::K_EMPTY);
		if(n > 1 && n < t.max_threads) sim::count(sim::K_FEWER);
		sim::set_context("%s over %s", l.str("fn").c_str(), l.str("ty").c_str());
	}
	V out = F::par(in, a);
	sim::Unwatched u;
	if(out.size() != n) sim::violation("wrong-length", "parallel %s over %s: %zu elements in, %zu out", l.str("fn").c_str(), l.str("ty").c_str(), n, (size_t) out.size());
	uint64_t h = 0;
	for(size_t i = 0; i < n; ++i) {
		uint64_t d = dig(out[i]);
		uint64_t e = dig(typename std::decay<decltype(out[i])>::type(F::seq(keep[i], a)));
		if(dig(in[i]) != dig(keep[i])) sim::violation("input-changed", "parallel %s over %s changed element %zu of its input", l.str("fn").c_str(), l.str("ty").c_str(), i);
		if(d != e) sim::violation("wrong-element", "parallel %s over %s: element %zu of %zu differs from the sequential function", l.str("fn").c_str(), l.str("ty").c_str(), i, n);
		h = h * 31 + d;
	}
	result = h;
}

// user function that counts its evaluations (exactly once per element); every
// few elements it gives a value that is not finite, negative or zero
static double once_f(double x, int64_t every) {
	if(every && (int64_t) x % every == 0) switch((int64_t) x / every % 5) { case 0: return NAN; case 1: return INFINITY; case 2: return -INFINITY; case 3: return 0; default: return -1e300; }
	return 3 * x + 1;
}
static void op_once(const Task& t, uint64_t& result) {
	const Line& l = *t.l;
	size_t n; int64_t every; { sim::Unwatched u; n = (size_t) l.num("n"); every = l.num("every", 0); sim::count(sim::K_OPS); sim::count(sim::K_ELEMS, n); sim::set_context("apply_function counted"); }
	vec<real> in; in.resize(n);
	for(size_t i = 0; i < n; ++i) in[i] = (double) i;
	unsigned* log; { sim::Unwatched u; log = new unsigned[n + 1](); }
	vec<real> out = parallel::apply_function([log, n, every](real x) { { sim::Unwatched u; sim::count(sim::K_CB); if(x >= 0 && x < (double) n) log[(size_t) x]++; else sim::violation("wrong-argument", "user function called with a value that is not an element"); } return once_f(x, every); }, in);
	sim::Unwatched u;
	if(out.size() != n) sim::violation("wrong-length", "parallel apply_function: %zu in, %zu out", n, (size_t) out.size());
	uint64_t h = 0;
	for(size_t i = 0; i < n; ++i) {
		if(log[i] != 1) sim::violation("not-once", "element %zu of %zu was evaluated %u times", i, n, log[i]);
		if(dig(out[i]) != dig(once_f((double) i, every))) sim::violation("wrong-element", "apply_function counted: element %zu of %zu", i, n);
		h = h * 31 + dig(out[i]);
	}
	result = h;
}

struct Entry { const char* fn; const char* ty; op_fn run; };
#define VR vec<real>
#define SV std::vector<real>
#define V8 vec<real, 8>
#define VC vec<complex<real>>
#define VD vec<dual>
#define VD2 vec<dual2>
#define VM vec<multidual<2>>
#define E1(N, T) { #N, #T, op_run<P_##N, T> },
#define REALS(N) E1(N, VR) E1(N, SV) E1(N, V8)
#define DUALS(N) E1(N, VD) E1(N, VD2) E1(N, VM)
static const Entry entries[] = {
	REALS(square) REALS(cube) REALS(abs) REALS(sqrt) REALS(cbrt) REALS(exp) REALS(ln) REALS(log2) REALS(log10)
	REALS(sin) REALS(cos) REALS(tan) REALS(cot) REALS(asin) REALS(acos) REALS(atan) REALS(sinh) REALS(cosh) REALS(tanh) REALS(coth)
	REALS(pow) REALS(powf) REALS(apply) REALS(applyptr)
	E1(square, VC) E1(cube, VC) E1(exp, VC) E1(sin, VC) E1(cos, VC) E1(tan, VC) E1(sqrt, VC) E1(ln, VC) E1(asin, VC) E1(acos, VC) E1(atan, VC) E1(pow, VC) E1(apply, VC)
	DUALS(square) DUALS(cube) DUALS(sqrt) DUALS(sin) DUALS(cos) DUALS(tan) DUALS(exp) DUALS(ln) DUALS(asin) DUALS(atan) E1(pow, VD) E1(pow, VD2) DUALS(log2) DUALS(log10) E1(abs, VD) E1(abs, VD2)
	E1(sinh, VD) E1(cosh, VD) E1(tanh, VD) E1(apply, VD) E1(apply, VM)
	{ "once", "VR", op_once }, { "once", "VR", op_once }, { "once", "VR", op_once },
};
static const size_t NENT = sizeof entries / sizeof entries[0];
static const Entry* find_entry(const std::string& fn, const std::string& ty) {
	for(auto& e : entries) if(fn == e.fn && ty == e.ty) return &e;
	return nullptr;
}

namespace sim {

std::string info() { return "\"parallel_function_variants\": " + std::to_string(NENT); }

void generate(Rng& g, Plan& p, bool thorough, uint64_t idx) {
	unsigned maxt = (unsigned) (g.chance(0.1) ? 1 : g.range(2, g.chance(0.2) ? 12 : 6));
	bool large = g.chance(thorough ? 0.08 : 0.05);
	unsigned callers = large ? 1 : (g.chance(0.6) ? 1 : (unsigned) g.range(2, 3));
	p.set_knob("threads", maxt);
	p.set_knob("team_seed", g.chance(0.4) ? g.range(1, 1000000) : 0);
	p.set_knob("pool", g.chance(0.85));
	p.set_knob("salt", g.range(1, 1 << 30));
	p.set_knob("callers", callers);
	p.set_knob("block_rule", g.chance(0.5) ? g.range(1, 100000) : 0);
	unsigned ops = large ? 1 : (unsigned) g.range(1, callers > 1 ? 3 : 4);
	for(unsigned c = 0; c < callers; ++c)
		for(unsigned k = 0; k < ops; ++k) {
			const Entry& e = entries[g.below(NENT)];
			Line& l = p.add("op");
			l.set("c", c).set("fn", e.fn).set("ty", e.ty);
			int64_t n;
			if(large) n = g.range(2001, g.chance(0.3) ? 20000 : 6000);
			else switch(g.below(6)) {
				case 0: n = g.range(0, 3); break;
				case 1: n = g.range(0, 2 * maxt); break;
				case 2: n = maxt * g.range(1, 5) + g.range(-1, 1); break;
				case 3: n = g.range(1, 120); break;
				case 4: n = (int64_t) 1 << g.range(0, 8); n += g.range(-1, 1); break;
				default: n = g.range(1, 40);
			}
			l.set("n", n);
			int64_t cls = (int64_t) g.below(6);
			if((cls == 3 || cls == 5) && l.str("fn") == "powf") cls = 1;   // powf(0, x) does not return (see DESIGN.md)
			l.set("cls", cls);
			l.set("seed", g.next() >> 20);
			if(l.str("fn") == "once" && g.chance(0.5)) l.set("every", g.range(1, 9));
			l.set("pn", g.range(-3, 6)); l.set("px", g.range(-250, 350));
		}
	static const int64_t per[] = { 3, 10, 30, 100, 400, 2000 };
	p.set_knob("rs_seed", (int64_t) (g.next() >> 24));
	p.set_knob("rs_period", large ? 3000 : per[g.below(6)]);
}

struct Caller { const Plan* p; unsigned c; unsigned maxt; };
static void caller_main(void* a) {
	Caller* c = (Caller*) a;
	unsigned k = 0;
	for(auto& l : c->p->lines) {
		const Entry* e; uint64_t res = 0;
		{ Unwatched u; if(l.kind != "op" || (unsigned) l.num("c") != c->c) continue; e = find_entry(l.str("fn"), l.str("ty")); }
		if(!e) harness_error("unknown op");
		Task t = { &l, c->maxt };
		e->run(t, res);
		event(res + c->c * 1000 + k++);
	}
}
static void body(const void* a) {
	const Plan& p = *(const Plan*) a;
	Caller cs[8]; int ids[8]; unsigned n;
	{
		Unwatched u;
		n = (unsigned) p.knob("callers", 1); if(n > 8) n = 8; if(n < 1) n = 1;
		unsigned mt = (unsigned) p.knob("threads", 2);
		omp_config(mt, (unsigned) p.knob("team_seed", 0), (unsigned) p.knob("pool", 1));
		if(p.knob("team_seed", 0)) count(K_FEWER_GRANTED);
		apply_schedule(p);
		set_budget(60000000);
		for(unsigned i = 0; i < n; ++i) cs[i] = Caller{ &p, i, mt };
	}
	for(unsigned i = 1; i < n; ++i) ids[i] = spawn(caller_main, &cs[i]);
	caller_main(&cs[0]);
	for(unsigned i = 1; i < n; ++i) join(ids[i]);
}
void run_plan(const Plan& p, Outcome& o) { run_child(body, &p, (uint64_t) p.knob("salt", 1), o); }

} // namespace sim
