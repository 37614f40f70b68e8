// Registry of library operations shared by the checks of C02, C10, C11, C14
// and C18. An operation builds its inputs from its seed, names the inputs that
// must stay unchanged and makes its library calls through Ctx::call; what
// happens around a call (faults, neighbours, readers) is up to the harness.
#ifndef CTX_H
#define CTX_H
#include "ops.h"
#include <sstream>

// ---- user functions: every evaluation passes through cb_tick()
struct CbState { uint64_t seen = 0, at = 0, after = 0; bool armed = false, fired = false; int kind = 0; void (*inner)() = nullptr; };
extern thread_local CbState cbs;
struct SimFault { int id; };
struct SimError : std::runtime_error { SimError() : std::runtime_error("simulated failure of user code") {} };
void cb_throw(int kind);
static inline void cb_tick() {
	bool thr = false; int k = 0; void (*in)() = nullptr;
	{ Unwatched u; cbs.seen++; if(cbs.fired) cbs.after++; if(cbs.armed && !cbs.fired && cbs.seen == cbs.at) { cbs.fired = true; in = cbs.inner; thr = !in; k = cbs.kind; } }
	if(thr) cb_throw(k);
	if(in) in();
}
// a family of smooth real functions; kinds 6 and 7 call back into the library
struct F1 {
	double a, b, c; int kind;
	double operator()(double x) const {
		cb_tick();
		switch(kind) {
			case 0: return a + b * x + c * x * x;
			case 1: return a * th::sin(b * x) + c;
			case 2: return th::exp(-b * b * x * x) * a + c;
			case 3: return x * x * x - a * x - c;
			case 4: return a / (1 + x * x) + b * x;
			case 5: return a * th::cos(x) - c * x;
			case 6: return a * integral_simpson([this](real t) { return t * b + c; }, 0, x, 4) + b;
			default: return deriv_central([this](real t) { return a * t * t + b * t; }, x) + c;
		}
	}
};

typedef void (*CallFn)(void*, Dig&);
struct Ctx;
void ctx_call(Ctx& c, CallFn f, void* p);
bool ctx_memory_back(Ctx& c);    // whether the harness had made memory scarce; it is not from here on
void ctx_fails(Ctx& c, unsigned mask, bool (*f)(void*, Dig&), void* p);

struct Ctx {
	const Line& l; uint64_t seed; Rng g; uint64_t tweak, drawn = 0; unsigned thread, index;
	struct Watch { const void* p; uint64_t (*digest)(const void*); uint64_t before; };
	std::vector<Watch> watches;      // harness memory
	uint64_t result = 0xcbf29ce484222325ull; unsigned calls = 0;
	bool solo = false;               // reference run, alone in its process
	unsigned errors = 0;             // calls that reported an error
	Ctx(const Line& l, uint64_t seed, uint64_t tweak, unsigned t, unsigned k) : l(l), seed(seed), g(seed), tweak(tweak), thread(t), index(k) {}
	~Ctx() { Unwatched u; std::vector<Watch>().swap(watches); }

	// inputs. Two operations with the same seed and different tweaks differ
	// in one drawn number only.
	double r(double a, double b) { double x = g.real(a, b); if(++drawn == tweak) x = other(x, a, b); return x; }
	// a sibling's number: fresh, almost the same, of the other sign, or whole
	double other(double x, double a, double b) {
		Rng q(seed + tweak); double y = x;
		switch(q.below(8)) {
			case 0: case 1: y = x * (1 + std::ldexp(1.0, -(int) q.range(20, 51))); break;
			case 2: y = std::nextafter(x, q.chance(0.5) ? INFINITY : -INFINITY); break;
			case 3: y = -x; break;
			case 4: y = std::floor(x); break;
		}
		return y != x && y >= a && y <= b ? y : q.real(a, b);
	}
	double x() { double v = r(-6, 6); switch(g.below(12)) { case 0: return 0; case 1: return th::floor(v); case 2: return v * 1e-6; default: return v; } }
	double any() { double v = x(); switch(g.below(16)) { case 0: return NAN; case 1: return INFINITY; case 2: return -INFINITY; case 3: return v * 1e18; default: return v; } }
	unsigned n(unsigned a, unsigned b) { return (unsigned) g.range(a, b); }
	unsigned sz(unsigned a, unsigned b, unsigned most) { return g.chance(0.04) ? (unsigned) g.range(b, most) : n(a, b); }   // a size, now and then a large one
	bool p(double q) { return g.chance(q); }
	F1 f() { return F1{ r(-2, 2), r(0.3, 2), r(-2, 2), (int) g.below(8) }; }
	F1 root() { F1 q = f(); q.kind = 3; return q; }             // a cubic: has a root
	template<typename V> V fill(V v, double a = -5, double b = 5) { for(size_t i = 0; i < v.size(); ++i) v[i] = r(a, b); return v; }
	vec<real> dv(unsigned k, double a = -5, double b = 5) { vec<real> v; v.resize(k); for(unsigned i = 0; i < k; ++i) v[i] = r(a, b); return v; }
	std::vector<real> sv(unsigned k, double a = -5, double b = 5) { std::vector<real> v(k); for(unsigned i = 0; i < k; ++i) v[i] = r(a, b); return v; }
	template<unsigned N> vec<real, N> fv(double a = -5, double b = 5) { vec<real, N> v; for(unsigned i = 0; i < N; ++i) v[i] = r(a, b); return v; }
	complex<real> z() { double a = x(); return complex<real>(a, x()); }
	template<typename M> void mfill(M& m, double a, double b, double diag) { for(unsigned i = 0; i < m.rows(); ++i) for(unsigned j = 0; j < m.cols(); ++j) m(i, j) = r(a, b) + (i == j ? diag : 0); }
	mat<real> dm(unsigned rows, unsigned cols, double diag = 0) { mat<real> m(rows, cols); mfill(m, -3, 3, diag); return m; }
	template<unsigned N, unsigned K> mat<real, N, K> fm(double diag = 0) { mat<real, N, K> m; mfill(m, -3, 3, diag); return m; }
	// symmetric positive definite
	template<typename M> void spd(M& m) { unsigned k = m.rows(); for(unsigned i = 0; i < k; ++i) for(unsigned j = 0; j <= i; ++j) { double v = i == j ? r(4, 6) + k : r(-1, 1); m(i, j) = v; m(j, i) = v; } }
	polynomial<real> poly(unsigned deg) { std::vector<real> v(deg + 1); for(auto& q : v) q = r(-2, 2); return polynomial<real>(v); }
	PRNG rng() { switch(g.below(4)) { case 0: return PRNG::wyrand(g.next() >> 8 | 1); case 1: return PRNG::splitmix64(g.next() >> 8); case 2: return PRNG::linear_congruential(1 + g.below(1000000)); default: return PRNG::xoshiro(g.next() >> 8 | 1); } }

	// an input that every call must leave as it is
	template<typename T> static uint64_t digest_of(const void* p) { Dig d; d(*(const T*) p); return d.h; }
	template<typename T> void in(const T& v) { Unwatched u; watches.push_back(Watch{ &v, digest_of<T>, digest_of<T>(&v) }); }
	template<typename T, typename... A> void in(const T& v, const A&... rest) { in(v); in(rest...); }
	void inputs_unchanged(const char* when) {
		Unwatched u;
		for(size_t i = 0; i < watches.size(); ++i) if(watches[i].digest(watches[i].p) != watches[i].before) VIOL("input-changed", "%s changed its input (argument %zu)%s", get_context_name(), i, when);
	}
	static const char* get_context_name() { return sim::get_context(); }

	template<typename F> static void tramp(void* p, Dig& d) { (*(F*) p)(d); }
	template<typename F> static bool btramp(void* p, Dig& d) { return (*(F*) p)(d); }
	template<typename F> void call(F f) { calls++; ctx_call(*this, tramp<F>, &f); }
	// a call that changes an object which is there before and after it. When
	// memory runs out in it, the object can still be read, and the call made again on it succeeds
	template<typename T, typename F> void change(const T& start, F f) {
		call([&](Dig& d) {
			T o = start;
			try { f(o); }
			catch(const std::bad_alloc&) {
				if(!ctx_memory_back(*this)) throw;
				Dig s, a, b; s(o); f(o); a(o);
				T q = start; f(q); b(q);
				if(a.h != b.h) { Unwatched u; VIOL("object-after-failure", "%s: the object whose change ran out of memory, changed again, is not what it would have been", get_context_name()); }
				throw;
			}
			d(o);
		});
	}
	// a call outside the documented domain; f returns whether the result is the documented one
	template<typename F> void fails(unsigned mask, F f) { calls++; ctx_fails(*this, mask, btramp<F>, &f); }
};
struct RegOp { const char* name; void (*run)(Ctx&); const char* group; };
struct Registrar { Registrar(const char* n, void (*r)(Ctx&), const char* g); };
extern RegOp REG[1024]; extern unsigned NREG;
#define OP(N) static void op_##N(Ctx& c); static Registrar reg_##N(#N, op_##N, GROUP); static void op_##N(Ctx& c)
#define CALL c.call([&](Dig& d)
#define FAILS(MASK) c.fails(MASK, [&](Dig& d) -> bool

// Streams whose internal failures (out of memory) are not swallowed
struct OStr : std::ostringstream { OStr() { exceptions(std::ios::badbit); } };
struct IStr : std::istringstream { explicit IStr(const std::string& s) : std::istringstream(s) { exceptions(std::ios::badbit); } };

// harness side
static inline const RegOp* reg_find(const std::string& n) { for(unsigned i = 0; i < NREG; ++i) if(n == REG[i].name) return &REG[i]; return nullptr; }
#endif
