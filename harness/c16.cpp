// C16: shuffling permutes and never loses elements, for any random stream.
#include "words.h"
#include <algorithm>
#include <array>
#include <deque>
namespace sim {
const char* PROPERTY = "C16"; const char* VARIANT = "default";
enum { K_SHUF, K_ROUNDS, K_FAULTY, K_DEFAULT, K_EMPTY, K_ONE, K_SELF, K_THROWN, K_DUPS };
const char* CTR_NAMES[] = { "shuffles", "rounds", "faulty_words_consumed", "default_rounds", "empty_collections", "single_elements", "elements_exchanged_with_themselves", "copies_that_threw", "collections_with_equal_elements", nullptr };
}
using namespace sim;

struct CopyError { int k; };
struct Elem {           // copying it may fail
	int id; int* pad;
	static thread_local long left; static thread_local long live;
	static void tick() { Unwatched u; if(left > 0 && --left == 0) { count(K_THROWN); throw CopyError{ 1 }; } }
	Elem(int i = -1) : id(i), pad(new int(i)) { live++; }
	Elem(const Elem& o) : id(o.id), pad(nullptr) { tick(); pad = new int(*o.pad); live++; }
	Elem& operator=(const Elem& o) { tick(); if(this != &o) { *pad = *o.pad; id = o.id; } return *this; }
	~Elem() { delete pad; live--; }
};
thread_local long Elem::left = 0; thread_local long Elem::live = 0;

template<typename C, typename Get> static void run(OpCall& c, C& v, Get key) {
	size_t n = v.size(); Words* w; unsigned rounds; bool dflt; std::vector<uint64_t>* before;
	{
		Unwatched u; w = new Words(c.l.u64("seed"), c.l.str("w", "h")); before = new std::vector<uint64_t>;
		for(size_t i = 0; i < n; ++i) before->push_back(key(v, i));
		dflt = c.g.chance(0.4); static const unsigned rs[] = { 1, 2, 3, 7, 50 }; rounds = dflt ? 0 : c.g.chance(0.002) ? (unsigned) c.g.range(60000, 70000) : c.g.chance(0.02) ? (unsigned) c.g.range(200, 600) : rs[c.g.below(5)];
		count(K_SHUF); if(n == 0) count(K_EMPTY); if(n == 1) count(K_ONE); if(dflt) count(K_DEFAULT); errno = 0;
	}
	PRNG p = words_prng(*w);
	bool threw = false;
	try { if(dflt && c.g.chance(0.5)) shuffle(v, p); else shuffle(v, p, rounds); } catch(const CopyError&) { threw = true; }
	Unwatched u; int e = errno; Elem::left = 0;
	size_t want = n == 0 ? 0 : rounds ? rounds : (n - 1) * (n - 1); count(K_ROUNDS, want); count(K_FAULTY, w->faulty);
	if(v.size() != n) VIOL("size-changed", "shuffling %zu elements left %zu", n, v.size());
	if(n == 0) { if(!e) VIOL("silent-failure", "shuffling an empty collection reported no error"); if(!w->log.empty()) VIOL("words", "shuffling an empty collection drew words"); }
	else {
		if(e) VIOL("spurious-error", "shuffling %zu elements set errno %d", n, e);
		if(!threw && w->log.size() != 2 * want) VIOL("words", "shuffling %zu elements for %zu rounds drew %zu words instead of %zu", n, want, w->log.size(), 2 * want);
		if(threw && (w->log.size() % 2 || w->log.size() > 2 * want)) VIOL("words", "a shuffle of %zu rounds drew %zu words before it was interrupted", want, w->log.size());
		std::vector<uint64_t> m = *before; size_t full = w->log.size() / 2, last = threw ? full - 1 : full;
		for(size_t i = 0; i < last; ++i) { size_t a = w->log[2 * i] % n, b = w->log[2 * i + 1] % n; if(a == b) count(K_SELF); std::swap(m[a], m[b]); }
		if(!threw) {
			// a permutation first (the weaker, more telling report), then the exact one
			std::vector<uint64_t> x, y = *before; for(size_t i = 0; i < n; ++i) x.push_back(key(v, i)); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
			if(x != y) VIOL("not-a-permutation", "shuffling %zu elements for %zu rounds lost or duplicated elements", n, want);
			for(size_t i = 0; i < n; ++i) if(key(v, i) != m[i]) VIOL("wrong-exchange", "after %zu rounds element %zu of %zu is not the one the words select", want, i, n);
		} else {
			size_t a = w->log[2 * last] % n, b = w->log[2 * last + 1] % n;
			for(size_t i = 0; i < n; ++i) if(i != a && i != b && key(v, i) != m[i]) VIOL("lost-element", "a copy that failed while exchanging elements %zu and %zu changed element %zu", a, b, i);
			uint64_t ka = key(v, a), kb = key(v, b);
			if((ka != m[a] && ka != m[b]) || (kb != m[a] && kb != m[b])) VIOL("lost-element", "a copy that failed left foreign values in the elements exchanged");
		}
	}
	uint64_t h = 1; for(size_t i = 0; i < n; ++i) h = h * 1099511628211ull + key(v, i);
	c.result = h; delete w; delete before;
}
static unsigned size(Rng& g) { static const unsigned ns[] = { 0, 1, 2, 3, 4, 5, 8, 16, 33 }; return g.chance(0.003) ? (unsigned) g.range(250, 300) : g.chance(0.01) ? (unsigned) g.range(34, 150) : ns[g.below(9)]; }
static double elem(Rng& g, unsigned i, bool dup) { return dup ? (double) g.below(3) : i + 0.25; }
template<typename V> static uint64_t key_real(V& v, size_t i) { return dig((double) v[i]); }
static void op_vec(OpCall& c) { unsigned n = size(c.g); bool d = c.g.chance(0.3); vec<real> v(n); for(unsigned i = 0; i < n; ++i) v[i] = elem(c.g, i, d); if(d) { Unwatched u; count(K_DUPS); } run(c, v, key_real<vec<real>>); }
static void op_stdvec(OpCall& c) { unsigned n = size(c.g); std::vector<real> v(n); for(unsigned i = 0; i < n; ++i) v[i] = elem(c.g, i, false); run(c, v, key_real<std::vector<real>>); }
static void op_svec(OpCall& c) { vec<real, 5> v; for(unsigned i = 0; i < 5; ++i) v[i] = elem(c.g, i, false); run(c, v, key_real<vec<real, 5>>); }
static void op_array(OpCall& c) { std::array<int, 7> v; for(unsigned i = 0; i < 7; ++i) v[i] = (int) i * 3; run(c, v, key_real<std::array<int, 7>>); }
static void op_deque(OpCall& c) { unsigned n = size(c.g); std::deque<float> v(n); for(unsigned i = 0; i < n; ++i) v[i] = i; run(c, v, key_real<std::deque<float>>); }
static void op_bool(OpCall& c) { unsigned n = size(c.g); std::vector<bool> v(n); for(unsigned i = 0; i < n; ++i) v[i] = c.g.chance(0.5); run(c, v, key_real<std::vector<bool>>); }
static void op_string(OpCall& c) { unsigned n = size(c.g); std::vector<std::string> v(n); for(unsigned i = 0; i < n; ++i) v[i] = std::string(i % 5 * 9, 'x') + std::to_string(i); run(c, v, [](std::vector<std::string>& v, size_t i) { return dig(v[i]); }); }
static void op_nested(OpCall& c) { unsigned n = size(c.g); std::vector<vec<real>> v(n); for(unsigned i = 0; i < n; ++i) v[i] = vec<real>(1 + i % 4, i + 0.5); run(c, v, [](std::vector<vec<real>>& v, size_t i) { return dig(v[i]); }); }
static void op_throw(OpCall& c) {
	unsigned n = size(c.g); long live0; { Unwatched u; live0 = Elem::live; }
	{ std::vector<Elem> v; v.reserve(n); for(unsigned i = 0; i < n; ++i) v.emplace_back((int) i); { Unwatched u; Elem::left = c.l.num("at", 0); } run(c, v, [](std::vector<Elem>& v, size_t i) { if(v[i].id != *v[i].pad) VIOL("lost-element", "an element is half copied"); return (uint64_t) v[i].id + 1; }); Unwatched u; Elem::left = 0; }
	Unwatched u; if(Elem::live != live0) VIOL("leak", "%ld elements were not destroyed", Elem::live - live0);
}
static void gen_w(Rng& g, Line& l, bool) { l.set("w", words_gen(g, false)); }
static void gen_t(Rng& g, Line& l, bool) { l.set("w", words_gen(g, false)); if(g.chance(0.8)) l.set("at", g.range(1, 40)); }
const OpDef OPS[] = { { "vec", op_vec, gen_w, 3 }, { "std_vector", op_stdvec, gen_w, 2 }, { "vec_static", op_svec, gen_w, 1 }, { "std_array", op_array, gen_w, 1 }, { "std_deque", op_deque, gen_w, 1 }, { "vector_bool", op_bool, gen_w, 1 }, { "strings", op_string, gen_w, 2 }, { "vectors", op_nested, gen_w, 1 }, { "throwing", op_throw, gen_t, 3 } };
const unsigned NOPS = sizeof OPS / sizeof OPS[0];
const OpsConfig OPSCFG = { 3, 5, 0.3, 80000000 };
OPS_HARNESS
