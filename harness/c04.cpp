// C04: generators follow their published algorithms across save, crash,
// restore and reseed. The model is written independently of the library.
#include "ops.h"
namespace sim {
const char* PROPERTY = "C04"; const char* VARIANT = "default";
enum { K_WORDS, K_CRASH, K_COPY, K_RESEED, K_DISCARD, K_ANYSTATE, K_FREE, K_INVALID, K_STREAM };
const char* CTR_NAMES[] = { "words_checked", "crash_and_restore", "copies", "reseeds", "discards", "arbitrary_states", "direct_recurrence_calls", "invalid_parameters", "generators", nullptr };
}
using namespace sim;
typedef unsigned __int128 u128;
typedef uint64_t u64;

// ---- reference model
static u64 m_splitmix(u64 x) { u64 z = x + 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
struct Model {
	int kind = 0; u64 x = 0; std::vector<u64> s;     // 0 lcg 1 xoshiro 2 splitmix 3 wyrand 4 middle square
	// a congruential step whose product exceeds 64 bits is either exact or
	// modulo 2^64, and the same one throughout
	u64 xe = 0; bool alt = true, wrap = true;
	Model() {}
	Model(int k, u64 x0, std::vector<u64> p): kind(k), x(x0), s(p), xe(x0) {}
	u64 next(u64 got, bool seen) {
		switch(kind) {
			case 0: {
				x = (s[0] * x + s[1]) % s[2]; if(alt) xe = (u64) (((u128) s[0] * xe + s[1]) % s[2]);
				if(seen && alt && wrap && x != xe) { if(got == xe) wrap = false; else alt = false; }
				if(!wrap) return xe;
				break; }
			case 1: { u64 r = rotl(s[0] + s[3], 23) + s[0], t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); x = r; break; }
			case 2: x = m_splitmix(x); break;
			case 3: { s[0] += s[1]; u128 m = (u128) (s[0] ^ s[2]) * s[0]; x = (u64) (m >> 64) ^ (u64) m; break; }
			default: { u64 v = x + s[0]; u128 m = (u128) v * v; x = (u64) (m >> 32); }
		}
		return x;
	}
	void seed(u64 sd) {
		switch(kind) {
			case 1: { if(!sd) sd = 1; s.resize(4); for(int i = 0; i < 4; ++i) s[i] = sd = m_splitmix(sd); break; }
			case 3: s[0] = sd ? sd : 1; break;
			default: x = xe = sd;
		}
	}
};
static const char* KN[] = { "linear congruential", "xoshiro256++", "splitmix64", "wyrand", "middle-square" };

static u64 odd_seed(Rng& g) { switch(g.below(6)) { case 0: return g.below(4); case 1: return ~0ull - g.below(3); case 2: return 1ull << g.below(64); case 3: return (1ull << 31) - 1 + g.below(3) - 1; default: return g.next(); } }

// in its own session: model and library side by side
struct Session { PRNG p; Model m; bool seeded; };
static void expect(u64 got, Model& m, const char* how) {
	Unwatched u; count(K_WORDS);
	u64 w = m.next(got, true);
	if(got != w) VIOL("wrong-word", "%s generator %s: got %llu, the recurrence gives %llu", KN[m.kind], how, (unsigned long long) got, (unsigned long long) w);
}
static PRNG create(Rng& g, Model& m, bool& seeded) {
	int kind = (int) g.below(5); bool raw = g.chance(0.35);
	u64 seed = odd_seed(g), a, b;
	m = Model(); m.kind = kind; m.x = 0; seeded = !raw;
	if(raw) { Unwatched u; count(K_ANYSTATE); }
	switch(kind) {
		case 0: {
			if(!raw) { m.x = seed ? seed : 1; m.s = { 48271, 0, 2147483647 }; return PRNG::linear_congruential(seed); }
			u64 mod = g.chance(0.4) ? (1ull << g.range(3, 32)) : g.chance(0.5) ? 2 + g.below(1ull << 32) : (g.next() >> g.below(32)) | 2; a = g.below(mod); b = g.chance(0.4) ? 0 : g.below(mod);
			m.x = g.below(mod); m.s = { a, b, mod }; return PRNG(randgen_congruential, m.x, m.s); }
		case 1: {
			if(!raw) { m.s.resize(4); m.seed(seed); return g.chance(0.5) ? PRNG::xoshiro(seed) : PRNG(seed); }
			for(int i = 0; i < 4; ++i) m.s.push_back(g.chance(0.2) ? 0 : g.chance(0.2) ? ~0ull : g.next());
			return PRNG::xoshiro(m.s); }
		case 2: m.x = seed; if(!raw) { if(!seed) m.x = 1; return PRNG::splitmix64(seed); } return PRNG(randgen_splitmix64, seed);
		case 3: {
			a = g.chance(0.3) ? 2549536629329ull : odd_seed(g); b = odd_seed(g);
			if(raw) { m.s = { seed, a, b }; return PRNG(randgen_wyrand, g.next(), m.s); }
			if(g.chance(0.4)) { m.s = { seed ? seed : 1, 2549536629329ull, 136137137ull }; return PRNG::wyrand(seed); }
			m.s = { seed ? seed : 1, a, b ? b : m_splitmix(seed ? seed : 1) }; return PRNG::wyrand(seed, a, b); }
		default: {
			a = odd_seed(g); u64 k = 765872292751861ull;
			m.x = seed ? seed : m_splitmix(k); m.s = { a ? a : k };
			if(raw) { m.x = seed; m.s = { a }; return PRNG(randgen_middlesquare, seed, m.s); }
			if(g.chance(0.3)) { m.s = { k }; return PRNG::middlesquare(seed); }
			return PRNG::middlesquare(seed, a); }
	}
}

static void op_session(OpCall& c) {
	unsigned n; { Unwatched u; n = (unsigned) c.l.num("n", 10); count(K_STREAM); }
	Model m; bool seeded; PRNG p = create(c.g, m, seeded); m.xe = m.x;
	PRNG* q = nullptr; Model mq;                 // an earlier copy that goes on by itself
	bool fresh = true; u64 lastw = 0;
	for(unsigned i = 0; i < n; ++i) {
		switch(c.g.below(9)) {
			case 0: { u64 w = p.next(); expect(w, m, "next()"); lastw = w; fresh = false; break; }
			case 1: { u64 w = p(); expect(w, m, "operator()"); lastw = w; fresh = false; break; }
			case 2: { u64 w; p >> w; expect(w, m, "operator>>"); lastw = w; fresh = false; break; }
			case 3: { u64 k = c.g.chance(0.1) ? c.g.below(300) : c.g.chance(0.01) ? 300 + c.g.below(5000) : c.g.below(12); p.discard(k);
				{ Unwatched u; count(K_DISCARD); for(u64 j = 0; j < k; ++j) lastw = m.next(0, false), fresh = false; if(m.kind == 0) lastw = p.last(); }
				u64 w = p(); expect(w, m, "after discard()"); lastw = w; fresh = false; break; }
			case 4: { if(fresh) break; if(p.last() != lastw) { Unwatched u; VIOL("last", "%s generator: last() is not the word it returned last", KN[m.kind]); } break; }
			case 5: {  // copy; the original and the copy continue separately
				{ Unwatched u; count(K_COPY); }
				PRNG r = p; Model mr = m;
				for(int j = 0; j < 3; ++j) expect(r(), mr, "copied");
				if(c.g.chance(0.5)) { PRNG t = PRNG(1); t = p; Model mt = m; expect(t(), mt, "assigned"); }
				if(!q) { q = new PRNG(p); mq = m; }
				break; }
			case 6: {  // crash: only function, last word and parameters survive
				{ Unwatched u; count(K_CRASH); }
				pseudorandom_function f = p.get_function(); u64 last = p.last(); std::vector<uint64_t> st = p.get_param();
				p = PRNG(99);  // the old object is gone
				if(c.g.chance(0.5)) p = PRNG(f, last, st);
				else { PRNG r = PRNG::splitmix64(5); r.set_function(f); r.seed(last); r.set_param(st);
					if(st.size() && c.g.chance(0.4)) { std::vector<uint64_t> other(st.size(), c.g.next()); r.set_param(other); for(size_t k = 0; k < st.size(); ++k) r.set_param((unsigned) k, st[k]); }
					p = r; }
				for(int j = 0; j < 2; ++j) { u64 w = p(); expect(w, m, "restored from its saved state"); lastw = w; } fresh = false;
				break; }
			case 7: {
				if(!seeded && (m.kind == 1 || m.kind == 3)) break;
				u64 sd = 1 + (odd_seed(c.g) >> 1);
				{ Unwatched u; count(K_RESEED); m.seed(sd); }
				p.seed(sd); fresh = true;
				for(int j = 0; j < 2; ++j) { u64 w = p(); expect(w, m, "re-seeded"); lastw = w; } fresh = false;
				break; }
			default: if(q) for(int j = 0; j < 2; ++j) expect((*q)(), mq, "earlier copy");
		}
	}
	delete q;
	expect(p(), m, "at the end");
	c.result = p.last();
}
// the recurrences themselves, called directly
static void op_direct(OpCall& c) {
	unsigned n; { Unwatched u; n = (unsigned) c.l.num("n", 10); count(K_FREE, n); }
	for(unsigned i = 0; i < n; ++i) {
		u64 a = odd_seed(c.g), b = odd_seed(c.g), d = odd_seed(c.g), e = odd_seed(c.g); u64 got, want; const char* what;
		switch(c.g.below(8)) {
			case 0: { u64 s0 = a, s1 = b, s2 = d, s3 = e; got = randgen_xoshiro(s0, s1, s2, s3); Model m(1, 0, { a, b, d, e }); want = m.next(0, true); what = "xoshiro256++"; if(s0 != m.s[0] || s1 != m.s[1] || s2 != m.s[2] || s3 != m.s[3]) { Unwatched u; VIOL("wrong-state", "randgen_xoshiro left a wrong state"); } break; }
			case 1: got = randgen_splitmix64(a); want = m_splitmix(a); what = "splitmix64"; break;
			case 2: { u64 s = a; got = randgen_wyrand(s, b, d); Model m(3, 0, { a, b, d }); want = m.next(0, true); what = "wyrand"; if(s != a + b) { Unwatched u; VIOL("wrong-state", "randgen_wyrand left a wrong state"); } break; }
			case 3: { got = randgen_middlesquare(a, b); Model m(4, a, { b }); want = m.next(0, true); what = "middle-square"; break; }
			case 4: { got = randgen_middlesquare(a); Model m(4, a, { 765872292751861ull }); want = m.next(0, true); what = "middle-square"; break; }
			case 5: { u64 mod = 1 + (d >> 32); got = randgen_congruential(a >> 32, b >> 32, e >> 32, mod); Model m(0, a >> 32, { b >> 32, e >> 32, mod }); want = m.next(got, true); what = "congruential"; break; }
			case 6: { u64 lo, hi; mul_uint128(a, b, lo, hi); u128 m = (u128) a * b; got = lo ^ rotl(hi, 1); want = (u64) m ^ rotl((u64) (m >> 64), 1); what = "128-bit product"; break; }
			default: { got = randgen_congruential(a >> 33); Model m(0, a >> 33, { 48271, 0, 2147483647 }); want = m.next(got, true); what = "congruential"; }
		}
		Unwatched u; count(K_WORDS);
		if(got != want) VIOL("wrong-word", "%s recurrence: got %llu, expected %llu", what, (unsigned long long) got, (unsigned long long) want);
		c.result = c.result * 31 + got;
	}
}
// wrong number of parameters: zero and an error
static void op_invalid(OpCall& c) {
	static const pseudorandom_function fs[] = { randgen_congruential, randgen_xoshiro, randgen_wyrand, randgen_middlesquare };
	static const unsigned arity[] = { 3, 4, 3, 1 };
	unsigned k = (unsigned) c.g.below(4), n = (unsigned) c.g.below(6);
	if(n == arity[k]) n = 5;
	std::vector<uint64_t> st(n, 7);
	errno = 0;
	PRNG p(fs[k], 5, st);
	u64 w = p();
	int e = errno;
	Unwatched u; count(K_INVALID);
	if(w != 0 || e == 0) VIOL("not-refused", "%s generator with %u parameters returned %llu, error %d", k == 0 ? KN[0] : k == 1 ? KN[1] : k == 2 ? KN[3] : KN[4], n, (unsigned long long) w, e);
	if(p.get_param().size() != n) VIOL("state-changed", "a refused step changed the parameters");
}
static void gen_n(Rng& g, Line& l, bool th) { l.set("n", (int64_t) g.range(2, th ? 60 : 25)); }
const OpDef OPS[] = { { "session", op_session, gen_n, 8 }, { "direct", op_direct, gen_n, 2 }, { "invalid", op_invalid, nullptr, 1 } };
const unsigned NOPS = sizeof OPS / sizeof OPS[0];
const OpsConfig OPSCFG = { 3, 5, 0.3, 40000000 };
OPS_HARNESS
