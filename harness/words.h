// A simulated source of random words behind the library's own seam (PRNG takes
// any function). The script is a list of segments, one letter and a count:
//   h ordinary words     z zeros        o all ones      a alternating 0 / ~0
//   s last word repeated b multiples of 2^31 and neighbours
//   l words 0..3         t words whose low 31 bits are near the top
// The last segment goes on for ever.
#ifndef WORDS_H
#define WORDS_H
#include "ops.h"

struct Words {
	Rng g;
	std::string script;
	size_t pos = 0; uint64_t left = 0; char kind = 'h'; bool last_seg = false;
	uint64_t prev = 0, limit = 2000000;
	std::vector<uint64_t> log;
	unsigned faulty = 0;
	Words(uint64_t seed, const std::string& s) : g(seed), script(s) { next_seg(); }
	void next_seg() {
		if(pos >= script.size()) { last_seg = true; return; }
		kind = script[pos++]; left = 0;
		while(pos < script.size() && isdigit((unsigned char) script[pos])) left = left * 10 + (script[pos++] - '0');
		if(pos >= script.size()) last_seg = true;
	}
	uint64_t make() {
		if(!last_seg) { while(left == 0 && !last_seg) next_seg(); if(left) left--; }
		uint64_t w;
		switch(kind) {
			case 'z': w = 0; break;
			case 'o': w = ~0ull; break;
			case 'a': w = (log.size() & 1) ? ~0ull : 0; break;
			case 's': w = prev; break;
			case 'b': w = (g.next() >> 40 << 31) + g.below(3) - 1; break;
			case 'l': w = g.below(4); break;
			case 't': w = (g.next() << 31) | (0x7fffffffull - g.below(3)); break;
			default: w = g.next();
		}
		if(kind != 'h') faulty++;
		prev = w;
		return w;
	}
};
static uint64_t words_next(uint64_t, std::vector<uint64_t>& p) {
	Unwatched u;
	Words* w = (Words*) (uintptr_t) p[0];
	uint64_t r = w->make();
	if(w->log.size() > w->limit) VIOL("unbounded-words", "more than %llu random words consumed", (unsigned long long) w->limit);
	w->log.push_back(r);
	return r;
}
static inline PRNG words_prng(Words& w) { return PRNG(words_next, 0, { (uint64_t) (uintptr_t) &w }); }

static inline std::string words_gen(Rng& g, bool end_healthy) {
	static const char kinds[] = "zoasblt";
	std::string s;
	unsigned n = g.chance(0.25) ? 0 : (unsigned) g.range(1, 4);
	if(g.chance(0.6)) s += "h" + std::to_string(g.range(1, 12));
	for(unsigned i = 0; i < n; ++i) {
		s += kinds[g.below(7)]; s += std::to_string(g.chance(0.15) ? g.range(100, 700) : g.range(1, 14));
		if(g.chance(0.4)) s += "h" + std::to_string(g.range(1, 6));
	}
	if(end_healthy || g.chance(0.8)) s += "h"; else s += kinds[g.below(7)];
	return s;
}
// what rand_uniform makes of a word
static inline double unit_of(uint64_t w) { return (double) (w % STATISTICS_RAND_PREC) / (double) STATISTICS_RAND_PREC; }
static inline double uniform_of(double a, double b, uint64_t w) { return a + (b - a) * unit_of(w); }
#endif
