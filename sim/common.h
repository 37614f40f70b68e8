// Harness framework: plans, seeded generation, exploration and replay.
#ifndef SIM_COMMON_H
#define SIM_COMMON_H
#include "rt.h"
#include <cstdint>
#include <cstring>
#include <string>
#include <utility>
#include <vector>

namespace sim {

// Seeded choices. One Rng per plan, derived from (VERIF_SEED, index).
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t a, int64_t b) { return a + (int64_t) below((uint64_t)(b - a) + 1); }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	bool chance(double p) { return unit() < p; }
	double real(double a, double b) { return a + (b - a) * unit(); }
	template<typename T> const T& of(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct Line {
	std::string kind;
	std::vector<std::pair<std::string, std::string>> kv;
	bool has(const char* k) const;
	std::string str(const char* k, const std::string& d = "") const;
	int64_t num(const char* k, int64_t d = 0) const;
	uint64_t u64(const char* k, uint64_t d = 0) const;
	Line& set(const char* k, const std::string& v);
	Line& set(const char* k, const char* v) { return set(k, std::string(v)); }
	Line& set(const char* k, int64_t v);
	Line& set(const char* k, int v) { return set(k, (int64_t) v); }
	Line& set(const char* k, unsigned v) { return set(k, (int64_t) v); }
	Line& set(const char* k, uint64_t v);
};

struct Plan {
	std::vector<Line> lines;
	Line& add(const char* kind);
	const Line* find(const char* kind) const;
	int64_t knob(const char* name, int64_t d) const;
	void set_knob(const char* name, int64_t v);
	std::string text() const;
	bool parse(const std::string& text);
};

struct Outcome {
	bool violated = false, error = false;
	std::string cls, detail, context;
	uint64_t hash = 0;
};

// Each harness defines these.
extern const char* PROPERTY;
extern const char* VARIANT;                // build configuration ("default" unless the harness has several)
extern const char* CTR_NAMES[];            // null terminated; index = counter
void generate(Rng& g, Plan& p, bool thorough, uint64_t index);
void run_plan(const Plan& p, Outcome& o);  // in the parent; uses run_child
std::string info();                         // extra evidence (JSON object body) or ""

// Fork a pristine child, run fn on simulated thread 1, collect the result in
// *R. Returns true if the child ended normally without violation.
typedef void (*child_fn)(const void*);
bool run_child(child_fn fn, const void* arg, uint64_t salt, Outcome& o);
// Fold a further hash into an outcome
void fold(Outcome& o, uint64_t h);

// Apply "preempt" lines and the rs_* knobs of a plan (in the child)
void apply_schedule(const Plan& p);

uint64_t fnv(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull);
inline uint64_t fnv_str(const std::string& s, uint64_t h = 0xcbf29ce484222325ull) { return fnv(s.data(), s.size(), h); }
void probe(const char* name);              // "this rare condition was hit"

} // namespace sim
#endif
