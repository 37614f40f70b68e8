// Deterministic simulation runtime: public interface.
//
// The harness translation units are compiled with -fsanitize=thread and
// -fsanitize-coverage=trace-pc, but linked against rt.cpp instead of libtsan,
// and with -fopenmp but against omp.cpp instead of libgomp. Every
// instrumented memory access is one simulated step and a possible context
// switch; every basic block is a tick of the work budget.
#ifndef SIM_RT_H
#define SIM_RT_H
#include <cstddef>
#include <cstdint>

namespace sim {

// ---------------------------------------------------------------- results
enum { MAX_REC = 4096, MAX_CTR = 64, MAX_SWITCH = 20000 };

struct OpRec { uint64_t digest; int32_t err; int32_t status; };
struct SwitchRec { uint32_t tid; uint32_t to; uint64_t at; };

struct Result {
	int32_t done;              // 1: child finished normally
	int32_t violated;          // 1: a violation was recorded
	int32_t harness_error;     // 1: the harness itself failed
	char cls[160];             // violation class (stable across replays)
	char detail[2048];         // human readable
	char context[160];         // operation in progress when the run ended
	char ctx[64][128];         // operation in progress, per thread
	uint64_t hash;             // event hash of the whole run
	uint64_t sched_hash;       // hash of the interleaving only
	uint64_t steps;            // memory accesses executed = simulated time
	uint64_t ticks;            // basic blocks executed
	uint64_t switches;
	uint64_t allocs;
	uint64_t threads;
	uint64_t regions;
	uint64_t ctr[MAX_CTR];     // fault and probe counters (harness defined)
	uint32_t nrec;
	OpRec rec[MAX_REC];        // per-operation results
	uint32_t nswitch;
	SwitchRec sw[MAX_SWITCH];  // the schedule actually taken
	uint64_t local_steps[64];  // per thread
};

extern Result* R;              // shared with the parent

// ---------------------------------------------------------------- control
void init_process();           // once, in the parent
void child_begin(uint64_t salt);  // in the forked child, before anything else
void child_end();              // normal end: publishes the hash and _exits

// Record a violation and end the run. Never returns.
[[noreturn]] void violation(const char* cls, const char* fmt, ...);
[[noreturn]] void harness_error(const char* fmt, ...);
void set_context(const char* fmt, ...);
const char* get_context();

// Mix a value into the event hash.
void event(uint64_t v);
void count(int ctr, uint64_t n = 1);

// ---------------------------------------------------------------- threads
void set_budget(uint64_t ticks);        // total ticks until "no-progress"
void add_budget(uint64_t ticks);        // extend from now
uint64_t ticks_now();
// Preemption of simulated thread `tid` at its local step `at`, choosing the
// `to`-th other runnable thread. Must be added in increasing `at` per thread.
void add_preempt(unsigned tid, uint64_t at, unsigned to);
// Random preemption: on average every `period` steps (0 = off).
void set_random_sched(uint64_t seed, uint64_t period);
void set_block_rule(unsigned rule);     // choice of successor when blocking

typedef void (*thread_fn)(void*);
int spawn(thread_fn fn, void* arg);     // created parked
void join_all();                        // run every spawned thread to its end
void join(int tid);                     // wait for one thread
int self();
uint64_t self_steps();

// Watching on/off for the calling thread (harness glue code)
struct Unwatched { Unwatched(); ~Unwatched(); };

// ---------------------------------------------------------------- memory
struct HeapMark { uint64_t live; uint64_t bytes; };
HeapMark heap_mark();
void alloc_fault_at(uint64_t n, uint64_t burst); // n-th allocation from now (1-based) fails, burst in a row; 0 = off
uint64_t alloc_count();                 // allocations made by this thread
uint64_t alloc_faults_fired();
uint64_t my_live();                     // live blocks allocated by this thread
void set_reuse(bool on);                // freed blocks are reused at once by the same thread
uint64_t reused_blocks();
void set_fill(uint64_t salt);           // dirty memory pattern
bool heap_is_live(const void* p);
void paint_stack(uint64_t salt);
uint64_t fp_env();                      // control bits of x87 and SSE
uint64_t fp_tag();                      // x87 tag word (stack must be empty)

// ---------------------------------------------------------------- openmp
void omp_config(unsigned max_threads, unsigned team_seed, unsigned pool);

// ---------------------------------------------------------------- clock
void set_clock(uint64_t start_ns, uint64_t step_ns);

// internal
bool in_child();

} // namespace sim
#endif
