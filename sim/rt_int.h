// Internals shared by rt.cpp and omp.cpp (compiled without instrumentation).
#ifndef SIM_RT_INT_H
#define SIM_RT_INT_H
#include "rt.h"
#include <pthread.h>

namespace sim {

enum { MAXT = 64 };
enum State { ST_NONE = 0, ST_RUN, ST_BLOCK, ST_DONE };

struct Preempt { uint64_t at; unsigned to; };

struct Th {
	int id;
	volatile int go;
	int state;
	int off;                 // >0: not watched
	uint32_t vc[MAXT];
	uint64_t steps;
	Preempt* pre; unsigned npre, ipre, cpre;
	uint64_t next_at;
	thread_fn fn; void* arg;
	void* (*pfn)(void*);
	void* pret;
	pthread_t pt;
	bool (*ready)(void*); void* ready_arg;
	uint64_t allocs, fault_at, fault_burst, faults;
	// OpenMP
	struct Team* team; int team_id; unsigned ws_count; unsigned single_count;
	struct Team* job; int job_id; int omp_nthreads; int level;
	int pool_owner; bool pool_idle;
	void* cur_ws;
};

extern Th T[MAXT];
extern int nthreads;
extern __thread Th* me;
extern bool g_child, g_multi;

struct VC { uint32_t c[MAXT]; };

void block_until(bool (*pred)(void*), void* arg, const char* what);
void yield_point();
void hb_release(VC& v);      // v := v join me; me's clock advances
void hb_acquire(const VC& v);
void* rt_alloc(size_t n);    // zeroed, never freed
VC& sync_var(const volatile void* addr, int kind);
Th* new_thread(thread_fn fn, void* arg);
void wait_thread_done(Th* t);
void hb_from(Th* from);      // me joins from's clock
void hb_to(Th* to);          // to joins my clock, mine advances
uint64_t mix64(uint64_t x);

struct Off { Off() { if(me) me->off++; } ~Off() { if(me) me->off--; } };

} // namespace sim
#endif
