// Simulated OpenMP runtime (the libgomp entry points GCC emits).
// Team members are simulated threads of rt.cpp; the scheduler decides every
// interleaving. Workers are pooled per encountering thread, as in libgomp,
// so thread-local state survives from one region to the next.
#include "rt_int.h"
#include <cstdio>
#include <cstdlib>

namespace sim {

static unsigned g_max = 4, g_team_seed = 0, g_pool = 1, g_regions = 0;

void omp_config(unsigned m, unsigned seed, unsigned pool) { g_max = m ? m : 1; g_team_seed = seed; g_pool = pool; }

struct WS {
	long start, end, incr, chunk; unsigned long long ustart, uend, uincr, uchunk; bool up;
	long next; unsigned long long unext;
	int kind;              // 0 dynamic 1 guided 2 static
	bool init; unsigned sections, snext; void* copy; bool copy_set; long ordered_next;
	long st_next[MAXT];
};
enum { MAXWS = 256 };
struct Team {
	int n; int master; void (*fn)(void*); void* data;
	int remaining;
	int bar_count; uint64_t bar_gen; VC bar_vc;
	WS* ws[MAXWS];
	VC ws_vc;
	uint64_t singles;
	Team* prev; int prev_id; unsigned prev_ws, prev_single; void* prev_cur;
};

struct BarW { Team* t; uint64_t gen; };
static bool bar_ready(void* p) { BarW* b = (BarW*) p; return b->t->bar_gen != b->gen; }

static void team_barrier(Team* t) {
	if(!t || t->n == 1) return;
	yield_point();
	hb_release(t->bar_vc);
	uint64_t gen = t->bar_gen;
	if(++t->bar_count == t->n) { t->bar_count = 0; t->bar_gen++; }
	else { BarW b = { t, gen }; block_until(bar_ready, &b, "barrier"); }
	hb_acquire(t->bar_vc);
	yield_point();
}

static bool has_job(void* p) { return ((Th*) p)->job != nullptr; }
static bool team_done(void* p) { return ((Team*) p)->remaining == 0; }

static void worker(void*) {
	for(;;) {
		me->pool_idle = true;
		block_until(has_job, me, "work");
		me->pool_idle = false;
		Team* t = me->job; me->job = nullptr;
		me->team = t; me->team_id = me->job_id; me->ws_count = me->single_count = 0; me->level = 1;
		for(unsigned i = 0; i < sizeof R->ctx[0]; ++i) R->ctx[me->id][i] = R->ctx[t->master][i];
		t->fn(t->data);
		me->team = nullptr;
		hb_release(t->bar_vc);
		t->remaining--;
		if(!g_pool) { me->pool_owner = -1; return; }
	}
}

static int granted(unsigned req) {
	if(me->level > 0) return 1;                       // nested regions are serialised by default
	unsigned want = req ? req : (me->omp_nthreads ? me->omp_nthreads : g_max);
	if(want > 16) want = 16;
	if(want == 0) want = 1;
	if(g_team_seed && want > 1) {
		// dynamic adjustment: the runtime may grant fewer threads
		want = 1 + (unsigned)(mix64(g_team_seed * 1000003ull + g_regions) % want);
	}
	while(want > 1 && (int) want + nthreads > MAXT + 0) {
		// limited by what the pool can still provide
		int have = 0;
		for(int i = 1; i < nthreads; ++i) if(T[i].pool_owner == me->id + 1 && T[i].pool_idle && !T[i].job) have++;
		if((int) want - 1 <= have + (MAXT - nthreads)) break;
		want--;
	}
	return (int) want;
}

static void run_parallel(void (*fn)(void*), void* data, unsigned req) {
	if(!in_child() || !me) { fn(data); return; }
	yield_point();
	g_regions++;
	R->regions++;
	Team* t;
	{
		Off o;
		t = (Team*) rt_alloc(sizeof(Team));
		t->master = me->id; t->n = granted(req); t->fn = fn; t->data = data; t->remaining = t->n - 1;
		t->prev = me->team; t->prev_id = me->team_id; t->prev_ws = me->ws_count; t->prev_single = me->single_count; t->prev_cur = me->cur_ws;
		int got = 0;
		for(int i = 1; i < nthreads && got < t->n - 1; ++i)
			if(T[i].pool_owner == me->id + 1 && T[i].pool_idle && !T[i].job) {
				hb_to(&T[i]); T[i].job_id = ++got; T[i].job = t;
			}
		while(got < t->n - 1) {
			Th* w = new_thread(worker, nullptr);
			w->pool_owner = me->id + 1; w->pool_idle = true;
			w->job_id = ++got; w->job = t;
		}
	}
	me->team = t; me->team_id = 0; me->ws_count = me->single_count = 0; me->level++;
	yield_point();
	fn(data);
	block_until(team_done, t, "end of parallel region");
	hb_acquire(t->bar_vc);
	me->level--;
	me->team = t->prev; me->team_id = t->prev_id; me->ws_count = t->prev_ws; me->single_count = t->prev_single; me->cur_ws = t->prev_cur;
	yield_point();
}

static WS* next_ws() {
	Team* t = me->team;
	if(!t) { WS* w = (WS*) rt_alloc(sizeof(WS)); me->cur_ws = w; return w; }
	unsigned k = me->ws_count++ % MAXWS;
	if(!t->ws[k]) t->ws[k] = (WS*) rt_alloc(sizeof(WS));
	me->cur_ws = t->ws[k];
	return t->ws[k];
}
static int team_n() { return me && me->team ? me->team->n : 1; }
static int team_i() { return me && me->team ? me->team_id : 0; }

static bool loop_next(WS* w, long* is, long* ie) {
	yield_point();
	long step = w->incr;
	long left = step > 0 ? (w->end - w->next + step - 1) / step : (w->next - w->end - step - 1) / -step;
	if(left <= 0) return false;
	long c = w->chunk > 0 ? w->chunk : 1;
	if(w->kind == 1) { long g = left / team_n(); if(g > c) c = g; }
	if(c > left) c = left;
	*is = w->next; *ie = w->next + c * step;
	w->next = *ie;
	if(step > 0 ? *ie > w->end : *ie < w->end) *ie = w->end;
	return true;
}
static bool uloop_next(WS* w, unsigned long long* is, unsigned long long* ie) {
	yield_point();
	unsigned long long left;
	if(w->up) { if(w->unext >= w->uend) return false; left = (w->uend - w->unext + w->uincr - 1) / w->uincr; }
	else { if(w->unext <= w->uend) return false; unsigned long long s = -w->uincr; left = (w->unext - w->uend + s - 1) / s; }
	unsigned long long c = w->uchunk ? w->uchunk : 1;
	if(w->kind == 1) { unsigned long long g = left / team_n(); if(g > c) c = g; }
	bool last = c >= left;
	*is = w->unext;
	*ie = last ? w->uend : w->unext + c * w->uincr;
	w->unext = *ie;
	return true;
}
static bool loop_start(long s, long e, long inc, long chunk, int kind, long* is, long* ie) {
	yield_point();
	WS* w = next_ws();
	if(!w->init) { w->init = true; w->start = w->next = s; w->end = e; w->incr = inc; w->chunk = chunk; w->kind = kind; }
	return is ? loop_next(w, is, ie) : true;
}
static bool uloop_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long chunk, int kind, unsigned long long* is, unsigned long long* ie) {
	yield_point();
	WS* w = next_ws();
	if(!w->init) { w->init = true; w->up = up; w->ustart = w->unext = s; w->uend = e; w->uincr = inc; w->uchunk = chunk; w->kind = kind; }
	return is ? uloop_next(w, is, ie) : true;
}

struct Lock { int owner; int depth; };
static bool lock_free(void* p) { return ((Lock*) p)->owner == 0; }
static Lock g_crit, g_atomic;
static Lock* named(void** p) { if(!*p) { Lock* l = (Lock*) rt_alloc(sizeof(Lock)); *p = l; } return (Lock*) *p; }
static void lock(Lock* l) {
	if(!in_child() || !me) return;
	yield_point();
	block_until(lock_free, l, "critical section");
	l->owner = me->id + 1;
	hb_acquire(sync_var(l, 5));
}
static void unlock(Lock* l) {
	if(!in_child() || !me) return;
	hb_release(sync_var(l, 5));
	l->owner = 0;
	yield_point();
}

} // namespace sim
using namespace sim;

extern "C" {

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run_parallel(fn, data, n); }

// combined parallel loops: the loop is set up for the whole team before it runs
struct PL { void (*fn)(void*); void* data; long s, e, inc, chunk; int kind; };
static void pl_body(void* p) {
	PL* l = (PL*) p;
	loop_start(l->s, l->e, l->inc, l->chunk, l->kind, nullptr, nullptr);
	l->fn(l->data);
}
#define PARLOOP(NAME, KIND) \
	void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, long chunk, unsigned) { PL l = { fn, d, s, e, inc, chunk, KIND }; run_parallel(pl_body, &l, n); }
PARLOOP(dynamic, 0) PARLOOP(guided, 1) PARLOOP(nonmonotonic_dynamic, 0) PARLOOP(nonmonotonic_guided, 1)
#define PARLOOPR(NAME) \
	void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, unsigned) { PL l = { fn, d, s, e, inc, 1, 0 }; run_parallel(pl_body, &l, n); }
PARLOOPR(runtime) PARLOOPR(nonmonotonic_runtime) PARLOOPR(maybe_nonmonotonic_runtime)
void GOMP_parallel_loop_static(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, long chunk, unsigned) { PL l = { fn, d, s, e, inc, chunk ? chunk : 1, 0 }; run_parallel(pl_body, &l, n); }

#define LOOP(NAME, KIND) \
	bool GOMP_loop_##NAME##_start(long s, long e, long inc, long chunk, long* is, long* ie) { return loop_start(s, e, inc, chunk, KIND, is, ie); } \
	bool GOMP_loop_##NAME##_next(long* is, long* ie) { return loop_next((WS*) me->cur_ws, is, ie); } \
	bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long chunk, unsigned long long* is, unsigned long long* ie) { return uloop_start(up, s, e, inc, chunk, KIND, is, ie); } \
	bool GOMP_loop_ull_##NAME##_next(unsigned long long* is, unsigned long long* ie) { return uloop_next((WS*) me->cur_ws, is, ie); }
LOOP(dynamic, 0) LOOP(guided, 1) LOOP(nonmonotonic_dynamic, 0) LOOP(nonmonotonic_guided, 1) LOOP(static, 0)
#define LOOPR(NAME) \
	bool GOMP_loop_##NAME##_start(long s, long e, long inc, long* is, long* ie) { return loop_start(s, e, inc, 1, 0, is, ie); } \
	bool GOMP_loop_##NAME##_next(long* is, long* ie) { return loop_next((WS*) me->cur_ws, is, ie); } \
	bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long* is, unsigned long long* ie) { return uloop_start(up, s, e, inc, 1, 0, is, ie); } \
	bool GOMP_loop_ull_##NAME##_next(unsigned long long* is, unsigned long long* ie) { return uloop_next((WS*) me->cur_ws, is, ie); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { team_barrier(me ? me->team : nullptr); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { team_barrier(me ? me->team : nullptr); return false; }

// ordered
struct OrdW { WS* w; long at; };
bool GOMP_loop_ordered_static_start(long s, long e, long inc, long chunk, long* is, long* ie) { return loop_start(s, e, inc, chunk ? chunk : 1, 0, is, ie); }
bool GOMP_loop_ordered_static_next(long* is, long* ie) { return loop_next((WS*) me->cur_ws, is, ie); }
bool GOMP_loop_ordered_dynamic_start(long s, long e, long inc, long chunk, long* is, long* ie) { return loop_start(s, e, inc, chunk, 0, is, ie); }
bool GOMP_loop_ordered_dynamic_next(long* is, long* ie) { return loop_next((WS*) me->cur_ws, is, ie); }
void GOMP_ordered_start() { lock(&g_crit); }
void GOMP_ordered_end() { unlock(&g_crit); }

void GOMP_barrier() { team_barrier(me ? me->team : nullptr); }
bool GOMP_single_start() {
	if(!me || !me->team) return true;
	yield_point();
	WS* w = next_ws();
	if(w->init) return false;
	w->init = true; return true;
}
void* GOMP_single_copy_start() {
	if(!me || !me->team) return nullptr;
	yield_point();
	WS* w = next_ws();
	if(!w->init) { w->init = true; return nullptr; }
	team_barrier(me->team);
	void* c = w->copy;
	return c;
}
void GOMP_single_copy_end(void* d) { if(!me || !me->team) return; ((WS*) me->cur_ws)->copy = d; team_barrier(me->team); }

unsigned GOMP_sections_start(unsigned n) { yield_point(); WS* w = next_ws(); if(!w->init) { w->init = true; w->sections = n; w->snext = 0; } return w->snext < w->sections ? ++w->snext : 0; }
unsigned GOMP_sections_next() { yield_point(); WS* w = (WS*) me->cur_ws; return w->snext < w->sections ? ++w->snext : 0; }
void GOMP_sections_end() { team_barrier(me ? me->team : nullptr); }
void GOMP_sections_end_nowait() {}
struct PS { void (*fn)(void*); void* data; unsigned n; };
static void ps_body(void* p) { PS* s = (PS*) p; WS* w = next_ws(); if(!w->init) { w->init = true; w->sections = s->n; w->snext = 0; } s->fn(s->data); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned count, unsigned) { PS s = { fn, d, count }; run_parallel(ps_body, &s, nt); }

void GOMP_critical_start() { lock(&g_crit); }
void GOMP_critical_end() { unlock(&g_crit); }
void GOMP_critical_name_start(void** p) { lock(named(p)); }
void GOMP_critical_name_end(void** p) { unlock(named(p)); }
void GOMP_atomic_start() { lock(&g_atomic); }
void GOMP_atomic_end() { unlock(&g_atomic); }

void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
	// executed undeferred: one of the orders OpenMP allows
	yield_point();
	if(cpy) {
		char* buf = (char*) rt_alloc(size + align);
		char* a = (char*) (((uintptr_t) buf + align - 1) & ~(uintptr_t)(align - 1));
		cpy(a, data); fn(a);
	} else fn(data);
	yield_point();
}
void GOMP_taskwait() { yield_point(); }
void GOMP_taskyield() { yield_point(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() { yield_point(); }
void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned, unsigned long, int, long start, long end, long) {
	yield_point();
	char* buf = (char*) rt_alloc(size + align);
	char* a = (char*) (((uintptr_t) buf + align - 1) & ~(uintptr_t)(align - 1));
	if(cpy) cpy(a, data); else for(long i = 0; i < size; ++i) a[i] = ((char*) data)[i];
	((long*) a)[0] = start; ((long*) a)[1] = end;
	fn(a);
}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

int omp_get_num_threads() { return team_n(); }
int omp_get_thread_num() { return team_i(); }
int omp_get_max_threads() { return me && me->omp_nthreads ? me->omp_nthreads : (int) g_max; }
int omp_get_num_procs() { return (int) g_max; }
int omp_in_parallel() { return me && me->team && me->team->n > 1; }
void omp_set_num_threads(int n) { if(me && n > 0) me->omp_nthreads = n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return g_team_seed != 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
int omp_get_level() { return me ? me->level : 0; }
int omp_get_active_level() { return me && me->team && me->team->n > 1; }
int omp_get_thread_limit() { return 64; }
double omp_get_wtime() { return (double) (R ? R->steps : 0) * 1e-6; }
double omp_get_wtick() { return 1e-6; }
struct OL { void* a; Lock l; OL* next; };
static OL* ol_list;
static Lock* ol(void* a) {
	for(OL* o = ol_list; o; o = o->next) if(o->a == a) return &o->l;
	OL* o = (OL*) rt_alloc(sizeof(OL)); o->a = a; o->next = ol_list; ol_list = o; return &o->l;
}
void omp_init_lock(void* l) { ol(l); }
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { lock(ol(l)); }
void omp_unset_lock(void* l) { unlock(ol(l)); }
int omp_test_lock(void* l) { yield_point(); Lock* k = ol(l); if(k->owner) return 0; lock(k); return 1; }

} // extern "C"
