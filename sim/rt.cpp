// Deterministic simulation runtime: scheduler, race detector, arena, seams.
#include "rt_int.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <new>
#include <typeinfo>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>

namespace sim {

Result* R = nullptr;
Th T[MAXT];
int nthreads = 0;
__thread Th* me = nullptr;
bool g_child = false, g_multi = false;

static uint64_t g_budget = 0;
static uint64_t g_rs_seed = 0, g_rs_period = 0, g_rs_next = 0, g_rs_n = 0;
static unsigned g_block_rule = 0;
static uint64_t g_salt = 0, g_fill = 0;
static uint64_t g_clock0 = 0, g_clock_step = 1000;
unsigned char* g_cov = nullptr;        // basic block coverage, shared
enum { COV_BITS = 24 };

uint64_t mix64(uint64_t x) {
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}

bool in_child() { return g_child; }
int self() { return me ? me->id : -1; }
uint64_t self_steps() { return me ? me->steps : 0; }
uint64_t ticks_now() { return R->ticks; }

// ------------------------------------------------------------ private heap
static char* rt_base = nullptr; static size_t rt_off = 0, rt_cap = 0;
void* rt_alloc(size_t n) {
	n = (n + 63) & ~size_t(63);
	if(rt_off + n > rt_cap) {
		rt_cap = n > (64u << 20) ? n : (64u << 20);
		rt_base = (char*) mmap(nullptr, rt_cap, PROT_READ|PROT_WRITE,
			MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		if(rt_base == MAP_FAILED) { const char m[] = "rt_alloc failed\n"; if(write(2, m, sizeof m)) {} _exit(70); }
		rt_off = 0;
	}
	void* p = rt_base + rt_off; rt_off += n;
	return p;
}

// ------------------------------------------------------------ reporting
static void publish() {
	snprintf(R->context, sizeof R->context, "%s", get_context());
	R->threads = nthreads;
	for(int i = 0; i < nthreads && i < 64; ++i) R->local_steps[i] = T[i].steps;
}

void violation(const char* cls, const char* fmt, ...) {
	Th* m = me; if(m) m->off++;
	if(!R->violated) {
		R->violated = 1;
		size_t n = strlen(cls); if(n >= sizeof R->cls) n = sizeof R->cls - 1;
		for(size_t i = 0; i < n; ++i) R->cls[i] = cls[i];
		R->cls[n] = 0;
		va_list ap; va_start(ap, fmt);
		vsnprintf(R->detail, sizeof R->detail, fmt, ap);
		va_end(ap);
	}
	uint64_t h = R->hash;
	for(const char* p = R->cls; *p; ++p) h = (h ^ (unsigned char) *p) * 0x100000001b3ull;
	R->hash = h;
	publish();
	R->done = 1;
	_exit(3);
}

void harness_error(const char* fmt, ...) {
	Th* m = me; if(m) m->off++;
	R->harness_error = 1;
	va_list ap; va_start(ap, fmt);
	vsnprintf(R->detail, sizeof R->detail, fmt, ap);
	va_end(ap);
	publish();
	_exit(4);
}

void set_context(const char* fmt, ...) {
	Off o;
	va_list ap; va_start(ap, fmt);
	vsnprintf(R->ctx[me ? me->id : 0], sizeof R->ctx[0], fmt, ap);
	va_end(ap);
}
const char* get_context() { return R->ctx[me ? me->id : 0]; }

void event(uint64_t v) { R->hash = (R->hash ^ mix64(v)) * 0x100000001b3ull; }
void count(int c, uint64_t n) { if(c >= 0 && c < MAX_CTR) R->ctr[c] += n; }

void set_budget(uint64_t t) { g_budget = R->ticks + t; }
void add_budget(uint64_t t) { g_budget = R->ticks + t; }

Unwatched::Unwatched() { if(me) me->off++; }
Unwatched::~Unwatched() { if(me) me->off--; }

// ------------------------------------------------------------ futex
static void fwait(volatile int* w) {
	int e = errno;
	while(__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
		syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
	__atomic_store_n(w, 0, __ATOMIC_RELEASE);
	errno = e;
}
static void fwake(volatile int* w) {
	int e = errno;
	__atomic_store_n(w, 1, __ATOMIC_RELEASE);
	syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
	errno = e;
}

// ------------------------------------------------------------ scheduler
static bool can_run(Th* t) {
	if(t->state == ST_RUN) return true;
	if(t->state == ST_BLOCK) return t->ready(t->ready_arg);
	return false;
}

static Th* pick(unsigned to, bool include_me) {
	Th* c[MAXT]; unsigned n = 0;
	int start = me->id;
	for(int k = 1; k <= nthreads; ++k) {
		Th* t = &T[(start + k) % nthreads];
		if(t == me && !include_me) continue;
		if(can_run(t)) c[n++] = t;
	}
	if(!n) return nullptr;
	return c[to % n];
}

static void switch_to(Th* t) {
	if(t == me) { t->state = ST_RUN; return; }
	Th* m = me;
	R->switches++;
	R->sched_hash = (R->sched_hash ^ mix64(((uint64_t) m->id << 56) ^ ((uint64_t) t->id << 48) ^ m->steps)) * 0x100000001b3ull;
	t->state = ST_RUN;
	bool done = m->state == ST_DONE;
	fwake(&t->go);
	if(done) return;
	fwait(&m->go);
}

static void record_switch(unsigned to) {
	if(R->nswitch < MAX_SWITCH) {
		SwitchRec& s = R->sw[R->nswitch++];
		s.tid = me->id; s.to = to; s.at = me->steps;
	}
}

void block_until(bool (*pred)(void*), void* arg, const char* what) {
	Th* m = me;
	if(pred(arg)) return;
	m->off++;
	while(!pred(arg)) {
		m->state = ST_BLOCK; m->ready = pred; m->ready_arg = arg;
		unsigned to = g_block_rule == 0 ? 0 : (unsigned)(mix64(g_block_rule + R->switches) >> 33);
		Th* t = pick(to, true);
		if(!t) {
			// every thread is blocked
			violation("deadlock", "no thread can run (waiting for %s) in %s", what, get_context());
		}
		switch_to(t);
	}
	m->state = ST_RUN;
	m->off--;
}

static void preempt(unsigned to) {
	Th* m = me;
	m->off++;
	Th* t = pick(to, false);
	if(t) { record_switch(to); switch_to(t); }
	m->off--;
}

static void set_next(Th* m) {
	m->next_at = m->ipre < m->npre ? m->pre[m->ipre].at : ~0ull;
}

void add_preempt(unsigned tid, uint64_t at, unsigned to) {
	if(tid >= MAXT) return;
	Th& t = T[tid];
	if(t.npre == t.cpre) {
		unsigned nc = t.cpre ? t.cpre * 2 : 32;
		Preempt* p = (Preempt*) rt_alloc(nc * sizeof(Preempt));
		for(unsigned i = 0; i < t.npre; ++i) p[i] = t.pre[i];
		t.pre = p; t.cpre = nc;
	}
	unsigned i = t.npre++;
	while(i > 0 && t.pre[i - 1].at > at) { t.pre[i] = t.pre[i - 1]; --i; }
	t.pre[i].at = at; t.pre[i].to = to;
	set_next(&t);
}

void set_random_sched(uint64_t seed, uint64_t period) {
	g_rs_seed = seed; g_rs_period = period; g_rs_n = 0;
	g_rs_next = period ? R->steps + 1 + mix64(seed) % (2 * period) : ~0ull;
}
void set_block_rule(unsigned r) { g_block_rule = r; }

static inline void maybe_switch(Th* m) {
	if(m->steps >= m->next_at) {
		unsigned to = m->pre[m->ipre].to;
		while(m->ipre < m->npre && m->pre[m->ipre].at <= m->steps) m->ipre++;
		set_next(m);
		preempt(to);
	}
	if(R->steps >= g_rs_next) {
		uint64_t r = mix64(g_rs_seed + 2 * (++g_rs_n));
		g_rs_next = R->steps + 1 + mix64(r) % (2 * g_rs_period);
		preempt((unsigned)(r >> 40));
	}
}

void yield_point() {
	Th* m = me;
	if(!m || m->off) return;
	m->steps++; R->steps++;
	if(g_multi) maybe_switch(m);
}

// ------------------------------------------------------------ vector clocks
void hb_release(VC& v) {
	Th* m = me;
	for(int i = 0; i < nthreads; ++i) if(m->vc[i] > v.c[i]) v.c[i] = m->vc[i];
	m->vc[m->id]++;
}
void hb_acquire(const VC& v) {
	Th* m = me;
	for(int i = 0; i < MAXT; ++i) if(v.c[i] > m->vc[i]) m->vc[i] = v.c[i];
}
void hb_from(Th* f) {
	for(int i = 0; i < MAXT; ++i) if(f->vc[i] > me->vc[i]) me->vc[i] = f->vc[i];
	f->vc[f->id]++;
}
void hb_to(Th* t) {
	for(int i = 0; i < MAXT; ++i) if(me->vc[i] > t->vc[i]) t->vc[i] = me->vc[i];
	me->vc[me->id]++;
}

struct SyncSlot { const volatile void* a; int kind; VC vc; SyncSlot* next; };
static SyncSlot* sync_tab[1024];
VC& sync_var(const volatile void* a, int kind) {
	unsigned h = (unsigned)(mix64((uintptr_t) a + kind * 7919) & 1023);
	for(SyncSlot* s = sync_tab[h]; s; s = s->next) if(s->a == a && s->kind == kind) return s->vc;
	SyncSlot* s = (SyncSlot*) rt_alloc(sizeof(SyncSlot));
	s->a = a; s->kind = kind; s->next = sync_tab[h]; sync_tab[h] = s;
	return s->vc;
}

// ------------------------------------------------------------ threads
static const uintptr_t STACKS = 0x500000000000ull;
static const size_t STACK_SZ = 4u << 20, STACK_GAP = 1u << 20;
static void fill_bytes(void* p, size_t n, uint64_t salt);

static void sigs_altstack() {
	stack_t ss; ss.ss_size = 65536; ss.ss_flags = 0;
	ss.ss_sp = rt_alloc(ss.ss_size);
	sigaltstack(&ss, nullptr);
}

static void* trampoline(void* p) {
	Th* t = (Th*) p;
	me = t;
	t->off = 1;
	sigs_altstack();
	fwait(&t->go);
	errno = 0;
	t->off = 0;
	if(t->pfn) t->pret = t->pfn(t->arg); else t->fn(t->arg);
	t->off = 1;
	t->state = ST_DONE;
	Th* n = pick(0, false);
	if(!n) violation("deadlock", "thread %d ended and nothing can run", t->id);
	switch_to(n);
	// The OS thread stays parked: thread-exit destructors would run
	// outside the scheduler's control.
	volatile int never = 0;
	for(;;) fwait(&never);
	return nullptr;
}

typedef int (*pcreate_t)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*);
static pcreate_t real_create;
typedef void (*throw_t)(void*, void*, void (*)(void*));
static throw_t real_throw;

Th* new_thread(thread_fn fn, void* arg) {
	if(nthreads >= MAXT) harness_error("too many simulated threads");
	Off o;
	Th* t = &T[nthreads];
	t->id = nthreads; t->fn = fn; t->arg = arg; t->pfn = nullptr;
	t->state = ST_RUN; t->go = 0;
	set_next(t);
	nthreads++;
	char* st = (char*) STACKS + t->id * (STACK_SZ + STACK_GAP);
	void* p = mmap(st, STACK_SZ, PROT_READ|PROT_WRITE,
		MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED, -1, 0);
	if(p == MAP_FAILED) harness_error("stack mmap failed");
	fill_bytes(st + STACK_SZ - (192 << 10), (192 << 10), g_fill ^ 0x5157ac);
	pthread_attr_t at; pthread_attr_init(&at);
	pthread_attr_setstack(&at, st, STACK_SZ);
	int e = errno;
	if(real_create(&t->pt, &at, trampoline, t)) harness_error("pthread_create failed");
	errno = e;
	pthread_attr_destroy(&at);
	t->vc[t->id] = 1;
	hb_to(t);
	g_multi = nthreads > 2;   // thread 0 (the coordinator) only waits
	return t;
}

int spawn(thread_fn fn, void* arg) { return new_thread(fn, arg)->id; }

static bool all_done(void*) {
	for(int i = 1; i < nthreads; ++i)
		if(T[i].state != ST_DONE && !T[i].pool_idle) return false;
	return true;
}
void join_all() {
	block_until(all_done, nullptr, "all threads");
	for(int i = 1; i < nthreads; ++i) hb_from(&T[i]);
}

static bool is_done(void* p) { return ((Th*) p)->state == ST_DONE; }
void wait_thread_done(Th* t) { block_until(is_done, t, "thread end"); hb_from(t); }

void join(int tid) { wait_thread_done(&T[tid]); }

// ------------------------------------------------------------ race detector
struct Acc { uint32_t clk; uint32_t pc; uint8_t tid, mask, w, used; };
enum { NACC = 5 };
struct Gran { uintptr_t key; Acc a[NACC]; };
static Gran* gtab = nullptr; static size_t gcap = 0, gcount = 0;

static Gran* glook(uintptr_t k) {
	if(gcount * 2 >= gcap) {
		size_t nc = gcap ? gcap * 2 : (1u << 14);
		Gran* nt = (Gran*) rt_alloc(nc * sizeof(Gran));
		for(size_t i = 0; i < gcap; ++i) if(gtab[i].key) {
			size_t j = mix64(gtab[i].key) & (nc - 1);
			while(nt[j].key) j = (j + 1) & (nc - 1);
			nt[j] = gtab[i];
		}
		gtab = nt; gcap = nc;
	}
	size_t j = mix64(k) & (gcap - 1);
	while(gtab[j].key && gtab[j].key != k) j = (j + 1) & (gcap - 1);
	if(!gtab[j].key) { gtab[j].key = k; gcount++; }
	return &gtab[j];
}

// what a code address belongs to (for reports)
static void race_check(Th* m, uintptr_t a, size_t n, bool w, uint32_t pc) {
	uintptr_t end = a + n;
	while(a < end) {
		uintptr_t g = a >> 3;
		uintptr_t e = (g + 1) << 3; if(e > end) e = end;
		uint8_t mask = (uint8_t)(((1u << (e - a)) - 1) << (a & 7));
		Gran* G = glook(g);
		int slot = -1, stale = -1;
		for(int i = 0; i < NACC; ++i) {
			Acc& x = G->a[i];
			if(!x.used) { if(slot < 0) slot = i; continue; }
			if(x.tid == m->id) {
				if(x.w == (uint8_t) w && x.mask == mask) slot = i;
				else if(stale < 0 && (x.mask & ~mask) == 0 && (w || !x.w)) stale = i;
				continue;
			}
			if(m->vc[x.tid] >= x.clk) {        // ordered before us
				if((x.mask & ~mask) == 0 && w) stale = i;
				continue;
			}
			if((x.mask & mask) && (w || x.w)) {
				char cls[160];
				snprintf(cls, sizeof cls, "data-race");
				violation(cls,
					"unsynchronised %s of %zu byte(s) by thread %d (pc=0x%x) and %s by thread %d (pc=0x%x); in %s",
					w ? "write" : "read", n, m->id, pc,
					x.w ? "write" : "read", (int) x.tid, x.pc, get_context());
			}
		}
		int s = slot >= 0 ? slot : stale >= 0 ? stale : (int)(mix64(R->steps) % NACC);
		Acc& x = G->a[s];
		x.used = 1; x.tid = m->id; x.clk = m->vc[m->id]; x.mask = mask; x.w = w; x.pc = pc;
		a = e;
	}
}

// ------------------------------------------------------------ arena
static const uintptr_t ARENA = 0x600000000000ull;
static const size_t ARENA_SZ = size_t(4) << 30;
static const uintptr_t ASHADOW = 0x610000000000ull;
enum { SH_NONE = 0, SH_RED = 0xFA, SH_FREE = 0xFD };
static uintptr_t a_next = ARENA;
static uint64_t a_live = 0, a_bytes = 0;
struct Hdr { uint64_t magic, size, seq, pad; };
static const uint64_t MAGIC = 0xA110C8ED5EEDull, MAGICF = 0xF4EED0B10Cull;

static inline uint8_t* shadow(uintptr_t a) { return (uint8_t*)(ASHADOW + ((a - ARENA) >> 3)); }
static inline bool in_arena(uintptr_t a) { return a >= ARENA && a < ARENA + ARENA_SZ; }

static void fill_bytes(void* p, size_t n, uint64_t salt) {
	uint64_t* q = (uint64_t*) p; size_t k = n / 8;
	uint64_t s = salt | 1;
	for(size_t i = 0; i < k; ++i) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; q[i] = s; }
	unsigned char* c = (unsigned char*) (q + k);
	for(size_t i = 0; i < (n & 7); ++i) c[i] = (unsigned char)(s >> (8 * i));
}

void set_fill(uint64_t s) { g_fill = s; }
uint64_t alloc_count() { return me ? me->allocs : 0; }
uint64_t alloc_faults_fired() { return me ? me->faults : 0; }
HeapMark heap_mark() { HeapMark h; h.live = a_live; h.bytes = a_bytes; return h; }
void alloc_fault_at(uint64_t n, uint64_t burst) {
	if(!me) return;
	me->fault_at = n ? me->allocs + n : 0; me->fault_burst = burst; me->faults = 0;
}
bool heap_is_live(const void* p) {
	if(!in_arena((uintptr_t) p)) return false;
	const Hdr* h = (const Hdr*) p - 1;
	return h->magic == MAGIC;
}

// Optional immediate reuse of freed blocks by the same thread, so that a new
// object gets the address of a dead one (detection of use after free is
// weaker then, so it is a choice of the plan).
static bool g_reuse = false;
enum { REUSE_CLASSES = 64, REUSE_DEPTH = 64 };
static uintptr_t reuse_list[64][REUSE_CLASSES][REUSE_DEPTH];
static uint8_t reuse_n[64][REUSE_CLASSES];
static uint64_t a_mine[64];
static uint64_t a_reused = 0;
void set_reuse(bool on) { g_reuse = on; }
uint64_t reused_blocks() { return a_reused; }
uint64_t my_live() { return me ? a_mine[me->id & 63] : 0; }

static void* arena_alloc(size_t n) {
	size_t body = (n + 15) & ~size_t(15);
	if(body == 0) body = 16;
	uintptr_t p;
	unsigned rc = (unsigned) (body >> 4), rt = me ? me->id & 63 : 0;
	if(g_reuse && me && rc < REUSE_CLASSES && reuse_n[rt][rc]) { p = reuse_list[rt][rc][--reuse_n[rt][rc]]; a_reused++; }
	else {
	p = a_next + 64;                             // redzone holds the header
	a_next = p + body + 32;
	}
	if(a_next >= ARENA + ARENA_SZ || a_bytes + n > (size_t(1) << 30))
		violation("memory-budget", "more than 1 GiB of live memory in %s", get_context());
	Hdr* h = (Hdr*) p - 1;
	h->magic = MAGIC; h->size = n; h->seq = ++R->allocs; h->pad = rt; a_mine[rt]++;
	uint8_t* s = shadow(p);
	for(int i = 1; i <= 8; ++i) s[-i] = SH_RED;
	size_t full = n >> 3, i = 0;
	for(; i < full; ++i) s[i] = 8;
	if(n & 7) s[i++] = n & 7;
	for(; i < (body + 32) >> 3; ++i) s[i] = SH_RED;
	fill_bytes((void*) p, n, mix64(g_fill + R->allocs));
	a_live++; a_bytes += n;
	return (void*) p;
}

static void arena_check(uintptr_t a, size_t n, bool w, uint32_t pc) {
	uintptr_t end = a + n;
	uint8_t v = *shadow(a);
	// fast path
	if(v == 8 && (a & 7) + n <= 8) return;
	while(a < end) {
		uintptr_t e = (a & ~uintptr_t(7)) + 8; if(e > end) e = end;
		uint8_t s = *shadow(a);
		if(!(s <= 8 && s > 0 && ((e - 1) & 7) < s)) {
			const char* what = s == SH_FREE ? "use-after-free" : "heap-out-of-bounds";
			char cls[160];
			snprintf(cls, sizeof cls, "%s", what);
			violation(cls, "%s of %zu byte(s) (pc=0x%x) by thread %d in %s",
				w ? "write" : "read", n, pc, me ? me->id : -1, get_context());
		}
		a = e;
	}
}

static void arena_free(void* p, uint32_t pc) {
	uintptr_t a = (uintptr_t) p;
	Hdr* h = (Hdr*) p - 1;
	if(h->magic == MAGICF) violation("double-free", "memory freed twice (pc=0x%x) in %s", pc, get_context());
	if(h->magic != MAGIC) violation("bad-free", "free of a pointer that was not allocated (pc=0x%x) in %s", pc, get_context());
	Th* m = me;
	if(g_multi && m && !m->off && h->size) race_check(m, a, h->size < 4096 ? h->size : 4096, true, pc);
	h->magic = MAGICF;
	size_t k = (h->size + 7) >> 3; if(!k) k = 1;
	uint8_t* s = shadow(a);
	for(size_t i = 0; i < k; ++i) s[i] = SH_FREE;
	fill_bytes(p, h->size, mix64(~g_fill + h->seq));
	a_live--; a_bytes -= h->size; a_mine[h->pad & 63]--;
	if(g_reuse && m && (h->pad & 63) == ((unsigned) m->id & 63)) {
		unsigned rt = m->id & 63, rc = (unsigned) (((h->size + 15) & ~size_t(15)) >> 4); if(!rc) rc = 1;
		if(rc < REUSE_CLASSES && reuse_n[rt][rc] < REUSE_DEPTH) reuse_list[rt][rc][reuse_n[rt][rc]++] = a;
	}
}

static void* sim_new(size_t n, bool nothrow) {
	Th* m = me;
	if(!g_child || !m || m->off) {
		void* p = malloc(n ? n : 1);
		if(!p && !nothrow) throw std::bad_alloc();
		return p;
	}
	m->allocs++;
	if(m->fault_at && m->allocs >= m->fault_at && m->allocs < m->fault_at + m->fault_burst) {
		m->faults++;
		event(0xFA17 + m->allocs);
		if(nothrow) return nullptr;
		throw std::bad_alloc();
	}
	if(n > (size_t(1) << 30)) {
		if(nothrow) return nullptr;
		throw std::bad_alloc();
	}
	return arena_alloc(n);
}
static void sim_delete(void* p, uint32_t pc) {
	if(!p) return;
	if(in_arena((uintptr_t) p)) arena_free(p, pc);
	else free(p);
}

// ------------------------------------------------------------ bounds of arrays and containers
static const char* base_name(const char* f) { const char* b = f ? strrchr(f, '/') : nullptr; return b ? b + 1 : f ? f : "?"; }
static void bad_index(void* data, uintptr_t index) {
	struct Loc { const char* file; uint32_t line, col; }; Loc* l = (Loc*) data;
	if(!g_child || !me || me->off) harness_error("array index out of bounds in the harness");
	violation("array-index-out-of-bounds", "index %lld outside its array (%s:%u) by thread %d in %s", (long long) index, base_name(l->file), l->line, me->id, get_context());
}
extern "C" void __ubsan_handle_out_of_bounds(void* data, uintptr_t index) { bad_index(data, index); }
extern "C" void __ubsan_handle_out_of_bounds_abort(void* data, uintptr_t index) { bad_index(data, index); abort(); }
// failed precondition of a standard container (index past the end, front of an empty vector, ...)
extern "C" __attribute__((noreturn)) void sim_container_misuse(const char*, int, const char*, const char*) noexcept asm("_ZSt21__glibcxx_assert_failPKciS0_S0_");
extern "C" void sim_container_misuse(const char* file, int line, const char*, const char* cond) noexcept {
	if(!g_child || !me || me->off) harness_error("container misuse in the harness");
	violation("container-precondition", "a standard container was used outside its bounds (%s:%d, %s) by thread %d in %s", base_name(file), line, cond, me->id, get_context());
	abort();
}
// ------------------------------------------------------------ stack and global red zones
// Only in programs built with the address instrumentation instead of the
// thread instrumentation (they define sim_stack_zones): the compiler marks the
// gaps around local and global objects in a shadow map, checked on every access.
extern "C" __attribute__((weak)) int sim_stack_zones;
static const uintptr_t ZSHADOW = 0x7fff8000ull, Z_LOW = 0x40000000ull, Z_MAIN = 0x7ff000000000ull, Z_MAIN_END = 0x800000000000ull;
static bool z_on;
static inline uint8_t* zshadow(uintptr_t a) { return (uint8_t*)(ZSHADOW + (a >> 3)); }
static inline uintptr_t zone_end(uintptr_t a) {
	if(a < Z_LOW) return Z_LOW;
	if(a >= STACKS && a < STACKS + MAXT * (STACK_SZ + STACK_GAP)) return STACKS + ((a - STACKS) / (STACK_SZ + STACK_GAP)) * (STACK_SZ + STACK_GAP) + STACK_SZ;
	if(a >= Z_MAIN && a < Z_MAIN_END) return Z_MAIN_END;
	return 0;
}
static void zones_map() {
	if(z_on || !&sim_stack_zones) return;
	z_on = true;
	const uintptr_t lo[3] = { 0, STACKS, Z_MAIN }, hi[3] = { Z_LOW, STACKS + MAXT * (STACK_SZ + STACK_GAP), Z_MAIN_END };
	for(int i = 0; i < 3; ++i) {
		uintptr_t a = (uintptr_t) zshadow(lo[i]) & ~4095ull, b = ((uintptr_t) zshadow(hi[i]) + 4095) & ~4095ull;
		if(mmap((void*) a, b - a, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0) != (void*) a) { fprintf(stderr, "shadow mmap failed\n"); _exit(70); }
	}
}
__attribute__((constructor(101))) static void zones_early() { zones_map(); }
// the frames from here to the top of this thread's stack are about to be unwound
__attribute__((noinline)) static void zones_unwind() {
	if(!z_on) return;
	uintptr_t sp = (uintptr_t) __builtin_frame_address(0) & ~7ull, top = zone_end(sp);
	if(!top) return;
	if(top == Z_MAIN_END) top = sp + (8u << 20) < Z_MAIN_END ? sp + (8u << 20) : Z_MAIN_END;
	memset(zshadow(sp), 0, (top - sp) >> 3);
}
static void zone_report(uintptr_t a, size_t n, bool w, uint32_t pc, uint8_t v) {
	violation(v == 0xF8 ? "stack-use-after-scope" : "stack-or-global-out-of-bounds", "%s of %zu bytes outside every local or global object (marker %02x, pc %x) by thread %d in %s",
		w ? "write" : "read", n, v, pc, me->id, get_context());
}
static inline void zone_check(uintptr_t a, size_t n, bool w, uint32_t pc) {
	if(!z_on || n == 0 || !zone_end(a)) return;
	for(uintptr_t g = a & ~7ull; g < a + n; g += 8) {
		uint8_t v = *zshadow(g);
		if(!v) continue;
		if(v < 8) {     // the first v bytes of the granule belong to an object
			uintptr_t last = a + n - 1 < g + 7 ? a + n - 1 : g + 7;
			if(last - g < v) continue;
		}
		zone_report(a, n, w, pc, v); return;
	}
}
// ------------------------------------------------------------ access
static inline void access(const volatile void* p, size_t n, bool w, uint32_t pc) {
	Th* m = me;
	if(!m || m->off) return;
	uintptr_t a = (uintptr_t) p;
	m->steps++; R->steps++;
	bool ar = in_arena(a);
	R->hash = (R->hash ^ (pc + ((uint64_t) m->id << 40) + ((uint64_t) w << 39) + (ar ? (a - ARENA) << 8 : 0))) * 0x100000001b3ull;
	if(g_multi) {
		maybe_switch(m);
		if(!z_on) race_check(m, a, n, w, pc);   // without the thread instrumentation atomics are invisible
	}
	if(ar) arena_check(a, n, w, pc);
	else zone_check(a, n, w, pc);
}

static inline void access_range(const volatile void* p, size_t n, bool w, uint32_t pc) {
	if(n == 0) return;
	access(p, n, w, pc);
}

// what the next callee finds in its frame is garbage that differs between runs
__attribute__((noinline)) static void dirty_below() {
	volatile uint64_t buf[96]; uint64_t v = g_fill | 1;
	for(int i = 0; i < 96; ++i) buf[i] = v;
}
static inline void tick(uint32_t pc) {
	Th* m = me;
	if(!m || m->off) return;
	if(z_on) dirty_below();
	g_cov[(pc & ((1u << COV_BITS) - 1)) >> 3] |= 1u << (pc & 7);
	if(++R->ticks > g_budget) {
		violation("no-progress", "work budget exhausted (%llu ticks): no result within the bound, in %s",
			(unsigned long long) R->ticks, get_context());
	}
}

// ------------------------------------------------------------ atomics
static void at_enter() {
	Th* m = me; if(!m || m->off) return;
	m->steps++; R->steps++;
	if(g_multi) maybe_switch(m);
}
static void at_sync(const volatile void* a, int mo, bool load, bool store) {
	Th* m = me; if(!m || m->off || !g_multi) return;
	bool acq = load && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST);
	bool rel = store && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST);
	VC& v = sync_var(a, 1);
	if(acq) hb_acquire(v);
	if(rel) hb_release(v);
}

// ------------------------------------------------------------ signals
static void on_signal(int s, siginfo_t*, void*) {
	const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS"
		: s == SIGILL ? "SIGILL" : s == SIGABRT ? "SIGABRT" : "signal";
	if(!g_child) _exit(71);
	if(!R->violated) {
		char cls[160];
		snprintf(cls, sizeof cls, "crash:%s", n);
		violation(cls, "the process died with %s in %s", n, get_context());
	}
	_exit(3);
}

static void on_terminate() {
	if(!g_child) { const char m[] = "terminate in parent\n"; if(write(2, m, sizeof m)) {} 
		try { if(std::current_exception()) std::rethrow_exception(std::current_exception()); } catch(const std::exception& e) { fprintf(stderr, "%s\n", e.what()); } catch(...) {}
		_exit(72); }
	Th* m = me; if(m) m->off++;
	char name[96] = "no active exception";
	std::type_info* ti = abi::__cxa_current_exception_type();
	if(ti) {
		int st = 0; char* d = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
		snprintf(name, sizeof name, "%s", d ? d : ti->name());
	}
	violation("terminate", "std::terminate called (exception: %s) in %s", name, get_context());
}

// ------------------------------------------------------------ process
void set_clock(uint64_t s, uint64_t st) { g_clock0 = s; g_clock_step = st; }

void paint_stack(uint64_t salt) {
	Off o;
	volatile unsigned char buf[48 << 10];
	fill_bytes((void*) buf, sizeof buf, salt);
	asm volatile("" : : "r"(buf) : "memory");
}

uint64_t fp_env() {
	uint16_t cw; uint32_t mx;
	asm volatile("fnstcw %0" : "=m"(cw));
	asm volatile("stmxcsr %0" : "=m"(mx));
	return ((uint64_t) cw << 32) | (mx & ~0x3Fu);
}
uint64_t fp_tag() {
	struct { uint32_t e[7]; } env;
	asm volatile("fnstenv %0\n\tfldenv %0" : "+m"(env));
	return env.e[2] & 0xffff;
}

void init_process() {
	real_create = (pcreate_t) dlsym(RTLD_NEXT, "pthread_create");
	R = (Result*) mmap(nullptr, sizeof(Result), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	g_cov = (unsigned char*) mmap(nullptr, (1u << COV_BITS) / 8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	void* a = mmap((void*) ARENA, ARENA_SZ, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED, -1, 0);
	void* b = mmap((void*) ASHADOW, ARENA_SZ / 8, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED, -1, 0);
	if(R == MAP_FAILED || g_cov == MAP_FAILED || a == MAP_FAILED || b == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); _exit(70); }
	madvise(a, ARENA_SZ, MADV_DONTFORK * 0 + MADV_NOHUGEPAGE);
	madvise(b, ARENA_SZ / 8, MADV_NOHUGEPAGE);
	std::set_terminate(on_terminate);
}

unsigned char* coverage_map() { return g_cov; }
size_t coverage_bytes() { return (1u << COV_BITS) / 8; }

void child_begin(uint64_t salt) {
	g_child = true; g_salt = salt; g_fill = mix64(salt);
	// clear only what is used of the shared block
	memset(R, 0, offsetof(Result, rec));
	R->nswitch = 0;
	memset(R->local_steps, 0, sizeof R->local_steps);
	R->hash = 0xcbf29ce484222325ull; R->sched_hash = 0xcbf29ce484222325ull;
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
	sigaction(SIGILL, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr);
	sigs_altstack();
	g_budget = ~0ull; g_rs_next = ~0ull;
	for(int i = 0; i < MAXT; ++i) T[i].next_at = ~0ull;
	me = &T[0];
	T[0].id = 0; T[0].state = ST_RUN; T[0].vc[0] = 1; T[0].off = 1;
	nthreads = 1;
	srand((unsigned) mix64(salt)); srandom((unsigned) mix64(salt + 1));
	g_clock0 = 1500000000ull * 1000000000ull + (mix64(salt + 2) % (1ull << 60)); g_clock_step = 1 + mix64(salt + 3) % 100000;
}

void child_end() {
	publish();
	R->done = 1;
	_exit(0);
}

} // namespace sim

using namespace sim;
#define PC ((uint32_t)(uintptr_t) __builtin_return_address(0))

// ------------------------------------------------------------ operator new
void* operator new(size_t n) { return sim_new(n, false); }
void* operator new[](size_t n) { return sim_new(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_new(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n, true); }
void operator delete(void* p) noexcept { sim_delete(p, PC); }
void operator delete[](void* p) noexcept { sim_delete(p, PC); }
void operator delete(void* p, size_t) noexcept { sim_delete(p, PC); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p, PC); }

extern "C" {

// ------------------------------------------------------------ tsan interface
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
	void __tsan_read##N(void* p) { access(p, N, false, PC); } \
	void __tsan_write##N(void* p) { access(p, N, true, PC); } \
	void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); } \
	void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); } \
	void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); } \
	void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access_range(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access_range(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if(*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_atomic_thread_fence(int mo) {
	Th* m = me; if(!m || m->off || !g_multi) return;
	static int fence;
	at_sync(&fence, mo, true, true);
}
void __tsan_atomic_signal_fence(int) {}

#define ATOM(N, TY) \
	TY __tsan_atomic##N##_load(const volatile TY* a, int mo) { at_enter(); TY v = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_sync(a, mo, true, false); return v; } \
	void __tsan_atomic##N##_store(volatile TY* a, TY v, int mo) { at_enter(); at_sync(a, mo, false, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	TY __tsan_atomic##N##_exchange(volatile TY* a, TY v, int mo) { at_enter(); at_sync(a, mo, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	TY __tsan_atomic##N##_fetch_add(volatile TY* a, TY v, int mo) { at_enter(); at_sync(a, mo, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	TY __tsan_atomic##N##_fetch_sub(volatile TY* a, TY v, int mo) { at_enter(); at_sync(a, mo, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	TY __tsan_atomic##N##_fetch_and(volatile TY* a, TY v, int mo) { at_enter(); at_sync(a, mo, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	TY __tsan_atomic##N##_fetch_or(volatile TY* a, TY v, int mo) { at_enter(); at_sync(a, mo, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	TY __tsan_atomic##N##_fetch_xor(volatile TY* a, TY v, int mo) { at_enter(); at_sync(a, mo, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	TY __tsan_atomic##N##_fetch_nand(volatile TY* a, TY v, int mo) { at_enter(); at_sync(a, mo, true, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##N##_compare_exchange_strong(volatile TY* a, TY* c, TY v, int mo, int fmo) { at_enter(); \
		bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
		at_sync(a, ok ? mo : fmo, true, ok); return ok; } \
	int __tsan_atomic##N##_compare_exchange_weak(volatile TY* a, TY* c, TY v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo); } \
	TY __tsan_atomic##N##_compare_exchange_val(volatile TY* a, TY c, TY v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)

void __sanitizer_cov_trace_pc() { tick(PC); }

// ------------------------------------------------------------ address instrumentation
#define AS(N) \
	void __asan_load##N##_noabort(void* p) { access(p, N, false, PC); } \
	void __asan_store##N##_noabort(void* p) { access(p, N, true, PC); }
AS(1) AS(2) AS(4) AS(8) AS(16)
void __asan_loadN_noabort(void* p, size_t n) { access_range(p, n, false, PC); }
void __asan_storeN_noabort(void* p, size_t n) { access_range(p, n, true, PC); }
void __asan_handle_no_return() { zones_unwind(); }
struct AsanGlobal { uintptr_t beg, size, with_zone; const char* name; const char* module; uintptr_t dyn; void* loc; uintptr_t odr; };
void __asan_register_globals(AsanGlobal* g, size_t n) {
	zones_map(); if(!z_on) return;
	for(size_t i = 0; i < n; ++i) {
		if(g[i].beg + g[i].with_zone > Z_LOW) continue;
		uintptr_t e = g[i].beg + g[i].size, z = g[i].beg + g[i].with_zone;
		if(e & 7) { *zshadow(e) = e & 7; e = (e + 7) & ~7ull; }
		if(z > e) memset(zshadow(e), 0xF9, (z - e) >> 3);
	}
}
void __asan_unregister_globals(void*, size_t) {}
void __asan_before_dynamic_init(const char*) {}
void __asan_after_dynamic_init() {}
void __asan_poison_stack_memory(uintptr_t a, size_t n) { if(z_on && zone_end(a)) { memset(zshadow(a), 0xF8, n >> 3); if(n & 7) *zshadow(a + (n & ~7ull)) = 0xF8; } }
void __asan_unpoison_stack_memory(uintptr_t a, size_t n) { if(z_on && zone_end(a)) { memset(zshadow(a), 0, n >> 3); if(n & 7) *zshadow(a + (n & ~7ull)) = n & 7; } }
void __asan_alloca_poison(uintptr_t, size_t) {}
void __asan_allocas_unpoison(uintptr_t, uintptr_t) {}

__attribute__((noreturn)) void __cxa_throw(void* o, void* t, void (*d)(void*)) {
	zones_unwind();
	if(!real_throw) real_throw = (throw_t) dlsym(RTLD_NEXT, "__cxa_throw");
	real_throw(o, t, d); abort();
}

// ------------------------------------------------------------ mem functions
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
	access_range(s, n, false, PC); access_range(d, n, true, PC);
	return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
	access_range(s, n, false, PC); access_range(d, n, true, PC);
	return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
	access_range(d, n, true, PC);
	return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
	access_range(a, n, false, PC); access_range(b, n, false, PC);
	return __real_memcmp(a, b, n);
}

// ------------------------------------------------------------ static guards
struct GuardWait { volatile uint8_t* g; };
static bool guard_free(void* p) { volatile uint8_t* g = (volatile uint8_t*) p; return g[0] || !g[1]; }
int __cxa_guard_acquire(uint64_t* g) {
	volatile uint8_t* b = (volatile uint8_t*) g;
	Th* m = me;
	if(!m || m->off || !g_multi) { if(b[0]) return 0; b[1] = 1; return 1; }
	yield_point();
	for(;;) {
		if(b[0]) { hb_acquire(sync_var(g, 2)); return 0; }
		if(!b[1]) { b[1] = 1; return 1; }
		block_until(guard_free, (void*) b, "static initialisation");
	}
}
void __cxa_guard_release(uint64_t* g) {
	volatile uint8_t* b = (volatile uint8_t*) g;
	if(me && g_multi) { hb_release(sync_var(g, 2)); hb_release(sync_var(g, 1)); }
	b[0] = 1; b[1] = 0;
}
void __cxa_guard_abort(uint64_t* g) { ((volatile uint8_t*) g)[1] = 0; }

// ------------------------------------------------------------ pthread seams
#define REAL(name) ({ static decltype(&name) f = nullptr; if(!f) f = (decltype(&name)) dlsym(RTLD_NEXT, #name); f; })

static Th* find_pt(pthread_t t) {
	for(int i = 1; i < nthreads; ++i) if(T[i].pt == t) return &T[i];
	return nullptr;
}
int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
	if(!g_child || !me || me->off) return real_create ? real_create(t, at, fn, arg) : REAL(pthread_create)(t, at, fn, arg);
	Th* n = new_thread(nullptr, arg);
	n->pfn = fn;
	*t = n->pt;
	yield_point();
	return 0;
}
int pthread_join(pthread_t t, void** ret) {
	Th* n = g_child && me ? find_pt(t) : nullptr;
	if(!n) return REAL(pthread_join)(t, ret);
	wait_thread_done(n);
	if(ret) *ret = n->pret;
	return 0;
}
int pthread_detach(pthread_t t) {
	if(g_child && me && find_pt(t)) return 0;
	return REAL(pthread_detach)(t);
}

struct Mx { const void* a; int owner; int depth; Mx* next; };
static Mx* mx_tab[256];
static Mx* mx(const void* a) {
	unsigned h = mix64((uintptr_t) a) & 255;
	for(Mx* m = mx_tab[h]; m; m = m->next) if(m->a == a) return m;
	Mx* m = (Mx*) rt_alloc(sizeof(Mx));
	m->a = a; m->owner = -1; m->next = mx_tab[h]; mx_tab[h] = m;
	return m;
}
static bool mx_free(void* p) { return ((Mx*) p)->owner < 0; }
static bool simulated() { return g_child && me && !me->off; }
int pthread_mutex_lock(pthread_mutex_t* p) {
	if(!simulated()) return REAL(pthread_mutex_lock)(p);
	yield_point();
	Mx* m = mx(p);
	bool rec = (p->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
	if(m->owner == me->id && rec) { m->depth++; return 0; }
	block_until(mx_free, m, "mutex");
	m->owner = me->id; m->depth = 1;
	hb_acquire(sync_var(p, 3));
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* p) {
	if(!simulated()) return REAL(pthread_mutex_trylock)(p);
	yield_point();
	Mx* m = mx(p);
	if(m->owner >= 0) return EBUSY;
	m->owner = me->id; m->depth = 1;
	hb_acquire(sync_var(p, 3));
	return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* p) {
	if(!simulated()) return REAL(pthread_mutex_unlock)(p);
	Mx* m = mx(p);
	if(m->owner < 0) return REAL(pthread_mutex_unlock)(p);
	if(--m->depth > 0) return 0;
	hb_release(sync_var(p, 3));
	m->owner = -1;
	yield_point();
	return 0;
}
struct Cv { const void* a; uint64_t seq, wake; Cv* next; };
static Cv* cv_tab[64];
static Cv* cv(const void* a) {
	unsigned h = mix64((uintptr_t) a) & 63;
	for(Cv* m = cv_tab[h]; m; m = m->next) if(m->a == a) return m;
	Cv* m = (Cv*) rt_alloc(sizeof(Cv)); m->a = a; m->next = cv_tab[h]; cv_tab[h] = m; return m;
}
struct CvW { Cv* c; uint64_t my; };
static bool cv_ready(void* p) { CvW* w = (CvW*) p; return w->c->wake > w->my; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* p) {
	if(!simulated()) return REAL(pthread_cond_wait)(c, p);
	Cv* v = cv(c); CvW w = { v, v->seq++ };
	pthread_mutex_unlock(p);
	block_until(cv_ready, &w, "condition variable");
	hb_acquire(sync_var(c, 4));
	return pthread_mutex_lock(p);
}
int pthread_cond_signal(pthread_cond_t* c) {
	if(!simulated()) return REAL(pthread_cond_signal)(c);
	Cv* v = cv(c); hb_release(sync_var(c, 4));
	if(v->wake < v->seq) v->wake++;
	yield_point(); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
	if(!simulated()) return REAL(pthread_cond_broadcast)(c);
	Cv* v = cv(c); hb_release(sync_var(c, 4));
	v->wake = v->seq;
	yield_point(); return 0;
}
int sched_yield() { if(simulated()) { preempt(0); return 0; } return (int) syscall(SYS_sched_yield); }

// ------------------------------------------------------------ clocks
static uint64_t now_ns() { return g_clock0 + R->steps * g_clock_step; }
int clock_gettime(clockid_t id, struct timespec* ts) {
	if(!g_child) return (int) syscall(SYS_clock_gettime, id, ts);
	uint64_t n = now_ns(); ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull; return 0;
}
time_t time(time_t* t) {
	time_t v;
	if(!g_child) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
	else v = now_ns() / 1000000000ull;
	if(t) *t = v;
	return v;
}
int gettimeofday(struct timeval* tv, void*) {
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
clock_t clock() {
	struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
static uint64_t rnd_ctr = 0;
ssize_t getrandom(void* b, size_t n, unsigned) {
	unsigned char* c = (unsigned char*) b;
	for(size_t i = 0; i < n; ++i) c[i] = (unsigned char) mix64(g_salt + 0x777 + rnd_ctr++);
	return n;
}
int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }

} // extern "C"
