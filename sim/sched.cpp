// Thread scheduler and happens-before race detector.
//
// The code under test is compiled with -fsanitize=thread, but linked against
// this file instead of the ThreadSanitizer runtime: every memory access and
// atomic operation of the library calls in here.  Simulated threads are real
// threads of which exactly one runs at any time; which one, and for how many
// accesses, comes from the schedule tape.  Each access is checked against the
// vector clocks of the other threads, so a race is reported in whichever order
// the two accesses happen to be scheduled.  Atomics execute sequentially
// consistently (no stale values), their declared order decides which
// happens-before edges they create.
#include "sim.h"
#include "core.h"
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim {

enum { MAXT = 8 };
enum TState { T_NONE = 0, T_RUN, T_BLOCKED, T_DONE };
typedef uint32_t VC[MAXT];

struct Thr {
	TState st; const void* key; int futex;
	VC vc, acq, rel;     // clock; pending acquire (relaxed loads before a fence); release fence
	thread_fn fn; void* arg; void* (*pfn)(void*); void* pret; pthread_t h; bool lib, joined, detached;
	int inlib;
};
static Thr g_t[MAXT];
static int g_nt = 1, g_cur;         // threads ever started in this case, running one
static int g_live = 0;              // simulated threads not finished (besides main)
static __thread int t_id;
static uint64_t g_points, g_preempt, g_gap, g_since, g_hash, g_switches, g_gaprange;
static bool g_shared_only;
static uint64_t g_accesses, g_shared;

static inline bool on() { return g_live > 0 && case_active(); }
static void futex_wait(int* w) { while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(w, 0, __ATOMIC_RELEASE); }
static void futex_wake(int* w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void new_gap() {
	g_since = 0;
	uint64_t v = draw_sched(g_gaprange);
	g_gap = v ? v : ~0ull;   // 0: run on until blocked or finished
}
// Hands the baton to a runnable thread other than the caller (or any, if the caller cannot run).
static void switch_away(bool fair) {
	int cand[MAXT], n = 0, me = t_id;
	for (int i = 0; i < g_nt; ++i) { int k = fair ? (me + 1 + i) % g_nt : i; if (k != me && g_t[k].st == T_RUN) cand[n++] = k; }
	if (!n) {
		if (g_t[me].st == T_RUN) { new_gap(); return; }
		char b[300]; int p = 0; b[0] = 0;
		for (int i = 0; i < g_nt; ++i) if (g_t[i].st == T_BLOCKED && p < 250) p += snprintf(b + p, sizeof b - (size_t)p, " %d", i);
		fail("deadlock", "no thread can continue; blocked:%s", b);
	}
	int next = cand[fair || n == 1 ? 0 : draw_sched((uint64_t)n)];
	if (g_t[me].st == T_RUN) ++g_preempt;
	++g_switches;
	g_hash = mix(g_hash, (g_points << 4) | (uint64_t)next);
	if (g_switches <= 300) note("  schedule: thread %d -> %d after %llu accesses", me, next, (unsigned long long)g_since);
	g_cur = next;
	bool done = g_t[me].st == T_DONE;
	new_gap();
	futex_wake(&g_t[next].futex);
	if (!done) futex_wait(&g_t[me].futex);
}
static inline void point() {
	++g_points; ++g_since;
	if (--g_gap == 0) { switch_away(false); return; }
	if (g_since > 300000) switch_away(true); // nobody may starve the others
}
static void block_on(const void* key) { g_t[t_id].st = T_BLOCKED; g_t[t_id].key = key; switch_away(false); }
static void wake_all(const void* key) { for (int i = 0; i < g_nt; ++i) if (g_t[i].st == T_BLOCKED && g_t[i].key == key) g_t[i].st = T_RUN; }
static void wake_one(const void* key) { int c[MAXT], n = 0; for (int i = 0; i < g_nt; ++i) if (g_t[i].st == T_BLOCKED && g_t[i].key == key) c[n++] = i; if (n) g_t[c[n == 1 ? 0 : draw_sched((uint64_t)n)]].st = T_RUN; }

static inline void join_vc(VC a, const VC b) { for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }

// ------------------------------------------------------- synchronisation objects
struct Sync { uintptr_t a; VC vc; int owner, depth, readers; bool once; };
enum { NSYNC = 1 << 12 };
static Sync g_sync[NSYNC]; static int g_nsync; static int g_sidx[NSYNC];
static Sync& sync_of(const void* p) {
	uintptr_t a = (uintptr_t)p; size_t h = (size_t)((a * 0x9e3779b97f4a7c15ull) >> 40) & (NSYNC - 1);
	for (size_t i = 0; i < NSYNC; ++i, h = (h + 1) & (NSYNC - 1)) {
		if (g_sync[h].a == a) return g_sync[h];
		if (!g_sync[h].a) { if (g_nsync > NSYNC / 2) fail("internal:sync-table", "too many synchronisation objects"); g_sync[h].a = a; g_sync[h].owner = -1; g_sidx[g_nsync++] = (int)h; return g_sync[h]; }
	}
	fail("internal:sync-table", "synchronisation table full");
}
static void acquire(Sync& s) { join_vc(g_t[t_id].vc, s.vc); }
static void tick() { ++g_t[t_id].vc[t_id]; }
static void release(Sync& s, bool keep) { if (!keep) memset(s.vc, 0, sizeof s.vc); join_vc(s.vc, g_t[t_id].vc); tick(); }

// -------------------------------------------------------------- shadow memory
enum Kind { RD, WR, AR, AW };     // plain and atomic accesses
struct Acc { uint32_t clk[4], pc[4]; uint8_t m[4]; };   // the latest access of each kind by one thread
struct Cell { Acc t[MAXT]; };
struct Region { uintptr_t lo, hi; Cell* cells; const char* what; };
enum { NREG = 34 };
static Region g_reg[NREG]; static int g_nreg;
static const size_t SPAN = 256ull << 20;
static uint8_t* g_valid;     // per arena word: valid bytes (1..8), 0 never allocated, 0xff released
static Cell* map_cells(size_t words) {
	void* p = mmap(nullptr, words * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { static const char m[] = "sim: cannot map shadow memory\n"; if (::syscall(SYS_write, 2, m, sizeof m - 1)) {} _exit(3); }
	return (Cell*)p;
}
static void shadow_init() {
	if (g_valid) return;
	g_valid = (uint8_t*)mmap(nullptr, SPAN / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (g_valid == MAP_FAILED) _exit(3);
	g_reg[0].lo = arena_lo(); g_reg[0].hi = arena_lo() + SPAN; g_reg[0].cells = map_cells(SPAN / 8); g_reg[0].what = "heap";
	g_nreg = 1;
	dl_iterate_phdr([](struct dl_phdr_info* info, size_t, void*) -> int {
		for (int i = 0; i < info->dlpi_phnum; ++i) {
			const ElfW(Phdr)& ph = info->dlpi_phdr[i];
			if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W) || g_nreg >= NREG - 1) continue;
			Region& r = g_reg[g_nreg++];
			r.lo = (info->dlpi_addr + ph.p_vaddr) & ~(uintptr_t)7; r.hi = (info->dlpi_addr + ph.p_vaddr + ph.p_memsz + 7) & ~(uintptr_t)7;
			r.cells = map_cells((r.hi - r.lo) / 8); r.what = "static data";
		}
		return 1; // only the program itself
	}, nullptr);
}
static void name_pc(uint32_t pc, char* out, size_t n) {
	Dl_info d;
	if (pc && dladdr((void*)(uintptr_t)pc, &d) && d.dli_sname) {
		int st; char* s = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
		snprintf(out, n, "%.150s", s && !st ? s : d.dli_sname); free(s);
	} else snprintf(out, n, "?");
}
[[noreturn]] static void race(const Region& r, uintptr_t a, size_t n, const char* now, uint32_t pc, int other, const char* then, uint32_t opc) {
	char f[160], g[160]; name_pc(pc, f, sizeof f); name_pc(opc, g, sizeof g);
	fail("data-race", "%s of %zu bytes of %s by thread %d in %s races with %s by thread %d in %s", now, n, r.what, t_id, f, then, other, g);
}
static const char* const KIND[] = { "read", "write", "atomic read", "atomic write" };
static bool conflict(int a, int b) { static const uint8_t C[4] = { 0xa, 0xf, 0x2, 0x3 }; return C[a] >> b & 1; }
static void check_word(const Region& r, Cell& c, uintptr_t a, size_t n, uint8_t m, Kind k, uint32_t pc, bool& shared) {
	const uint32_t* vc = g_t[t_id].vc;
	for (int i = 0; i < g_nt; ++i) {
		if (i == t_id) continue;
		Acc& o = c.t[i];
		for (int q = 0; q < 4; ++q) {
			if (!o.m[q]) continue;
			shared = true;
			if (conflict(k, q) && (o.m[q] & m) && o.clk[q] > vc[i]) race(r, a, n, KIND[k], pc, i, KIND[q], o.pc[q]);
		}
	}
	Acc& me = c.t[t_id]; uint32_t clk = vc[t_id];
	if (me.clk[k] != clk) me.m[k] = 0;
	me.m[k] |= m; me.clk[k] = clk; me.pc[k] = pc;
}
static Region* region_of(uintptr_t a) {
	for (int i = 0; i < g_nreg; ++i) if (a >= g_reg[i].lo && a < g_reg[i].hi) return &g_reg[i];
	return nullptr;
}
static void bad_heap(uintptr_t a, size_t n, Kind k, uint8_t v, uint32_t pc) {
	char f[160]; name_pc(pc, f, sizeof f);
	fail(v == 0xff ? "use-after-free" : "heap-overflow", "%s of %zu bytes of %s memory in %s by thread %d", KIND[k], n, v == 0xff ? "released" : "unallocated", f, t_id);
}
static void access(const void* p, size_t n, Kind k, void* ret) {
	uintptr_t a = (uintptr_t)p;
	if (!case_active() || !n) return;
	Region* r = region_of(a);
	if (!r) return;
	uint32_t pc = (uint32_t)(uintptr_t)ret - 1;
	if (r == &g_reg[0]) {
		for (uintptr_t w = a & ~(uintptr_t)7; w < a + n; w += 8) {
			uint8_t v = g_valid[(w - r->lo) >> 3];
			size_t need = a + n - w; if (need > 8) need = 8;
			if (v == 0xff || v < need) bad_heap(a, n, k, v, pc);
		}
	}
	if (!on()) return;
	bool shared = false;
	for (uintptr_t w = a & ~(uintptr_t)7; w < a + n && w < r->hi; w += 8) {
		unsigned lo = w < a ? (unsigned)(a - w) : 0, hi = a + n - w >= 8 ? 8 : (unsigned)(a + n - w);
		uint8_t m = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
		check_word(*r, r->cells[(w - r->lo) >> 3], a, n, m, k, pc, shared);
	}
	++g_accesses; g_shared += shared;
	if (!g_shared_only || shared) point(); else { ++g_points; ++g_since; }
}
static void forget(Region& r, uintptr_t a, size_t n) {
	uintptr_t lo = a & ~(uintptr_t)7, hi = (a + n + 7) & ~(uintptr_t)7; if (hi > r.hi) hi = r.hi;
	if (lo < hi) memset((void*)&r.cells[(lo - r.lo) >> 3], 0, ((hi - lo) >> 3) * sizeof(Cell));
}
void hook_alloc(void* p, size_t n) {
	shadow_init();
	uintptr_t a = (uintptr_t)p; if (a + n > g_reg[0].hi) return;
	if (on()) forget(g_reg[0], a, n);
	uint8_t* v = &g_valid[(a - g_reg[0].lo) >> 3];
	memset(v, 8, n / 8); if (n & 7) v[n / 8] = (uint8_t)(n & 7);
	if (!n) v[0] = 0;
}
void hook_free(void* p, size_t n) {
	uintptr_t a = (uintptr_t)p; if (a + n > g_reg[0].hi) return;
	if (on()) { // releasing memory conflicts with every unordered use of it
		bool sh = false;
		for (uintptr_t w = a; w < a + n; w += 8) check_word(g_reg[0], g_reg[0].cells[(w - g_reg[0].lo) >> 3], a, n, (uint8_t)(a + n - w >= 8 ? 0xff : (1u << (a + n - w)) - 1), WR, (uint32_t)(uintptr_t)__builtin_return_address(0), sh);
	}
	for (int i = 0; i < g_nsync; ++i) { Sync& s = g_sync[g_sidx[i]]; if (s.a >= a && s.a < a + n) { memset(s.vc, 0, sizeof s.vc); s.owner = -1; s.depth = s.readers = 0; s.once = false; } }
	memset(&g_valid[(a - g_reg[0].lo) >> 3], 0xff, (n + 7) / 8);
}
void track(const void* p, size_t n) {
	shadow_init();
	if (region_of((uintptr_t)p) || g_nreg >= NREG) return;
	Region& r = g_reg[g_nreg++]; r.lo = (uintptr_t)p & ~(uintptr_t)7; r.hi = ((uintptr_t)p + n + 7) & ~(uintptr_t)7;
	r.cells = map_cells((r.hi - r.lo) / 8); r.what = "shared memory";
}

// -------------------------------------------------------------------- threads
static void finish_thread(void*);
static pthread_key_t g_key;
uint64_t preemptions() { return g_preempt; }
uint64_t sched_points() { return g_points; }
int self_tid() { return t_id; }
void yield_point() { if (on()) point(); }
void io_point() { if (on()) point(); }
void sched_case_begin() {
	shadow_init();
	static bool have; if (!have) { have = true; pthread_key_create(&g_key, finish_thread); }
	memset(g_t, 0, sizeof g_t); g_nt = 1; g_cur = 0; g_live = 0; t_id = 0;
	g_t[0].st = T_RUN; g_t[0].vc[0] = 1;
	g_points = g_preempt = g_switches = g_hash = g_accesses = g_shared = 0; g_gap = ~0ull; g_gaprange = 1;
	// one core: handing the baton over is then a plain context switch
	cpu_set_t s; CPU_ZERO(&s); if (!sched_getaffinity(0, sizeof s, &s)) { int n = CPU_COUNT(&s), want = (int)(g_run % (uint64_t)(n ? n : 1)), k = 0; for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &s) && k++ == want) { CPU_ZERO(&s); CPU_SET(i, &s); sched_setaffinity(0, sizeof s, &s); break; } }
}
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_join)(pthread_t, void**);
static int (*real_detach)(pthread_t);
template <class F> static void real(F& f, const char* n) { if (!f) f = (F)dlsym(RTLD_NEXT, n); }
static void finish_thread(void*) {
	Thr& t = g_t[t_id];
	release(sync_of(&t.fn), true);   // what it did happened before whatever follows the join
	t.st = T_DONE; --g_live;
	wake_all(&t.fn);
	if (g_live == 0) { // only main can be left
		g_cur = 0; g_t[0].st = T_RUN; futex_wake(&g_t[0].futex);
		return;
	}
	switch_away(false);
}
static void* thread_main(void* v) {
	int id = (int)(intptr_t)v; t_id = id;
	futex_wait(&g_t[id].futex);
	acquire(sync_of(&g_t[id].arg));
	if (g_t[id].inlib) lib_enter();
	if (g_t[id].fn) g_t[id].fn(g_t[id].arg); else g_t[id].pret = g_t[id].pfn(g_t[id].arg);
	if (g_t[id].inlib) lib_leave();
	pthread_setspecific(g_key, (void*)1); // the baton goes on after the thread's own thread_local destructors
	return nullptr;
}
static int start(thread_fn fn, void* (*pfn)(void*), void* arg) {
	int id = -1;
	for (int i = 1; i < g_nt; ++i) if (g_t[i].st == T_DONE && g_t[i].joined) { id = i; break; }
	if (id < 0) { if (g_nt == MAXT) fail("internal:threads", "more than %d threads", MAXT - 1); id = g_nt++; }
	Thr& t = g_t[id]; uint32_t old = t.vc[id];
	memset(&t, 0, sizeof t); t.vc[id] = old + 1;
	t.fn = fn; t.pfn = pfn; t.arg = arg; t.st = T_RUN;
	release(sync_of(&t.arg), true);
	real(real_create, "pthread_create");
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
	if (real_create(&t.h, &at, thread_main, (void*)(intptr_t)id)) fail("internal:threads", "cannot create a thread");
	pthread_attr_destroy(&at);
	++g_live;
	return id;
}
static void join_thread(int id) {
	while (g_t[id].st != T_DONE) { if (on()) block_on(&g_t[id].fn); }
	acquire(sync_of(&g_t[id].fn));
	if (!g_t[id].joined) { real(real_join, "pthread_join"); real_join(g_t[id].h, nullptr); g_t[id].joined = true; }
}
void run_threads(int n, thread_fn fn, void** args) {
	static const uint64_t ranges[] = { 3, 24, 8, 100, 600, 4000, 30000, 200000 };
	g_gaprange = ranges[draw_sched(8)];
	g_shared_only = draw_sched(2);
	int id[MAXT];
	for (int i = 0; i < n; ++i) id[i] = start(fn, nullptr, args[i]);
	for (int i = 0; i < n; ++i) join_thread(id[i]);
	note("threads %d done: %llu accesses (%llu shared), %llu preemptions, interleaving %016llx", n, (unsigned long long)g_accesses, (unsigned long long)g_shared, (unsigned long long)g_preempt, (unsigned long long)g_hash);
	state(g_hash);
	g_gap = ~0ull;
}

// --------------------------------------------------------------- mutexes etc.
static void mlock(const void* m, bool recursive) {
	point();
	Sync* s = &sync_of(m);
	if (s->owner == t_id) { if (recursive) { ++s->depth; return; } fail("deadlock", "thread %d locks a mutex it already holds", t_id); }
	while (s->owner >= 0 || s->readers) { block_on(m); s = &sync_of(m); }
	s->owner = t_id; s->depth = 1; acquire(*s);
}
static void munlock(const void* m) {
	Sync& s = sync_of(m);
	if (s.owner != t_id) return;
	if (--s.depth) return;
	s.owner = -1; release(s, true); wake_all(m);
	point();
}
} // namespace sim

using namespace sim;
#define PASS(ret, name, types, args) static ret (*f) types; real(f, name); return f args
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { if (!on()) { PASS(int, "pthread_mutex_lock", (pthread_mutex_t*), (m)); } mlock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!on()) { PASS(int, "pthread_mutex_trylock", (pthread_mutex_t*), (m)); } point(); Sync& s = sync_of(m); if (s.owner == t_id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++s.depth; return 0; } if (s.owner >= 0) return EBUSY; s.owner = t_id; s.depth = 1; acquire(s); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!on()) { PASS(int, "pthread_mutex_unlock", (pthread_mutex_t*), (m)); } munlock(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!on()) { PASS(int, "pthread_rwlock_rdlock", (pthread_rwlock_t*), (m)); } point(); while (sync_of(m).owner >= 0) block_on(m); Sync& s = sync_of(m); ++s.readers; acquire(s); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!on()) { PASS(int, "pthread_rwlock_wrlock", (pthread_rwlock_t*), (m)); } mlock(m, false); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!on()) { PASS(int, "pthread_rwlock_unlock", (pthread_rwlock_t*), (m)); } Sync& s = sync_of(m); if (s.owner == t_id) { munlock(m); return 0; } if (s.readers) { --s.readers; release(s, true); wake_all(m); point(); } return 0; }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
	if (!on()) { PASS(int, "pthread_once", (pthread_once_t*, void (*)(void)), (o, fn)); }
	point();
	while (true) {
		Sync& s = sync_of(o);
		if (*(volatile int*)o == 2) { acquire(s); return 0; }
		if (!s.once) { s.once = true; break; }
		block_on(o);
	}
	try { fn(); } catch (...) { sync_of(o).once = false; wake_all(o); throw; }
	*(volatile int*)o = 2; release(sync_of(o), true); wake_all(o);
	return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!on()) { PASS(int, "pthread_cond_wait", (pthread_cond_t*, pthread_mutex_t*), (c, m)); } Sync& s = sync_of(m); s.owner = -1; s.depth = 0; release(s, true); wake_all(m); block_on(c); mlock(m, false); return 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (!on()) { PASS(int, "pthread_cond_timedwait", (pthread_cond_t*, pthread_mutex_t*, const struct timespec*), (c, m, t)); } munlock(m); switch_away(true); mlock(m, false); return ETIMEDOUT; }
int pthread_cond_signal(pthread_cond_t* c) { if (!on()) { PASS(int, "pthread_cond_signal", (pthread_cond_t*), (c)); } point(); wake_one(c); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!on()) { PASS(int, "pthread_cond_broadcast", (pthread_cond_t*), (c)); } point(); wake_all(c); return 0; }
int sched_yield() { if (on()) { ++g_points; switch_away(true); } return 0; }
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
	if (!case_active()) { real(real_create, "pthread_create"); return real_create(h, a, fn, arg); }
	int id = start(nullptr, fn, arg); g_t[id].lib = true; g_t[id].inlib = lib_depth() > 0; *h = (pthread_t)(uintptr_t)(0x7000 + id);
	if (g_gaprange < 2) { g_gaprange = 100; new_gap(); }
	point(); return 0;
}
int pthread_join(pthread_t h, void** r) {
	uintptr_t k = (uintptr_t)h;
	if (case_active() && k > 0x7000 && k < 0x7000 + MAXT) { int id = (int)(k - 0x7000); join_thread(id); if (r) *r = g_t[id].pret; return 0; }
	real(real_join, "pthread_join"); return real_join(h, r);
}
int pthread_detach(pthread_t h) { uintptr_t k = (uintptr_t)h; if (case_active() && k > 0x7000 && k < 0x7000 + MAXT) return 0; real(real_detach, "pthread_detach"); return real_detach(h); }

// function-local statics
int __cxa_guard_acquire(uint8_t* g) {
	if (on()) point();
	while (true) {
		if (g[0]) { if (on()) acquire(sync_of(g)); return 0; }
		if (!g[1]) { g[1] = (uint8_t)(1 + t_id); return 1; }
		if (!on() || g[1] == 1 + t_id) fail("deadlock", "recursive initialisation of a function-local static");
		block_on(g);
	}
}
void __cxa_guard_release(uint8_t* g) { g[1] = 0; g[0] = 1; if (on()) { release(sync_of(g), true); wake_all(g); } }
void __cxa_guard_abort(uint8_t* g) { g[1] = 0; if (on()) { release(sync_of(g), true); wake_all(g); } }

// ------------------------------------------------------- compiler interface
#define RA __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
	void __tsan_read##N(void* p) { access(p, N, RD, RA); } void __tsan_write##N(void* p) { access(p, N, WR, RA); } \
	void __tsan_unaligned_read##N(void* p) { access(p, N, RD, RA); } void __tsan_unaligned_write##N(void* p) { access(p, N, WR, RA); } \
	void __tsan_volatile_read##N(void* p) { access(p, N, RD, RA); } void __tsan_volatile_write##N(void* p) { access(p, N, WR, RA); } \
	void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, RD, RA); } void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, WR, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, RD, RA); }
void __tsan_write_range(void* p, size_t n) { access(p, n, WR, RA); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, WR, RA); }
void __tsan_vptr_read(void** p) { access(p, 8, RD, RA); }

static void at_load(const void* a, int mo) {
	if (!on()) return;
	Sync& s = sync_of(a);
	if (mo == __ATOMIC_RELAXED) join_vc(g_t[t_id].acq, s.vc); else acquire(s);
}
static void at_store(const void* a, int mo) {
	if (!on()) return;
	Sync& s = sync_of(a);
	if (mo == __ATOMIC_RELAXED) { memset(s.vc, 0, sizeof s.vc); join_vc(s.vc, g_t[t_id].rel); } else release(s, false);
}
static void at_rmw(const void* a, int mo) {
	if (!on()) return;
	Sync& s = sync_of(a);
	if (mo == __ATOMIC_RELAXED || mo == __ATOMIC_RELEASE) join_vc(g_t[t_id].acq, s.vc); else acquire(s);
	if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) release(s, true); else join_vc(s.vc, g_t[t_id].rel);
}
#define ATOM(B, T) \
	T __tsan_atomic##B##_load(const volatile T* a, int mo) { access((const void*)a, sizeof(T), AR, RA); at_load((const void*)a, mo); return *a; } \
	void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { access((const void*)a, sizeof(T), AW, RA); at_store((const void*)a, mo); *a = v; } \
	T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { access((const void*)a, sizeof(T), AW, RA); at_rmw((const void*)a, mo); T o = *a; *a = v; return o; } \
	T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { access((const void*)a, sizeof(T), AW, RA); at_rmw((const void*)a, mo); T o = *a; *a = (T)(o + v); return o; } \
	T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { access((const void*)a, sizeof(T), AW, RA); at_rmw((const void*)a, mo); T o = *a; *a = (T)(o - v); return o; } \
	T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { access((const void*)a, sizeof(T), AW, RA); at_rmw((const void*)a, mo); T o = *a; *a = (T)(o & v); return o; } \
	T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { access((const void*)a, sizeof(T), AW, RA); at_rmw((const void*)a, mo); T o = *a; *a = (T)(o | v); return o; } \
	T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { access((const void*)a, sizeof(T), AW, RA); at_rmw((const void*)a, mo); T o = *a; *a = (T)(o ^ v); return o; } \
	T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { access((const void*)a, sizeof(T), AW, RA); at_rmw((const void*)a, mo); T o = *a; *a = (T)~(o & v); return o; } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { access((const void*)a, sizeof(T), AW, RA); if (*a == *c) { at_rmw((const void*)a, mo); *a = v; return 1; } at_load((const void*)a, fmo); *c = *a; return 0; } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo); } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
	if (!on()) return;
	point();
	Thr& t = g_t[t_id];
	if (mo != __ATOMIC_RELEASE) join_vc(t.vc, t.acq);
	if (mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) { memcpy(t.rel, t.vc, sizeof t.rel); tick(); }
}
void __tsan_atomic_signal_fence(int) {}

// memory functions called by the code under test
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, RD, RA); access(d, n, WR, RA); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, RD, RA); access(d, n, WR, RA); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, WR, RA); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { size_t k = 0; while (k < n && ((const char*)a)[k] == ((const char*)b)[k]) ++k; if (k < n) ++k; access(a, k, RD, RA); access(b, k, RD, RA); return __real_memcmp(a, b, n); }
}
