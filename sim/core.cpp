// Simulator core: tapes, PRNG, event log, allocator, budget, forked execution,
// search, minimisation, replay and evidence.  Compiled without sanitizers or
// instrumentation; nothing here uses operator new (which it implements).
#include "sim.h"
#include "core.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void __asan_poison_memory_region(void const volatile*, size_t) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile*, size_t) __attribute__((weak));
}

namespace sim {

// ===================================================================== shared
struct Named { char name[40]; uint64_t count; };
enum { ST_IDLE = 0, ST_RUN = 1, ST_OK = 2, ST_FAIL = 3 };
enum { MAXREC = 1 << 19, MAXTXT = 1 << 20, MAXNAMED = 48, MAXSTATES = 8192 };
enum { COVBITS = 1 << 17 };
struct Rec { uint32_t stream; uint32_t pad; uint64_t val; };

struct Shm { // one per worker, rewritten by each case
	int status;
	int step;
	int nsteps;
	int nontriv;
	int overflow;
	char cls[96];
	char msg[1600];
	uint64_t loghash;
	uint64_t nlog;
	uint64_t edges;
	int64_t simtime;
	uint64_t preempt, points;
	uint32_t nrec;
	uint32_t ntxt;
	uint32_t nstates;
	int nfault, nprobe;
	Named fault[MAXNAMED];
	Named prb[MAXNAMED];
	uint64_t states[MAXSTATES];
	Rec rec[MAXREC];
	char txt[MAXTXT];
	uint8_t cov[COVBITS / 8];
};

struct Viol { uint64_t run; char cls[96]; };
enum { MAXVIOL = 256, SETCAP = 1 << 22 };
struct Global {
	std::atomic<uint64_t> runs, nontriv, steps, edges, simtime, preempt, points, digest, log_events;
	std::atomic<uint64_t> min_viol;
	std::atomic<uint32_t> nviol;
	std::atomic<uint32_t> known_hits;
	std::atomic<uint32_t> stop;
	std::atomic<uint32_t> lock;
	Viol viol[MAXVIOL];
	int nfault, nprobe;
	Named fault[MAXNAMED];
	Named prb[MAXNAMED];
	std::atomic<uint64_t> ncase_distinct, nstate_distinct;
	std::atomic<uint64_t> cases[SETCAP];
	std::atomic<uint64_t> states[SETCAP];
	uint8_t cov[COVBITS / 8];
};

static Shm* S;        // current case's shared area
static Global* G;
static const Check* C;

static bool set_insert(std::atomic<uint64_t>* set, uint64_t h) {
	if (!h) h = 1;
	for (uint64_t i = 0, p = h & (SETCAP - 1); i < 256; ++i, p = (p + 1) & (SETCAP - 1)) {
		uint64_t cur = set[p].load(std::memory_order_relaxed);
		if (cur == h) return false;
		if (cur == 0) {
			if (set[p].compare_exchange_strong(cur, h)) return true;
			if (cur == h) return false;
		}
	}
	return false;
}

// ======================================================================= PRNG
static uint64_t splitmix(uint64_t& x) {
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

// ====================================================================== tapes
struct Stream { uint32_t id; uint64_t rng; const uint64_t* v; uint32_t n, pos; };
struct Case { // replay input: streams in malloc memory
	uint64_t seed, run;
	int nsteps;
	int cap, cnt;
	struct St { uint32_t id; uint32_t n; uint64_t* v; }* st;
};
static Case* g_replay;         // null: search mode
static uint64_t g_seed; uint64_t g_run;
static Stream g_cur, g_hdr, g_io, g_sched;
static int g_stepno, g_nsteps;

static Stream open_stream(uint32_t id) {
	Stream s; s.id = id; s.v = nullptr; s.n = 0; s.pos = 0;
	uint64_t x = g_seed * 0x9e3779b97f4a7c15ull ^ (g_run + 1) * 0xd1342543de82ef95ull ^ (uint64_t)(id + 1) * 0xda942042e4dd58b5ull;
	splitmix(x); s.rng = splitmix(x);
	if (g_replay)
		for (int i = 0; i < g_replay->cnt; ++i)
			if (g_replay->st[i].id == id) { s.v = g_replay->st[i].v; s.n = g_replay->st[i].n; }
	return s;
}
static uint64_t draw_from(Stream& s, uint64_t n) {
	if (n == 0) n = 1;
	uint64_t v;
	if (g_replay) v = s.pos < s.n ? s.v[s.pos] % n : 0;
	else v = n == 1 ? 0 : splitmix(s.rng) % n;
	s.pos++;
	if (S->nrec < MAXREC) { S->rec[S->nrec].stream = s.id; S->rec[S->nrec].val = v; S->nrec++; }
	else S->overflow = 1;
	return v;
}
static Stream* g_active = &g_hdr;
uint64_t draw(uint64_t n) { return draw_from(*g_active, n); }
uint64_t draw_io(uint64_t n) { return draw_from(g_io, n); }
uint64_t draw_sched(uint64_t n) { return draw_from(g_sched, n); }
bool sched_exhausted() { return g_replay && g_sched.pos >= g_sched.n; }

void plan_steps(int lo, int hi) {
	int n = (int)range(lo, hi);
	g_nsteps = g_replay ? g_replay->nsteps : n;
	S->nsteps = g_nsteps;
	g_stepno = 0;
}
bool next_step() {
	if (g_stepno >= g_nsteps) { g_active = &g_hdr; S->step = -1; return false; }
	++g_stepno;
	S->step = g_stepno;
	g_cur = open_stream((uint32_t)g_stepno);
	g_active = &g_cur;
	return true;
}
int step_index() { return g_stepno; }

// ======================================================================== log
static void add_named(Named* t, int& n, const char* name, uint64_t by) {
	for (int i = 0; i < n; ++i) if (!strcmp(t[i].name, name)) { t[i].count += by; return; }
	if (n < MAXNAMED) { strncpy(t[n].name, name, sizeof t[n].name - 1); t[n].count = by; ++n; }
}
static void log_line(const char* s, size_t len) {
	uint64_t h = S->loghash ? S->loghash : 0xcbf29ce484222325ull;
	for (size_t i = 0; i < len; ++i) { h ^= (unsigned char)s[i]; h *= 0x100000001b3ull; }
	h ^= '\n'; h *= 0x100000001b3ull;
	S->loghash = h;
	S->nlog++;
	if (S->ntxt + len + 2 < MAXTXT) { memcpy(S->txt + S->ntxt, s, len); S->ntxt += (uint32_t)len; S->txt[S->ntxt++] = '\n'; }
}
void note(const char* fmt, ...) {
	char b[1024];
	int p = snprintf(b, sizeof b, "[%d] ", g_active == &g_hdr ? 0 : g_stepno);
	va_list a; va_start(a, fmt);
	int q = vsnprintf(b + p, sizeof b - p, fmt, a);
	va_end(a);
	size_t len = (size_t)p + (q < 0 ? 0 : (size_t)q);
	log_line(b, len < sizeof b ? len : sizeof b - 1);
}
void finish_case(int status);
void fail(const char* cls, const char* fmt, ...) {
	va_list a; va_start(a, fmt);
	vsnprintf(S->msg, sizeof S->msg, fmt, a);
	va_end(a);
	strncpy(S->cls, cls, sizeof S->cls - 1);
	char b[1800];
	int n = snprintf(b, sizeof b, "FAIL %s: %s", S->cls, S->msg);
	log_line(b, (size_t)n < sizeof b ? (size_t)n : sizeof b - 1);
	finish_case(ST_FAIL);
	_exit(0);
}
void state(uint64_t h) { if (S->nstates < MAXSTATES) S->states[S->nstates++] = h; }
void probe(const char* name) { add_named(S->prb, S->nprobe, name, 1); }
void fired(const char* kind) { add_named(S->fault, S->nfault, kind, 1); }
void nontrivial() { S->nontriv = 1; }

// ===================================================================== budget
static uint64_t g_edges, g_budget = 200000000ull;
static int g_case_active;
int g_in_sim_call; // while >0, coverage callbacks do not count (harness internals)
void set_step_budget(uint64_t e) { g_budget = g_edges + e; }
uint64_t edges() { return g_edges; }
bool case_active() { return g_case_active; }
extern "C" void __sanitizer_cov_trace_pc() {
	if (!g_case_active) return;
	uintptr_t pc = (uintptr_t)__builtin_return_address(0);
	uint32_t h = (uint32_t)((pc * 0x9e3779b1u) >> 7) & (COVBITS - 1);
	S->cov[h >> 3] |= (uint8_t)(1u << (h & 7));
	if (++g_edges > g_budget) {
		g_budget = ~0ull;
		fail("no-progress", "more than the allowed number of basic blocks executed without finishing (runaway loop)");
	}
}

// ================================================================== allocator
struct Hdr {
	uint64_t magic;
	size_t size;
	uint32_t cls;
	uint8_t lib, kind, pad[2];
	uint64_t seq;
	int step;
	int pad2;
	Hdr* prev; Hdr* next;
};
static_assert(sizeof(Hdr) <= 64, "header size");
static const uint64_t LIVE = 0x51a11ce5a11ce5ull, DEAD = 0xdeadb10cdeadb10cull;
static char* const ARENA = (char*)0x200000000000ull;
static const size_t ARENA_SIZE = 8ull << 30;
static char* g_bump;
static Hdr* g_lh; // list head, outside every scanned segment
static uint64_t g_live_blocks, g_live_bytes, g_seq, g_baseline_seq, g_lib_allocs;
__attribute__((weak)) int self_tid() { return 0; } // the scheduler has the real one
static int g_arm_tid;
static uint64_t g_arm; static bool g_arm_sticky, g_arm_fired, g_arm_active;
static size_t g_cap = 64ull << 20;
static __thread int t_lib;
static unsigned char g_fill = 0xA5;
enum { NCLS = 110, QLEN = 32 };
struct Fifo { Hdr* q[QLEN]; uint32_t head, n; };
static Fifo g_free[NCLS];

uintptr_t arena_lo() { return (uintptr_t)ARENA; }
uintptr_t arena_hi() { return (uintptr_t)g_bump; }
__attribute__((weak)) void hook_alloc(void*, size_t) {}
__attribute__((weak)) void hook_free(void*, size_t) {}

static void arena_init() {
	void* p = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != (void*)ARENA) { static const char m[] = "sim: cannot map arena\n"; if (::syscall(SYS_write, 2, m, sizeof m - 1)) {} _exit(3); }
	g_bump = ARENA;
	g_lh = (Hdr*)malloc(sizeof(Hdr)); g_lh->prev = g_lh->next = g_lh;
}
void raw_fill(void* p, int c, size_t n) { asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(c) : "memory"); } // not an access of the code under test
void raw_copy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static void* sim_alloc(size_t n, int kind) {
	if (!g_bump) arena_init();
	if (t_lib > 0 && g_case_active) {
		++g_lib_allocs;
		if (g_arm_active && g_arm) {
			if (--g_arm == 0) {
				if (g_arm_sticky) g_arm = 1; else g_arm_active = false;
				if (!g_arm_fired) { fired(g_arm_sticky ? "alloc-exhaustion" : "alloc-failure"); log_line("  !alloc", 8); }
				if (!g_arm_fired) g_arm_tid = self_tid();
				g_arm_fired = true;
				return nullptr;
			}
		}
		if (n > g_cap) { fired("alloc-too-large"); return nullptr; }
	}
	if (n > (1ull << 40)) return nullptr;
	size_t want = (n + 15) & ~(size_t)15;
	if (!want) want = 16;
	// size classes: multiples of 16 up to 1024, then powers of two
	uint32_t c; size_t cs;
	if (want <= 1024) { c = (uint32_t)(want / 16); cs = want; }
	else { c = 65; cs = 2048; while (cs < want) { cs *= 2; ++c; } }
	Hdr* h = nullptr;
	if (c < NCLS && g_free[c].n == QLEN) {
		h = g_free[c].q[g_free[c].head];
		g_free[c].head = (g_free[c].head + 1) % QLEN; g_free[c].n--;
	} else {
		size_t total = 64 + cs + 32;
		if (g_bump + total > ARENA + ARENA_SIZE) return nullptr;
		h = (Hdr*)g_bump; g_bump += total;
		if (__asan_poison_memory_region) __asan_poison_memory_region(h, total);
	}
	h->magic = LIVE; h->size = n; h->cls = c; h->kind = (uint8_t)kind; h->seq = ++g_seq; h->step = g_stepno;
	h->lib = t_lib > 0 && g_case_active;
	if (h->lib) {
		h->prev = g_lh->prev; h->next = g_lh; h->prev->next = h; g_lh->prev = h;
		++g_live_blocks; g_live_bytes += n;
	}
	void* p = (char*)h + 64;
	if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(p, n);
	raw_fill(p, g_fill, n < 65536 ? n : 65536);
	hook_alloc(p, n);
	return p;
}
static void sim_free(void* p, int kind) {
	if (!p) return;
	Hdr* h = (Hdr*)((char*)p - 64);
	if ((char*)p < ARENA + 64 || (char*)p > g_bump || ((uintptr_t)p & 15)) fail("bad-free", "delete of a pointer that was never allocated");
	if (h->magic == DEAD) fail("double-free", "block of %zu bytes released twice", h->size);
	if (h->magic != LIVE) fail("bad-free", "delete of a pointer that was never allocated");
	if (h->kind != kind && g_case_active) fail("alloc-mismatch", "block allocated with %s released with %s", h->kind ? "new[]" : "new", kind ? "delete[]" : "delete");
	hook_free(p, h->size);
	h->magic = DEAD;
	if (h->lib) {
		h->prev->next = h->next; h->next->prev = h->prev;
		--g_live_blocks; g_live_bytes -= h->size;
	}
	if (__asan_poison_memory_region) { memset(p, 0xDD, h->size < 4096 ? h->size : 4096); __asan_poison_memory_region(p, h->size ? h->size : 1); }
	if (h->cls < NCLS && g_free[h->cls].n < QLEN) {
		Fifo& f = g_free[h->cls];
		f.q[(f.head + f.n) % QLEN] = h; f.n++;
	}
}
void lib_enter() { ++t_lib; }
void lib_leave() { --t_lib; }
int lib_depth() { return t_lib; }
uint64_t lib_allocs() { return g_lib_allocs; }
void arm_alloc(uint64_t k, bool sticky) { g_arm = k; g_arm_sticky = sticky; g_arm_fired = false; g_arm_active = k > 0; }
int alloc_fault_tid() { return g_arm_tid; }
bool disarm_alloc() { g_arm_active = false; bool f = g_arm_fired; g_arm_fired = false; return f; }
void set_alloc_cap(size_t b) { g_cap = b; }
uint64_t live_lib_blocks() { return g_live_blocks; }
uint64_t live_lib_bytes() { return g_live_bytes; }
void mark_live() { g_baseline_seq = g_seq; }
void forgive_live() {
	while (g_lh && g_lh->next != g_lh) {
		Hdr* h = g_lh->next;
		h->prev->next = h->next; h->next->prev = h->prev; h->lib = 0; --g_live_blocks; g_live_bytes -= h->size;
	}
}
// Blocks reachable from static storage (one-time tables, locale facets, ...) are
// owned by the program for its whole life and are not leaks.
static Hdr** g_mark; static size_t g_nmark;
__attribute__((no_sanitize("address"))) static void scan(uintptr_t lo, uintptr_t hi, Hdr** all, size_t n) {
	for (uintptr_t a = (lo + 7) & ~(uintptr_t)7; a + 8 <= hi; a += 8) {
		uintptr_t v = *(uintptr_t*)a;
		if (v < (uintptr_t)ARENA || v >= (uintptr_t)g_bump) continue;
		for (size_t i = 0; i < n; ++i) {
			uintptr_t b = (uintptr_t)all[i] + 64;
			if (v >= b && v <= b + all[i]->size && !(all[i]->pad[0])) { all[i]->pad[0] = 1; g_mark[g_nmark++] = all[i]; }
		}
	}
}
struct ScanArg { Hdr** all; size_t n; };
static int scan_object(struct dl_phdr_info* info, size_t size, void* arg) {
	ScanArg* sa = (ScanArg*)arg;
	// the sanitizer runtime's and our own tables hold no owning pointers
	if (info->dlpi_name && (strstr(info->dlpi_name, "libasan") || strstr(info->dlpi_name, "libubsan"))) return 0;
	for (int i = 0; i < info->dlpi_phnum; ++i) {
		const ElfW(Phdr)& ph = info->dlpi_phdr[i];
		if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) {
			uintptr_t lo = info->dlpi_addr + ph.p_vaddr, hi = lo + ph.p_memsz;
			scan(lo, hi, sa->all, sa->n);
		}
		if (ph.p_type == PT_TLS && size >= offsetof(struct dl_phdr_info, dlpi_tls_data) + sizeof(void*) && info->dlpi_tls_data)
			scan((uintptr_t)info->dlpi_tls_data, (uintptr_t)info->dlpi_tls_data + ph.p_memsz, sa->all, sa->n);
	}
	return 0;
}
void check_leaks(const char* where) {
	if (!g_lh) return;
	size_t cand = 0, total = 0;
	for (Hdr* h = g_lh->next; h != g_lh; h = h->next) { ++total; if (h->seq > g_baseline_seq) ++cand; }
	if (!cand) return;
	Hdr** all = (Hdr**)malloc(total * sizeof(Hdr*)); g_mark = (Hdr**)malloc(total * sizeof(Hdr*)); g_nmark = 0;
	size_t k = 0;
	for (Hdr* h = g_lh->next; h != g_lh; h = h->next) { h->pad[0] = 0; all[k++] = h; }
	ScanArg sa = { all, total };
	dl_iterate_phdr(scan_object, &sa);
	for (size_t i = 0; i < g_nmark; ++i) scan((uintptr_t)g_mark[i] + 64, (uintptr_t)g_mark[i] + 64 + g_mark[i]->size, all, total);
	uint64_t n = 0, bytes = 0; Hdr* first = nullptr;
	for (k = 0; k < total; ++k)
		if (all[k]->seq > g_baseline_seq && !all[k]->pad[0]) { if (!first) first = all[k]; ++n; bytes += all[k]->size; }
	free(all); free(g_mark);
	if (n) fail("leak", "%s: %llu block(s), %llu bytes still allocated; the first has %zu bytes and was allocated in step %d",
		where, (unsigned long long)n, (unsigned long long)bytes, first->size, first->step);
}
} // namespace sim

void* operator new(size_t n) { void* p = sim::sim_alloc(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = sim::sim_alloc(n, 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::sim_alloc(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::sim_alloc(n, 1); }
void operator delete(void* p) noexcept { sim::sim_free(p, 0); }
void operator delete[](void* p) noexcept { sim::sim_free(p, 1); }
void operator delete(void* p, size_t) noexcept { sim::sim_free(p, 0); }
void operator delete[](void* p, size_t) noexcept { sim::sim_free(p, 1); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::sim_free(p, 0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::sim_free(p, 1); }

namespace sim {
// ============================================================ running a case

__attribute__((weak)) uint64_t preemptions() { return 0; }
__attribute__((weak)) uint64_t sched_points() { return 0; }
void vfs_case_begin(uint64_t h);
__attribute__((weak)) void sched_case_begin() {}

void finish_case(int status) {
	g_case_active = 0;
	S->edges = g_edges;
	S->simtime = clock_now();
	S->preempt = preemptions();
	S->points = sched_points();
	S->status = status;
}

static void child_run() {
	g_edges = 0;
	uint64_t x = g_seed ^ (g_run * 0x9e3779b97f4a7c15ull);
	g_fill = (unsigned char)(0x81 | (splitmix(x) & 0x7e));
	g_hdr = open_stream(0); g_io = open_stream(STREAM_IO); g_sched = open_stream(STREAM_SCHED);
	g_active = &g_hdr;
	g_nsteps = g_stepno = 0;
	g_lib_allocs = 0;
	vfs_case_begin(x);
	sched_case_begin();
	g_case_active = 1;
	mark_live();
	C->run();
	check_leaks("end of case");
	if (S->overflow) fail("internal:tape-overflow", "too many recorded choices");
	finish_case(ST_OK);
}

static int g_errfd = -1; // memfd receiving the child's stderr
static unsigned WALL_LIMIT = 120;

static int run_in_child(Shm* shm, uint64_t seed, uint64_t run, Case* replay) {
	S = shm;
	shm->status = ST_RUN; shm->step = 0; shm->nsteps = 0; shm->nontriv = 0; shm->overflow = 0;
	shm->cls[0] = shm->msg[0] = 0; shm->loghash = 0; shm->nlog = 0; shm->edges = 0; shm->simtime = 0;
	shm->preempt = shm->points = 0; shm->nrec = shm->ntxt = shm->nstates = 0; shm->nfault = shm->nprobe = 0;
	memset(shm->fault, 0, sizeof shm->fault); memset(shm->prb, 0, sizeof shm->prb);
	if (g_errfd < 0) g_errfd = memfd_create("simerr", 0);
	if (ftruncate(g_errfd, 0)) {}
	lseek(g_errfd, 0, SEEK_SET);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); return -1; }
	if (pid == 0) {
		dup2(g_errfd, 2); dup2(g_errfd, 1);
		alarm(WALL_LIMIT);
		g_seed = seed; g_run = run; g_replay = replay;
		child_run();
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (shm->status == ST_OK || shm->status == ST_FAIL) {
		shm->txt[shm->ntxt < MAXTXT ? shm->ntxt : MAXTXT - 1] = 0;
		return shm->status;
	}
	// The child died inside the code under test: classify.
	char err[8192]; err[0] = 0;
	ssize_t n = pread(g_errfd, err, sizeof err - 1, 0);
	err[n > 0 ? n : 0] = 0;
	const char* line = err; char word[48] = "";
	const char* p;
	if ((p = strstr(err, "AddressSanitizer: "))) {
		line = p; p += 18;
		size_t i = 0; while (p[i] && p[i] != ' ' && p[i] != '\n' && i < 40) { word[i] = p[i]; ++i; } word[i] = 0;
		snprintf(shm->cls, sizeof shm->cls, "crash:%s", word);
	} else if ((p = strstr(err, "runtime error: "))) {
		line = p; snprintf(shm->cls, sizeof shm->cls, "crash:undefined-behaviour");
	} else if ((p = strstr(err, "Assertion '"))) {
		line = p; snprintf(shm->cls, sizeof shm->cls, "crash:container-assertion");
	} else if ((p = strstr(err, "terminate called"))) {
		line = p; snprintf(shm->cls, sizeof shm->cls, "crash:terminate");
	} else if (WIFSIGNALED(st)) {
		if (WTERMSIG(st) == SIGALRM) snprintf(shm->cls, sizeof shm->cls, "internal:wall-limit");
		else if (WTERMSIG(st) == SIGKILL) snprintf(shm->cls, sizeof shm->cls, "internal:killed");
		else snprintf(shm->cls, sizeof shm->cls, "crash:%s", WTERMSIG(st) == SIGABRT ? "abort" : WTERMSIG(st) == SIGSEGV ? "segv" : "signal");
	} else snprintf(shm->cls, sizeof shm->cls, "crash:exit-%d", WEXITSTATUS(st));
	char one[600]; size_t i = 0;
	while (line[i] && line[i] != '\n' && i < sizeof one - 1) { one[i] = line[i]; ++i; }
	one[i] = 0;
	snprintf(shm->msg, sizeof shm->msg, "died in step %d: %s", shm->step, one);
	shm->status = ST_FAIL;
	shm->txt[shm->ntxt < MAXTXT ? shm->ntxt : MAXTXT - 1] = 0;
	if (shm->ntxt + 700 < MAXTXT) shm->ntxt += (uint32_t)snprintf(shm->txt + shm->ntxt, 700, "FAIL %s: %s\n", shm->cls, shm->msg);
	return ST_FAIL;
}

// ================================================================ case object
static Case* case_from_shm(Shm* s, uint64_t seed, uint64_t run) {
	Case* c = (Case*)calloc(1, sizeof(Case));
	c->seed = seed; c->run = run; c->nsteps = s->nsteps;
	for (uint32_t i = 0; i < s->nrec; ++i) {
		uint32_t id = s->rec[i].stream; Case::St* st = nullptr;
		for (int k = 0; k < c->cnt; ++k) if (c->st[k].id == id) st = &c->st[k];
		if (!st) {
			if (c->cnt == c->cap) { c->cap = c->cap ? 2 * c->cap : 16; c->st = (Case::St*)realloc(c->st, sizeof(Case::St) * c->cap); }
			st = &c->st[c->cnt++]; st->id = id; st->n = 0; st->v = nullptr;
		}
		if ((st->n & (st->n - 1)) == 0 || st->n == 0) st->v = (uint64_t*)realloc(st->v, sizeof(uint64_t) * (st->n ? 2 * st->n : 1));
		st->v[st->n++] = s->rec[i].val;
	}
	return c;
}
static Case* case_copy(const Case* o) {
	Case* c = (Case*)calloc(1, sizeof(Case)); *c = *o; c->cap = o->cnt ? o->cnt : 1;
	c->st = (Case::St*)malloc(sizeof(Case::St) * c->cap);
	for (int i = 0; i < o->cnt; ++i) {
		c->st[i] = o->st[i];
		c->st[i].v = (uint64_t*)malloc(sizeof(uint64_t) * (o->st[i].n + 1));
		memcpy(c->st[i].v, o->st[i].v, sizeof(uint64_t) * o->st[i].n);
	}
	return c;
}
static void case_free(Case* c) { for (int i = 0; i < c->cnt; ++i) free(c->st[i].v); free(c->st); free(c); }
static Case::St* find_st(Case* c, uint32_t id) { for (int i = 0; i < c->cnt; ++i) if (c->st[i].id == id) return &c->st[i]; return nullptr; }
static void drop_step(Case* c, int k) { // k in 1..nsteps
	for (int i = 0; i < c->cnt; ++i) if (c->st[i].id == (uint32_t)k) { free(c->st[i].v); c->st[i] = c->st[--c->cnt]; break; }
	for (int i = 0; i < c->cnt; ++i) if (c->st[i].id > (uint32_t)k && c->st[i].id <= (uint32_t)c->nsteps) c->st[i].id--;
	c->nsteps--;
}
static void case_write(FILE* f, const Check& ck, const Case* c, const Shm* s) {
	fprintf(f, "# deterministic-simulation replay; run: python3 /verif/vf.py replay %s <this file>\n", ck.id);
	fprintf(f, "property %s\nseed %llu\nrun %llu\nclass %s\nmessage %s\nloghash %016llx\nsteps %d\n", ck.id,
		(unsigned long long)c->seed, (unsigned long long)c->run, s->cls, s->msg, (unsigned long long)s->loghash, c->nsteps);
	for (int i = 0; i < c->cnt; ++i) {
		fprintf(f, "stream %u %u", c->st[i].id, c->st[i].n);
		for (uint32_t j = 0; j < c->st[i].n; ++j) fprintf(f, " %llu", (unsigned long long)c->st[i].v[j]);
		fprintf(f, "\n");
	}
	fprintf(f, "trace\n%.*s", (int)s->ntxt, s->txt);
}
static Case* case_read(const char* path, char* cls, size_t ncls, uint64_t* hash) {
	FILE* f = fopen(path, "r");
	if (!f) return nullptr;
	Case* c = (Case*)calloc(1, sizeof(Case));
	char* line = nullptr; size_t cap = 0;
	while (getline(&line, &cap, f) > 0) {
		unsigned long long a; int k;
		if (sscanf(line, "seed %llu", &a) == 1) c->seed = a;
		else if (sscanf(line, "run %llu", &a) == 1) c->run = a;
		else if (sscanf(line, "loghash %llx", &a) == 1) *hash = a;
		else if (sscanf(line, "steps %d", &k) == 1) c->nsteps = k;
		else if (!strncmp(line, "class ", 6)) { snprintf(cls, ncls, "%s", line + 6); cls[strcspn(cls, "\n")] = 0; }
		else if (!strncmp(line, "stream ", 7)) {
			char* p = line + 7; uint32_t id = (uint32_t)strtoul(p, &p, 10), n = (uint32_t)strtoul(p, &p, 10);
			if (c->cnt == c->cap) { c->cap = c->cap ? 2 * c->cap : 16; c->st = (Case::St*)realloc(c->st, sizeof(Case::St) * c->cap); }
			Case::St* st = &c->st[c->cnt++]; st->id = id; st->n = n; st->v = (uint64_t*)malloc(sizeof(uint64_t) * (n + 1));
			for (uint32_t j = 0; j < n; ++j) st->v[j] = strtoull(p, &p, 10);
		} else if (!strncmp(line, "trace", 5)) break;
	}
	free(line); fclose(f);
	return c;
}

// ================================================================ minimisation
static Shm* new_shm() {
	void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	return p == MAP_FAILED ? nullptr : (Shm*)p;
}
static double now_s() { struct timespec t; real_clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }

struct Mini { Shm* shm; const char* cls; int execs, max; double until; Case* best; };
static bool try_case(Mini& m, Case* cand) { // takes ownership
	if (m.execs >= m.max || now_s() > m.until) { case_free(cand); return false; }
	++m.execs;
	int st = run_in_child(m.shm, cand->seed, cand->run, cand);
	if (st == ST_FAIL && !strcmp(m.shm->cls, m.cls)) { case_free(m.best); m.best = cand; return true; }
	case_free(cand); return false;
}
static void minimise(Mini& m) {
	bool progress = true;
	while (progress && m.execs < m.max && now_s() < m.until) {
		progress = false;
		// 1. drop ranges of steps, from the end, halving chunk sizes
		for (int chunk = m.best->nsteps; chunk >= 1; chunk /= 2)
			for (int hi = m.best->nsteps; hi >= 1 && hi <= m.best->nsteps; ) {
				int lo = hi - chunk + 1; if (lo < 1) lo = 1;
				Case* c = case_copy(m.best);
				for (int k = hi; k >= lo; --k) drop_step(c, k);
				if (try_case(m, c)) { progress = true; hi = lo - 1; if (hi > m.best->nsteps) hi = m.best->nsteps; }
				else hi = lo - 1;
				if (m.execs >= m.max) break;
			}
		// 2. simplify the schedule and I/O delivery: all zero, then truncate, then single entries
		uint32_t ids[2] = { STREAM_SCHED, STREAM_IO };
		for (uint32_t id : ids) {
			Case::St* st = find_st(m.best, id);
			if (!st || !st->n) continue;
			{ Case* c = case_copy(m.best); find_st(c, id)->n = 0; if (try_case(m, c)) { progress = true; continue; } }
			uint32_t len = find_st(m.best, id)->n;
			for (uint32_t cut = len / 2; cut >= 1; cut /= 2) {
				while (true) {
					st = find_st(m.best, id);
					if (st->n <= cut) break;
					Case* c = case_copy(m.best); find_st(c, id)->n = st->n - cut;
					if (!try_case(m, c)) break;
					progress = true;
				}
			}
			for (uint32_t chunk = find_st(m.best, id)->n; chunk >= 1; chunk /= 2)
				for (uint32_t p = 0; p < find_st(m.best, id)->n; p += chunk) {
					bool any = false; st = find_st(m.best, id);
					for (uint32_t q = p; q < p + chunk && q < st->n; ++q) any |= st->v[q] != 0;
					if (!any) continue;
					Case* c = case_copy(m.best); Case::St* t = find_st(c, id);
					for (uint32_t q = p; q < p + chunk && q < t->n; ++q) t->v[q] = 0;
					if (try_case(m, c)) progress = true;
					if (m.execs >= m.max) break;
				}
		}
		// 3. simplify values of header and steps
		for (int i = 0; i < m.best->cnt; ++i) {
			uint32_t id = m.best->st[i].id;
			if (id == STREAM_SCHED || id == STREAM_IO) continue;
			for (uint32_t j = 0; j < m.best->st[i].n && j < 64; ++j) {
				Case::St* st = find_st(m.best, id);
				if (!st || j >= st->n || st->v[j] == 0) continue;
				Case* c = case_copy(m.best); find_st(c, id)->v[j] = 0;
				if (try_case(m, c)) { progress = true; continue; }
				st = find_st(m.best, id);
				if (st->v[j] > 1) {
					c = case_copy(m.best); find_st(c, id)->v[j] = st->v[j] / 2;
					if (try_case(m, c)) { progress = true; }
				}
			}
		}
	}
	run_in_child(m.shm, m.best->seed, m.best->run, m.best);
}

// =============================================================== known findings
struct Known { char cls[96]; char match[200]; char what[300]; bool hit; };
static Known g_known[64]; static int g_nknown;
static void load_known(const char* path, const char* id) {
	FILE* f = path ? fopen(path, "r") : nullptr;
	if (!f) return;
	char line[2000], prefix[64]; snprintf(prefix, sizeof prefix, "finding: property=%s class=", id);
	while (fgets(line, sizeof line, f)) {
		line[strcspn(line, "\n")] = 0;
		if (strncmp(line, prefix, strlen(prefix)) || g_nknown == 64) continue;
		Known& k = g_known[g_nknown++];
		const char* p = line + strlen(prefix);
		size_t n = strcspn(p, " "); snprintf(k.cls, sizeof k.cls, "%.*s", (int)n, p); p += n;
		k.match[0] = 0;
		if (!strncmp(p, " match=\"", 8)) { p += 8; n = strcspn(p, "\""); snprintf(k.match, sizeof k.match, "%.*s", (int)n, p); p += n + 1; }
		snprintf(k.what, sizeof k.what, "%s", *p == ' ' ? p + 1 : p);
	}
	fclose(f);
}
static int known_index(const char* cls, const char* msg) {
	for (int i = 0; i < g_nknown; ++i)
		if (!strcmp(g_known[i].cls, cls) && strstr(msg, g_known[i].match)) return i;
	return -1;
}

// ====================================================================== search
static void glock() { while (G->lock.exchange(1)) usleep(50); }
static void gunlock() { G->lock.store(0); }

static void worker(int w, int nw, uint64_t seed, uint64_t first, uint64_t runs, double until) {
	Shm* shm = new_shm();
	struct Acc { int nf, np; Named f[MAXNAMED], p[MAXNAMED]; uint8_t cov[COVBITS / 8]; };
	static Acc a; memset(&a, 0, sizeof a);
	for (uint64_t i = first + (uint64_t)w; i < runs; i += (uint64_t)nw) {
		if (G->stop.load() || i > G->min_viol.load()) break;
		if (now_s() > until) break;
		int st = run_in_child(shm, seed, i, nullptr);
		if (st < 0) { G->stop = 1; break; }
		G->runs++; G->steps += (uint64_t)shm->nsteps; G->edges += shm->edges; G->simtime += (uint64_t)(shm->simtime > 0 ? shm->simtime : 0);
		G->preempt += shm->preempt; G->points += shm->points; G->log_events += shm->nlog;
		uint64_t x = shm->loghash ^ (i * 0x9e3779b97f4a7c15ull); G->digest ^= splitmix(x);
		if (shm->nontriv) { G->nontriv++; if (set_insert(G->cases, shm->loghash)) G->ncase_distinct++; }
		for (uint32_t k = 0; k < shm->nstates; ++k) if (set_insert(G->states, shm->states[k])) G->nstate_distinct++;
		for (int k = 0; k < shm->nfault; ++k) add_named(a.f, a.nf, shm->fault[k].name, shm->fault[k].count);
		for (int k = 0; k < shm->nprobe; ++k) add_named(a.p, a.np, shm->prb[k].name, shm->prb[k].count);
		if (st == ST_FAIL) {
			int kn = known_index(shm->cls, shm->msg);
			if (kn >= 0) { G->known_hits |= 1u << kn; continue; }
			uint32_t k = G->nviol++;
			if (k < MAXVIOL) { G->viol[k].run = i; snprintf(G->viol[k].cls, sizeof G->viol[k].cls, "%s", shm->cls); }
			uint64_t m = G->min_viol.load();
			while (i < m && !G->min_viol.compare_exchange_weak(m, i)) {}
		}
	}
	for (size_t k = 0; k < sizeof a.cov; ++k) a.cov[k] = shm->cov[k];
	glock();
	for (int k = 0; k < a.nf; ++k) add_named(G->fault, G->nfault, a.f[k].name, a.f[k].count);
	for (int k = 0; k < a.np; ++k) add_named(G->prb, G->nprobe, a.p[k].name, a.p[k].count);
	for (size_t k = 0; k < sizeof a.cov; ++k) G->cov[k] |= a.cov[k];
	gunlock();
	_exit(0);
}

static void search(int nw, uint64_t seed, uint64_t first, uint64_t runs, double seconds) {
	memset((void*)G, 0, offsetof(Global, cases));
	memset((void*)G->cases, 0, sizeof G->cases); memset((void*)G->states, 0, sizeof G->states); memset(G->cov, 0, sizeof G->cov);
	G->min_viol = ~0ull;
	double until = now_s() + seconds;
	pid_t pid[64];
	for (int w = 0; w < nw; ++w) {
		pid[w] = fork();
		if (pid[w] == 0) { g_errfd = -1; worker(w, nw, seed, first, runs, until); _exit(0); }
	}
	for (int w = 0; w < nw; ++w) while (pid[w] > 0 && waitpid(pid[w], nullptr, 0) < 0 && errno == EINTR) {}
}

static void json_str(FILE* f, const char* s, size_t n) {
	fputc('"', f);
	for (size_t i = 0; i < n && s[i]; ++i) {
		unsigned char ch = (unsigned char)s[i];
		if (ch == '"' || ch == '\\') fprintf(f, "\\%c", ch);
		else if (ch == '\n') fputs("\\n", f);
		else if (ch < 32 || ch > 126) fprintf(f, "\\u%04x", ch);
		else fputc(ch, f);
	}
	fputc('"', f);
}
static void json_str(FILE* f, const char* s) { json_str(f, s, strlen(s)); }
static void json_named(FILE* f, const Named* t, int n) {
	fputc('{', f);
	for (int i = 0; i < n; ++i) { if (i) fputc(',', f); json_str(f, t[i].name); fprintf(f, ":%llu", (unsigned long long)t[i].count); }
	fputc('}', f);
}

static int replay_here(const char* path, Shm* shm, bool print) {
	char cls[96] = ""; uint64_t hash = 0;
	Case* c = case_read(path, cls, sizeof cls, &hash);
	if (!c) { fprintf(stderr, "cannot read %s\n", path); return 2; }
	int st = run_in_child(shm, c->seed, c->run, c);
	if (print) printf("%.*s", (int)shm->ntxt, shm->txt);
	if (st == ST_FAIL && !strcmp(cls, shm->cls)) {
		if (print) printf("REPRODUCED class=%s exact=%s\n", cls, hash == shm->loghash ? "yes" : "no");
		return hash == shm->loghash ? 1 : 4;
	}
	if (print) printf("NOT REPRODUCED (expected %s, got %s)\n", cls, st == ST_FAIL ? shm->cls : "no violation");
	return 0;
}

int runner_main(int argc, char** argv, const Check& c) {
	C = &c;
	// Same address-space layout in every process, where the kernel lets us.
	if (!getenv("SIM_NO_PERSONALITY")) {
		int pers = personality(0xffffffff);
		if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && personality((unsigned)pers | ADDR_NO_RANDOMIZE) >= 0) {
			setenv("SIM_NO_PERSONALITY", "1", 1);
			execv("/proc/self/exe", argv);
		}
	}
	uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
	bool thorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
	uint64_t runs = 0, first = 0; double seconds = 0; int nw = 8; long one = -1;
	const char *evidence = nullptr, *outdir = ".", *replay = nullptr, *known = nullptr; int selftest = 0; bool verbose = false, dump = false;
	for (int i = 1; i < argc; ++i) {
		if (!strcmp(argv[i], "--seed") && i + 1 < argc) seed = strtoull(argv[++i], nullptr, 10);
		else if (!strcmp(argv[i], "--tier") && i + 1 < argc) thorough = !strcmp(argv[++i], "thorough");
		else if (!strcmp(argv[i], "--runs") && i + 1 < argc) runs = strtoull(argv[++i], nullptr, 10);
		else if (!strcmp(argv[i], "--first") && i + 1 < argc) first = strtoull(argv[++i], nullptr, 10);
		else if (!strcmp(argv[i], "--seconds") && i + 1 < argc) seconds = atof(argv[++i]);
		else if (!strcmp(argv[i], "--workers") && i + 1 < argc) nw = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--evidence") && i + 1 < argc) evidence = argv[++i];
		else if (!strcmp(argv[i], "--out") && i + 1 < argc) outdir = argv[++i];
		else if (!strcmp(argv[i], "--replay") && i + 1 < argc) replay = argv[++i];
		else if (!strcmp(argv[i], "--known") && i + 1 < argc) known = argv[++i];
		else if (!strcmp(argv[i], "--one") && i + 1 < argc) one = atol(argv[++i]);
		else if (!strcmp(argv[i], "--selftest") && i + 1 < argc) selftest = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--verbose")) verbose = true;
		else if (!strcmp(argv[i], "--dump")) dump = true;
		else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 2; }
	}
	if (nw < 1) nw = 1;
	if (nw > 64) nw = 64;
	void* gp = mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (gp == MAP_FAILED) { perror("mmap"); return 2; }
	G = (Global*)gp;
	Shm* shm = new_shm();
	if (!shm) { perror("mmap"); return 2; }
	load_known(known, c.id);

	if (replay) return replay_here(replay, shm, true);
	if (one >= 0) {
		int st = run_in_child(shm, seed, (uint64_t)one, nullptr);
		printf("%.*s", (int)shm->ntxt, shm->txt);
		printf("status %d class %s msg %s\nloghash %016llx edges %llu records %u\n", st, shm->cls, shm->msg, (unsigned long long)shm->loghash, (unsigned long long)shm->edges, shm->nrec);
		if (st == ST_FAIL) { char err[30000]; ssize_t n = pread(g_errfd, err, sizeof err - 1, 0); if (n > 0) { err[n] = 0; printf("--- stderr\n%s\n", err); } }
		return st == ST_FAIL ? 1 : 0;
	}
	if (selftest) { // determinism audit: digests over the same runs with different worker counts
		uint64_t d[3]; int ws[3] = { nw, 1 + nw / 3, nw };
		for (int k = 0; k < 3; ++k) { search(ws[k], seed, first, first + (uint64_t)selftest, 1e9); d[k] = G->digest; printf("workers=%d runs=%llu digest=%016llx\n", ws[k], (unsigned long long)G->runs.load(), (unsigned long long)d[k]); }
		return d[0] == d[1] && d[1] == d[2] ? 0 : 2;
	}

	double t0 = now_s();
	if (!runs) runs = thorough ? ~0ull >> 1 : c.quick_runs;
	if (seconds <= 0) seconds = thorough ? c.thorough_s : 400;
	search(nw, seed, first, runs, seconds);
	double search_s = now_s() - t0;
	uint64_t nruns = G->runs, nontriv = G->nontriv, distinct = G->ncase_distinct, nstates = G->nstate_distinct, steps = G->steps, edg = G->edges,
		simt = G->simtime, pre = G->preempt, pts = G->points, logev = G->log_events;
	uint32_t nviol = G->nviol; uint32_t khits = G->known_hits;
	static Viol viol[MAXVIOL]; memcpy(viol, G->viol, sizeof viol);
	static Named fault[MAXNAMED], prb[MAXNAMED]; int nf = G->nfault, np = G->nprobe; memcpy(fault, G->fault, sizeof fault); memcpy(prb, G->prb, sizeof prb);
	uint64_t cov = 0; for (size_t k = 0; k < sizeof G->cov; ++k) cov += (uint64_t)__builtin_popcount(G->cov[k]);

	int rc = 0; int reported = 0; bool errors = false; char first_viol[2200] = "";
	if (nviol) {
		uint32_t nv = nviol < (uint32_t)MAXVIOL ? nviol : (uint32_t)MAXVIOL;
		std::sort(viol, viol + nv, [](const Viol& a, const Viol& b) { return a.run < b.run; });
		for (uint32_t k = 0; k < nv && k < 12 && !reported; ++k) {
			if (!strcmp(viol[k].cls, "internal:wall-limit") || !strcmp(viol[k].cls, "internal:killed")) {
				// A busy or starved machine, not the code: runs are bounded in basic blocks. Ask again, alone.
				WALL_LIMIT = 200; int st = run_in_child(shm, seed, viol[k].run, nullptr); WALL_LIMIT = 120;
				if (st == ST_OK) { fprintf(stderr, "%s: run %llu ended with %s, repeated without trouble\n", c.id, (unsigned long long)viol[k].run, viol[k].cls); continue; }
				if (st == ST_FAIL) snprintf(viol[k].cls, sizeof viol[k].cls, "%s", shm->cls);
			}
			if (!strncmp(viol[k].cls, "internal:", 9)) { fprintf(stderr, "%s: run %llu ended with %s\n", c.id, (unsigned long long)viol[k].run, viol[k].cls); errors = true; continue; }
			// gate: the same seed must fail the same way again
			uint64_t h[2]; bool same = true; Case* cs = nullptr;
			for (int r = 0; r < 2; ++r) {
				int st = run_in_child(shm, seed, viol[k].run, nullptr);
				h[r] = shm->loghash; same &= st == ST_FAIL && !strcmp(shm->cls, viol[k].cls);
				if (r == 1) cs = case_from_shm(shm, seed, viol[k].run);
			}
			if (!same) { fprintf(stderr, "%s: run %llu did not repeat (%s)\n", c.id, (unsigned long long)viol[k].run, viol[k].cls); errors = true; case_free(cs); continue; }
			Mini m; m.shm = shm; m.cls = viol[k].cls; m.execs = 0; m.max = 1500; m.until = now_s() + 60; m.best = cs;
			// the recorded tape must reproduce before it is worth shrinking
			int st = run_in_child(shm, seed, viol[k].run, cs);
			if (!(st == ST_FAIL && !strcmp(shm->cls, viol[k].cls))) { fprintf(stderr, "%s: tape of run %llu did not replay\n", c.id, (unsigned long long)viol[k].run); errors = true; continue; }
			minimise(m);
			char path[512]; snprintf(path, sizeof path, "%s/%s-seed%llu-run%llu.replay", outdir, c.id, (unsigned long long)seed, (unsigned long long)viol[k].run);
			FILE* f = fopen(path, "w");
			if (!f) { perror(path); return 2; }
			case_write(f, c, m.best, shm); fclose(f);
			static char minmsg[1600]; snprintf(minmsg, sizeof minmsg, "%s", shm->msg);
			// fresh process
			int ok = 0;
			for (int r = 0; r < 2; ++r) {
				pid_t pid = fork();
				if (pid == 0) {
					int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
					char a0[] = "replay", a1[] = "--replay"; char* av[] = { a0, a1, path, nullptr };
					execv("/proc/self/exe", av); _exit(9);
				}
				int w = 0; waitpid(pid, &w, 0);
				if (WIFEXITED(w) && (WEXITSTATUS(w) == 1 || WEXITSTATUS(w) == 4)) ++ok;
				if (WIFEXITED(w) && WEXITSTATUS(w) == 4) fprintf(stderr, "%s: replay reproduces the class but not the exact log\n", c.id);
			}
			if (ok != 2) { fprintf(stderr, "%s: %s does not reproduce in a fresh process\n", c.id, path); errors = true; continue; }
			printf("violation class=%s seed=%llu run=%llu steps=%d repeat-hash=%s minimised-in=%d\n  %s\n", viol[k].cls, (unsigned long long)seed,
				(unsigned long long)viol[k].run, m.best->nsteps, h[0] == h[1] ? "equal" : "different", m.execs, minmsg);
			printf("VIOLATION property=%s replay=%s\n", c.id, path);
			snprintf(first_viol, sizeof first_viol, "%s: %s", viol[k].cls, minmsg);
			fflush(stdout);
			++reported; rc = 1;
		}
		if (!reported) rc = errors ? 2 : 0;
	}
	for (int i = 0; i < g_nknown; ++i) if (khits & (1u << i)) printf("KNOWN-FINDING: property=%s %s\n", c.id, g_known[i].what);

	// determinism audit on a slice of the same runs, in other processes and with another worker count
	uint64_t audit = nruns < 48 ? nruns : 48; const char* audit_res = "skipped";
	if (rc == 0 && audit) {
		search(3, seed, first, first + audit, 1e9); uint64_t d1 = G->digest;
		search(8, seed, first, first + audit, 1e9); uint64_t d2 = G->digest;
		audit_res = d1 == d2 ? "identical" : "DIFFERENT";
		if (d1 != d2) { fprintf(stderr, "%s: determinism audit failed\n", c.id); rc = 2; }
	}

	if (evidence) {
		FILE* f = fopen(evidence, "w");
		if (!f) { perror(evidence); return 2; }
		double wall = now_s() - t0;
		fprintf(f, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%llu,\"level\":\"exploration\",\"coverage\":{", c.id, thorough ? "thorough" : "quick", (unsigned long long)seed);
		fprintf(f, "\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"rule\":", (unsigned long long)nruns, (unsigned long long)distinct);
		json_str(f, c.rule);
		fprintf(f, ",\"samples\":[");
		int ns = 0;
		for (uint64_t k = 0; k < nruns && ns < 3 && k < 40; ++k) {
			int st = run_in_child(shm, seed, first + k, nullptr);
			if (st != ST_OK || !shm->nontriv) continue;
			if (ns++) fputc(',', f);
			fprintf(f, "{\"run\":%llu,\"log\":", (unsigned long long)(first + k));
			json_str(f, shm->txt, shm->ntxt < 1800 ? shm->ntxt : 1800);
			fprintf(f, ",\"log_events\":%llu,\"log_hash\":\"%016llx\"}", (unsigned long long)shm->nlog, (unsigned long long)shm->loghash);
		}
		fprintf(f, "],\"nontrivial_runs\":%llu,\"runs_and_seeds_per_hour\":%.0f,\"steps\":%llu,\"log_events\":%llu,", (unsigned long long)nontriv,
			search_s > 0 ? (double)nruns / search_s * 3600 : 0, (unsigned long long)steps, (unsigned long long)logev);
		fprintf(f, "\"simulated_time_s\":%.6f,\"basic_blocks_executed\":%llu,\"distinct_states\":%llu,\"code_edges_reached\":%llu,", (double)simt * 1e-9,
			(unsigned long long)edg, (unsigned long long)nstates, (unsigned long long)cov);
		fprintf(f, "\"preemptions\":%llu,\"scheduling_points\":%llu,\"faults_injected\":", (unsigned long long)pre, (unsigned long long)pts);
		json_named(f, fault, nf);
		fprintf(f, ",\"probes\":"); json_named(f, prb, np);
		fprintf(f, ",\"determinism_audit\":{\"runs\":%llu,\"result\":\"%s\"},\"real_components\":", (unsigned long long)audit, audit_res);
		json_str(f, c.real); fprintf(f, ",\"stubbed_components\":"); json_str(f, c.stub);
		if (first_viol[0]) { fprintf(f, ",\"violation\":"); json_str(f, first_viol); }
		fprintf(f, "},\"assumptions\":["); json_str(f, c.assume);
		fprintf(f, "],\"wall_s\":%.3f,\"violations\":%d}\n", wall, reported);
		fclose(f);
	}
	if (verbose || rc == 0)
		printf("%s: %s, %llu runs (%llu distinct non-trivial), %llu steps, %llu distinct states, %.1f s\n", c.id, rc == 0 ? "held" : rc == 1 ? "VIOLATED" : "error",
			(unsigned long long)nruns, (unsigned long long)distinct, (unsigned long long)steps, (unsigned long long)nstates, search_s);
	(void)dump;
	return rc;
}
} // namespace sim

extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:symbolize=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:print_legend=0:alloc_dealloc_mismatch=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:symbolize=0"; }
