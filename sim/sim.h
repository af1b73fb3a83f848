// Deterministic simulator: interface used by the check harnesses.
//
// One execution ("case") is a pure function of the code under test and of the
// tapes it draws from.  A tape stream exists for the case header (0), for every
// step (1..n), for I/O delivery decisions and for the thread schedule.  In
// search mode the streams are filled from a PRNG derived from
// (VERIF_SEED, run number, stream); in replay mode they are read back from a
// file, and reads past the end of a stream yield 0, which every harness treats
// as the simplest choice (no fault, full read, no preemption, smallest size).
#pragma once
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <new>

namespace sim {

// ------------------------------------------------------------------ choices
uint64_t draw(uint64_t n);                       // uniform in [0,n), 0 = simplest
inline int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo + 1)); }
inline bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; } // 0 => false
template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }

// Steps of the case: `while (next_step())` after plan_steps(lo,hi).
void plan_steps(int lo, int hi);
bool next_step();
int step_index();

// ---------------------------------------------------------------------- log
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::fail(cls, __VA_ARGS__); } while (0)
void state(uint64_t h);          // a state/interleaving reached: feeds the distinct-state measure
void probe(const char* name);    // "this rare condition was hit"
void fired(const char* kind);    // an injected fault actually took effect
void nontrivial();               // this case did something worth counting

// ------------------------------------------------------------------- budget
void set_step_budget(uint64_t edges);  // executed basic blocks before "no progress" is declared
uint64_t edges();

// --------------------------------------------------------------- allocation
// Allocations made while a Lib scope is open belong to the code under test:
// only they can be failed, and they must all be gone at the end of the case.
void lib_enter();
void lib_leave();
struct Lib { Lib() { lib_enter(); } ~Lib() { lib_leave(); } };
uint64_t lib_allocs();                          // number of library allocations so far
void arm_alloc(uint64_t k, bool sticky = false); // k>=1: fail the k-th library allocation from now
bool disarm_alloc();                            // returns whether the fault fired
int alloc_fault_tid();                          // which thread the last failed allocation hit
void set_alloc_cap(size_t bytes);               // single requests above this fail
uint64_t live_lib_blocks();
uint64_t live_lib_bytes();
void mark_live();                               // leak baseline := now
void check_leaks(const char* where);            // fails if library blocks newer than the baseline live
void forgive_live();                            // the currently live library blocks are not leaks

// ------------------------------------------------------------------ virtual FS
struct IoPlan {
	int open_errno = 0;            // opening fails with this errno
	int read_frag = 0;             // 0 whole requests, 1 random short reads, 2 tiny reads
	int eintr = 0;                 // chance (percent) that a read/write is interrupted first
	int64_t read_err_at = -1;      // reads at/after this offset fail
	int read_errno = 5;
	bool read_transient = false;   // only one read call fails
	bool pipe = false;             // not seekable, bytes arrive over time
	int64_t eof_at = -1;           // file appears to end here (truncation)
	int write_frag = 0;
	int64_t write_err_at = -1;     // bytes accepted before writes fail
	int write_errno = 28;
	bool write_transient = false;  // only one write call fails, also across reopening
	int close_errno = 0;           // close/flush fails
	int rename_errno = 0;          // renaming to this path fails
	int fsync_errno = 0;           // fsync fails
};
void fs_reset();
void fs_put(const char* path, const char* data, size_t n);
bool fs_get(const char* path, const char** data, size_t* n);
bool fs_exists(const char* path);
void fs_remove(const char* path);
void fs_plan(const char* path, const IoPlan& p);   // path "*" = default plan
void fs_clear_plans();
int fs_open_count();                                // files currently open
uint64_t fs_bytes_read();
uint64_t fs_fault_count();                          // I/O faults that took effect since fs_clear_plans
uint64_t fs_hard_faults();                          // the same, only those a caller must notice

// --------------------------------------------------------------------- clock
void clock_jump(int64_t ns);
int64_t clock_now();
void clock_reads_jump(int percent, int64_t max_ns);  // each clock read may jump

// -------------------------------------------------------------------- threads
// Only available in the scheduled flavour (sched.cpp is linked).
typedef void (*thread_fn)(void* arg);
void run_threads(int n, thread_fn fn, void** args);
void yield_point();                                 // explicit preemption point
int self_tid();
void track(const void* p, size_t n);                // make caller memory visible to the race detector
uint64_t preemptions();
uint64_t sched_points();

// ------------------------------------------------------------------- checks
struct Check {
	const char* id;
	void (*run)();
	uint64_t quick_runs;
	double thorough_s;
	const char* rule;
	const char* real;
	const char* stub;
	const char* assume;
};
int runner_main(int argc, char** argv, const Check& c);

inline uint64_t mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
	return h;
}
} // namespace sim
