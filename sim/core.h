#pragma once
#include <cstdint>
#include <time.h>
namespace sim {
enum : uint32_t { STREAM_IO = 0xfffffff0u, STREAM_SCHED = 0xfffffff1u };
uint64_t draw_io(uint64_t n);
uint64_t draw_sched(uint64_t n);
bool sched_exhausted();
int lib_depth();
uintptr_t arena_lo();
uintptr_t arena_hi();
int real_clock_gettime(clockid_t, struct timespec*);
extern int g_in_sim_call;
extern uint64_t g_run;
bool case_active();
void raw_fill(void*, int, size_t);
void raw_copy(void*, const void*, size_t);
void io_point();              // a system call is a preemption point
}
