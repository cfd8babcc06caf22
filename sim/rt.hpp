// Simulator runtime: allocator seam, memory-access hooks, deterministic thread scheduler. Not instrumented.
#ifndef SIM_RT_HPP
#define SIM_RT_HPP
#include "core.hpp"
namespace rt {
struct TL {
    int on;                 // inside library code of a simulated thread
    int tid;                // simulated thread, -1 outside
    int step;               // current step id
    uintptr_t stk_lo, stk_hi;
    uint64_t hooks;         // hooks passed in the current step
    uint64_t ticks;         // accesses in the current step
    // allocator
    long alloc_fail;        // 0 none, n>0: n-th from now fails, n<0: |n|-th and all later ones
    long nalloc; int alloc_fired;
    long live_new, live_mp; // net bytes in the current step
    uint64_t vol;
    uint32_t blk0;          // first block index of this step
};
extern __thread TL tl;

// ---- run level
struct Limits { uint64_t ticks, vol; };
extern Limits limits;
void begin_run(int nthr, sim::Run const* r, char* shm_fatal, size_t shm_fatal_len);
void end_run();
[[noreturn]] void fatal(char const* kind, char const* fmt, ...);    // records a violation in shared memory and ends the process
extern uint64_t seq;        // global event sequence number
extern uint64_t nswitch;    // context switches taken
extern uint64_t sched_hash; // hash over all switches
// executes fn(tid) on nthr simulated threads, one at a time under the seeded scheduler
void run_threads(int nthr, void (*fn)(int, void*), void* arg);
void set_private(int tid, void const* p, size_t n);   // memory only this thread's program uses
void step_boundary(int step);   // scheduling point between steps
std::vector<sim::Switch> const& switches();

// ---- step level
void enter(int step, long alloc_fail);
void leave();
long mp_live(int tid);      // live bytes obtained through the GMP/MPFR allocator by the thread
void install_mp();          // route GMP/MPFR memory through the seam
void check_all_blocks(char const* where);
struct Pause { int s; Pause() : s(tl.on) { tl.on = 0; } ~Pause() { tl.on = s; } };
void hookpoint(int weight); // explicit scheduling point (stream and iterator seams)
void set_locale_comma(int on);
}
#endif
