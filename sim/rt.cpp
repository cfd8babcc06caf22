#include "rt.hpp"
#include "shm.hpp"
#include <new>
#include <csignal>
#include <cstdarg>
#include <clocale>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
#include <errno.h>
#include <unordered_map>
#include <gmp.h>

namespace rt {
__thread TL tl = { 0, -1, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 };
Limits limits = { 400000000ull, 96ull << 20 };
uint64_t seq, nswitch, sched_hash;
static char* fatal_buf; static size_t fatal_len;
static int sim_active, multi; static int NT;
static sim::Rng srng(1);
static int profile; static bool explicit_mode;
static std::vector<sim::Switch> sw_in, sw_out;
static size_t sw_bytes;

[[noreturn]] void fatal(char const* kind, char const* fmt, ...)
{
    tl.on = 0; 
    if (fatal_buf) {
        char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        snprintf(fatal_buf, fatal_len, "%s|%d|%d|%s", kind, tl.tid, tl.step, b);
        if (ex::fatal_shm) ex::dump_switches(ex::fatal_shm);
    }
    _exit(77);
}

// ------------------------------------------------------------------------------------------- allocator
static char* const ARENA = (char*)0x610000000000ull; static size_t const ARENA_SZ = 4ull << 30;
static unsigned char* const SHADOW = (unsigned char*)0x620000000000ull;    // 0 gap, 2 released, OWNER0 + thread: live
enum { OWNER0 = 16 };
static size_t arena_top; static bool arena_on;
enum { GUARD = 128 };
struct Blk { char* p; size_t n; uint8_t kind; uint8_t live; int8_t tid; };     // kind 1 new 2 mp
static Blk* blks; static size_t nblk; static size_t const MAXBLK = 16u << 20;
static long mp_live_[sim::MAXTHR + 1];

static void arena_init()
{
    if (arena_on) return;
    void* a = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    void* s = mmap(SHADOW, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    blks = (Blk*)mmap(nullptr, MAXBLK * sizeof(Blk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (a == MAP_FAILED || s == MAP_FAILED || blks == (Blk*)MAP_FAILED) { fprintf(stderr, "mmap failed\n"); _exit(3); }
    arena_top = 4096; nblk = 1; arena_on = true;
}
static inline bool in_arena(void const* p) { return (char const*)p >= ARENA && (char const*)p < ARENA + ARENA_SZ; }
static void check_blk(Blk const& b, char const* where)
{
    for (int i = 0; i < 16; ++i) if ((unsigned char)b.p[-16 + i] != 0xF1) fatal("memory", "%s: memory before a block of %zu bytes overwritten", where, b.n);
    unsigned char const* g = (unsigned char const*)b.p + b.n; 
    for (int i = 0; i < GUARD; ++i) if (g[i] != 0xFB) fatal("memory", "%s: write past the end of a block of %zu bytes (offset +%d)", where, b.n, i);
    if (!b.live) { size_t m = b.n < 256 ? b.n : 256; for (size_t i = 0; i < m; ++i) if ((unsigned char)b.p[i] != 0xDD) fatal("memory", "%s: write to a released block of %zu bytes (offset +%zu)", where, b.n, i); }
}
static void* arena_alloc(size_t n, int kind, bool* too_big = nullptr)
{
    arena_init();
    tl.vol += n;
    if (tl.on && tl.vol > limits.vol) fatal("volume", "more than %llu bytes requested in one operation", (unsigned long long)limits.vol);
    size_t need = ((n + 15) & ~size_t(15)) + 48 + GUARD;
    if (n > (1ull << 31) || arena_top + need > ARENA_SZ || nblk + 1 >= MAXBLK) { if (too_big) *too_big = true; return nullptr; }
    char* h = ARENA + arena_top; arena_top += (need + 15) & ~size_t(15);
    Blk& b = blks[nblk]; b.p = h + 32; b.n = n; b.kind = kind; b.live = 1; b.tid = tl.tid;
    memcpy(h, &nblk, 8); memset(h + 8, 0, 8); memset(h + 16, 0xF1, 16); ++nblk;
    memset(b.p, 0xA5, n); memset(b.p + n, 0xFB, GUARD); memset(SHADOW + (b.p - ARENA), OWNER0 + tl.tid, n);
    if (tl.on) { if (kind == 1) tl.live_new += n; else tl.live_mp += n; }
    if (kind == 2) mp_live_[tl.tid < 0 ? sim::MAXTHR : tl.tid] += n;
    return b.p;
}
static size_t find_blk(void* p, char const* what)
{
    size_t i; memcpy(&i, (char*)p - 32, 8);
    if (i == 0 || i >= nblk || blks[i].p != p) fatal("memory", "%s of an address that is no block", what);
    return i;
}
static void arena_free(void* p, int kind)
{
    size_t i = find_blk(p, "release"); Blk& b = blks[i];
    if (!b.live) fatal("memory", "block of %zu bytes released twice", b.n);
    check_blk(b, "at release");
    if (b.kind != kind) fatal("memory", "block released through the wrong allocator");
    b.live = 0; memset(b.p, 0xDD, b.n); memset(SHADOW + (b.p - ARENA), 2, b.n);
    if (tl.on) { if (kind == 1) tl.live_new -= b.n; else tl.live_mp -= b.n; }
    if (kind == 2) mp_live_[b.tid < 0 ? sim::MAXTHR : b.tid] -= b.n;
}
void check_all_blocks(char const* where) { for (size_t i = 1; i < nblk; ++i) check_blk(blks[i], where); }
long mp_live(int tid) { return mp_live_[tid < 0 ? sim::MAXTHR : tid]; }
static void sched_point(int weight, uintptr_t addr = 0);

static void* mp_alloc(size_t n) { if (tl.on) sched_point(2); bool big = false; void* p = arena_alloc(n, 2, &big); if (!p) fatal("volume", "multiple precision request of %zu bytes", n); return p; }
static void mp_free(void* p, size_t) { if (p) arena_free(p, 2); }
static void* mp_realloc(void* p, size_t, size_t n)
{
    if (!p) return mp_alloc(n);
    size_t i = find_blk(p, "reallocation"); if (!blks[i].live) fatal("memory", "reallocation of a released block");
    size_t o = blks[i].n; void* q = mp_alloc(n); memcpy(q, p, o < n ? o : n); arena_free(p, 2); return q;
}
void install_mp() { mp_set_memory_functions(mp_alloc, mp_realloc, mp_free); }

static void* new_impl(size_t n)
{
    if (tl.tid < 0) { void* p = malloc(n ? n : 1); return p; }
    if (tl.on) {
        sched_point(2);
        ++tl.nalloc;
        if (tl.alloc_fail > 0 && tl.nalloc == tl.alloc_fail) { tl.alloc_fired++; return nullptr; }
        if (tl.alloc_fail < 0 && tl.nalloc >= -tl.alloc_fail) { tl.alloc_fired++; return nullptr; }
    }
    return arena_alloc(n, 1);
}
static void del_impl(void* p) { if (!p) return; if (in_arena(p)) arena_free(p, 1); else free(p); }
} // namespace rt

void* operator new(size_t n) { void* p = rt::new_impl(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = rt::new_impl(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return rt::new_impl(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return rt::new_impl(n); }
void operator delete(void* p) noexcept { rt::del_impl(p); }
void operator delete[](void* p) noexcept { rt::del_impl(p); }
void operator delete(void* p, size_t) noexcept { rt::del_impl(p); }
void operator delete[](void* p, size_t) noexcept { rt::del_impl(p); }

namespace rt {
// ------------------------------------------------------------------------------------------- scheduler
static sem_t sems[sim::MAXTHR]; static int cur; static int state_[sim::MAXTHR]; // 0 runnable 1 blocked 2 done 3 held in front of a shared access 4 held until another thread ends a step 5 held until another thread writes there
static uintptr_t held_at[sim::MAXTHR]; static int nheld[sim::MAXTHR]; static uint64_t p_hold, p_long, p_chase; static long once_at[sim::MAXTHR]; static bool after_write, wrote[sim::MAXTHR]; static int pending = -1; static bool is_write;
struct Hot { uintptr_t at; int thr, step, n; }; static Hot hot[4096]; static bool hot_only;      // shared data written in this run, and by how many steps
static bool is_hot(uintptr_t at, int thr, int step, bool write)
{
    for (unsigned i = (at * 2654435761u) >> 8, k = 0; k < 64; ++i, ++k) {
        Hot& h = hot[i % 4096]; if (h.at && h.at != at) continue;
        if (!h.at) { if (!write) return false; h = { at, thr, step, 1 }; return false; }
        if (write && (h.thr != thr || h.step != step)) { h.thr = thr; h.step = step; ++h.n; }
        return h.n > 1;
    }
    return false;
}
static sem_t all_done; static uint64_t last_switch_ticks; static uint64_t total_ticks;
static uint64_t p_global, p_heap, p_entry;      // switch probabilities as thresholds of 2^32
static uint64_t sw_cap; static long forced[8]; static int nforced;      // PCT-like: forced switch counters
static uint64_t hook_total;
static std::unordered_map<uint64_t,int>* sw_by[sim::MAXTHR];
static inline uint64_t sw_key(int step, uint64_t at) { return (uint64_t(uint32_t(step)) << 40) ^ at; }
extern "C" char __data_start[], _end[];

std::vector<sim::Switch> const& switches() { return sw_out; }

void begin_run(int nthr, sim::Run const* r, char* fb, size_t fl)
{
    fatal_buf = fb; fatal_len = fl; NT = nthr; multi = 0; sim_active = 1;
    srng = sim::Rng(r->sched_seed); profile = r->profile; explicit_mode = r->explicit_sched; sw_in = r->sw; sw_out.clear();
    seq = nswitch = 0; sched_hash = 1469598103934665603ULL; total_ticks = 0; hook_total = 0;
    double pg = 0, ph = 0, pe = 0; nforced = 0;
    p_hold = p_long = p_chase = 0; for (auto& o : once_at) o = 0; for (auto& o : wrote) o = false; after_write = false; hot_only = false; memset(hot, 0, sizeof hot); pending = -1; is_write = false;
    switch (profile % 22) {
    case 0: pg = 0.2; ph = 0.0005; pe = 0.001; break;
    case 1: pg = 0.5; ph = 0.005; pe = 0.01; break;
    case 2: pg = 0.02; ph = 0.02; pe = 0.05; break;
    case 3: pg = 0.01; ph = 0.0001; pe = 0.0002; break;
    case 4: pg = 0.05; ph = 0; pe = 0.3; break;
    case 5: pg = 0; ph = 0; pe = 0; nforced = 1 + srng.below(4); for (int i = 0; i < nforced; ++i) { uint64_t lim = 1ull << (5 + srng.below(13)); forced[i] = 1 + srng.below(lim); } break;
    case 10: case 11: pg = 0.02; p_long = uint64_t((profile % 2 ? 0.5 : 0.08) * 4294967296.0); break;      // whole steps of others in the middle of a step
    case 12: case 13: pg = 0.02; p_chase = uint64_t((profile % 2 ? 0.6 : 0.15) * 4294967296.0); break;     // others overwrite what a thread is about to read
    case 14: case 15: pg = 0.01; hot_only = true; p_long = uint64_t((profile % 2 ? 0.4 : 0.1) * 4294967296.0); break;   // the same, only at data that several steps have written
    case 16: case 17: pg = 0.01; hot_only = true; p_chase = uint64_t((profile % 2 ? 0.5 : 0.15) * 4294967296.0); break;
    case 18: case 19: case 20: case 21:     // a thread stops once, in front of its n-th shared access or after its n-th write to shared data, while another one finishes a step
        after_write = profile % 22 >= 20; pg = profile % 2 ? 0 : 0.003; for (int k = srng.range(1, 2); k > 0; --k) once_at[srng.below(NT)] = 1 + srng.below(1ull << srng.range(1, 5)); break;
    default: pg = 0.3; ph = 0.0002; pe = 0.002; p_hold = uint64_t((profile % 2 ? 0.5 : 0.1) * 4294967296.0); break;    // brings threads to the same shared data
    }
    for (int i = 0; i < sim::MAXTHR; ++i) { held_at[i] = 0; nheld[i] = 0; }
    sw_cap = 100ull << srng.below(6);
    p_global = uint64_t(pg * 4294967296.0); p_heap = uint64_t(ph * 4294967296.0); p_entry = uint64_t(pe * 4294967296.0);
}
void end_run() { sim_active = 0; }

static int pick_other(bool random)
{
    int c[sim::MAXTHR], n = 0;
    for (int i = 1; i < NT; ++i) { int t = (tl.tid + i) % NT; if (state_[t] != 2) c[n++] = t; }
    // prefer threads that are not blocked, blocked ones re-test their condition
    int r[sim::MAXTHR], m = 0; for (int i = 0; i < n; ++i) if (state_[c[i]] == 0) r[m++] = c[i];
    if (m) return r[random ? srng.below(m) : 0];
    for (int k = 3; k < 6; ++k) for (int i = 0; i < n; ++i) if (state_[c[i]] == k) return c[i];
    if (n) return c[0];
    return -1;
}
static void switch_to(int t, bool record)
{
    if (t < 0 || t == tl.tid) return;
    int me = tl.tid; if (state_[t] >= 3) state_[t] = 0;
    if (record) { if (sw_out.size() < 200000) { int on = tl.on; tl.on = 0; int st = tl.tid; tl.tid = -1; sw_out.push_back({ me, tl.step, tl.hooks, t }); tl.tid = st; tl.on = on; } }
    ++nswitch; uint64_t rec[4] = { uint64_t(me), uint64_t(tl.step), tl.hooks, uint64_t(t) }; sched_hash = sim::fnv(sched_hash, rec, sizeof rec);
    last_switch_ticks = total_ticks; cur = t;
    int e = errno;
    sem_post(&sems[t]);
    while (sem_wait(&sems[me]) != 0) {}
    errno = e;
}
static void sched_point(int weight, uintptr_t addr)    // 0 heap 1 shared data 2 entry/allocation 3 explicit
{
    ++tl.hooks;
    if (!multi) return;
    if (explicit_mode) {
        auto& v = *sw_by[tl.tid]; 
        if (!v.empty()) { auto it = v.find(sw_key(tl.step, tl.hooks)); if (it != v.end()) { int t = it->second; if (t < NT && state_[t] == 0) switch_to(t, true); return; } }
    } else if (nforced) {
        ++hook_total;
        for (int i = 0; i < nforced; ++i) if (--forced[i] == 0) { switch_to(pick_other(true), true); return; }
    } else {
        if (p_hold && addr) {      // two threads meet in front of the same data
            addr >>= 4; bool met = false;
            for (int i = 0; i < NT; ++i) if (state_[i] == 3 && held_at[i] == addr) { state_[i] = 0; met = true; }
            if (met) { if (srng.below(2)) switch_to(pick_other(true), true); return; }
            bool other = false; for (int i = 0; i < NT; ++i) if (i != tl.tid && state_[i] == 0) other = true;
            if (other && nheld[tl.tid] < 40 && (srng.next() >> 32) < p_hold) { ++nheld[tl.tid]; held_at[tl.tid] = addr; state_[tl.tid] = 3; switch_to(pick_other(true), true); return; }
        }
        if (pending >= 0) { int t = pending; pending = -1; if (t != tl.tid && state_[t] == 5) { state_[t] = 0; if (srng.below(4)) { switch_to(t, true); return; } } }
        if ((p_long || p_chase) && addr) {
            addr >>= 4; if (is_write) for (int i = 0; i < NT; ++i) if (state_[i] == 5 && held_at[i] == addr) pending = i;
            bool other = !hot_only || is_hot(addr, tl.tid, tl.step, is_write); if (other) { other = false; for (int i = 0; i < NT; ++i) if (i != tl.tid && state_[i] == 0) other = true; }
            if (other && nheld[tl.tid] < 12 && (srng.next() >> 32) < p_long + p_chase) { ++nheld[tl.tid]; held_at[tl.tid] = addr; state_[tl.tid] = p_long ? 4 : 5; switch_to(pick_other(true), true); return; }
        }
        bool stop_here = weight == 1; if (after_write) { stop_here = wrote[tl.tid]; wrote[tl.tid] = weight == 1 && is_write; }
        if (stop_here && once_at[tl.tid] && --once_at[tl.tid] == 0) { state_[tl.tid] = 4; int t = pick_other(true); if (t >= 0) { switch_to(t, true); return; } state_[tl.tid] = 0; }
        uint64_t p = weight == 1 ? p_global : weight == 0 ? p_heap : weight == 2 ? p_entry : 0x40000000ull;
        if (nswitch > sw_cap && weight != 3) p >>= 8;
        if (p && (srng.next() >> 32) < p) { int t = pick_other(true); if (t >= 0 && state_[t] < 4) { switch_to(t, true); return; } }
    }
    if (total_ticks - last_switch_ticks > 30000000ull) switch_to(pick_other(false), false);     // fairness against spinning
}
void hookpoint(int w) { if (tl.on) sched_point(w); }
static void block_wait()        // current thread cannot proceed
{
    state_[tl.tid] = 1;
    bool any = false; for (int i = 0; i < NT; ++i) if (state_[i] == 0 || state_[i] >= 3) any = true;
    static int spins; 
    if (!any) { if (++spins > 1000) fatal("deadlock", "no thread can proceed"); } else spins = 0;
    int on = tl.on; tl.on = 0;
    int t = pick_other(false); ++tl.hooks;
    if (explicit_mode) { auto it = sw_by[tl.tid]->find(sw_key(tl.step, tl.hooks)); if (it != sw_by[tl.tid]->end() && it->second < NT && state_[it->second] == 0) t = it->second; }
    switch_to(t, true);
    tl.on = on; state_[tl.tid] = 0;
}
void step_boundary(int step)
{
    tl.step = step; tl.hooks = 0; is_write = false;
    if (multi && (p_long || p_chase || profile % 22 >= 18) && !explicit_mode) for (int i = 0; i < NT; ++i) if (i != tl.tid && state_[i] >= 4 && srng.below(3)) { state_[i] = 0; if (srng.below(4)) { switch_to(i, true); break; } }
    if (multi) sched_point(3);
}
struct Start { int tid; void (*fn)(int, void*); void* arg; char* stk; };
static size_t const STK = 8u << 20;
static void* thr_main(void* a)
{
    Start* s = (Start*)a; tl.tid = s->tid; tl.step = -1;
    tl.stk_lo = (uintptr_t)s->stk; tl.stk_hi = (uintptr_t)s->stk + STK;
    stack_t ss; ss.ss_sp = malloc(65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    while (sem_wait(&sems[s->tid]) != 0) {}
    s->fn(s->tid, s->arg);
    tl.on = 0; state_[tl.tid] = 2;
    int t = -1;
    if (explicit_mode) { for (auto& w : sw_in) if (w.thr == tl.tid && w.step == -2 && w.to < NT && state_[w.to] != 2) { t = w.to; break; } if (t < 0) t = pick_other(false); }
    else t = pick_other(true);
    int me = tl.tid; tl.tid = -1;
    if (t >= 0) { if (state_[t] >= 3) state_[t] = 0; sw_out.push_back({ me, -2, 0, t }); uint64_t rec[4] = { uint64_t(me), ~1ull, 0, uint64_t(t) }; sched_hash = sim::fnv(sched_hash, rec, sizeof rec); ++nswitch; cur = t; sem_post(&sems[t]); }
    else sem_post(&all_done);
    return nullptr;
}
static void on_signal(int sig)
{
    fatal("crash", "%s", sig == SIGABRT ? "abort() or std::terminate()" : sig == SIGSEGV ? "segmentation fault or stack overflow" : sig == SIGFPE ? "arithmetic trap" : sig == SIGALRM ? "no progress" : "fatal signal");
}
void run_threads(int nthr, void (*fn)(int, void*), void* arg)
{
    NT = nthr; multi = nthr > 1; sem_init(&all_done, 0, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    for (int g : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(g, &sa, nullptr);
    for (int i = 0; i < nthr; ++i) {
        sem_init(&sems[i], 0, 0); state_[i] = 0; sw_by[i] = new std::unordered_map<uint64_t,int>;
        for (auto& w : sw_in) if (w.thr == i && w.step != -2) (*sw_by[i])[sw_key(w.step, w.at)] = w.to;
    }
    pthread_t th[sim::MAXTHR]; static Start st[sim::MAXTHR];
    for (int i = 0; i < nthr; ++i) {
        char* stk = (char*)mmap((void*)(0x630000000000ull + uint64_t(i) * 0x100000000ull), STK + 4096 * 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        mprotect(stk, 4096 * 16, PROT_NONE); stk += 4096 * 16;
        st[i] = { i, fn, arg, stk };
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stk, STK);
        if (pthread_create(&th[i], &at, thr_main, &st[i])) { fprintf(stderr, "pthread_create failed\n"); _exit(3); }
    }
    int first = 0;
    if (multi) { if (explicit_mode) { for (auto& w : sw_in) if (w.thr == -1) first = w.to < nthr ? w.to : 0; } else first = srng.below(nthr); sw_out.push_back({ -1, -1, 0, first }); }
    cur = first; sem_post(&sems[first]);
    while (sem_wait(&all_done) != 0) {}
    for (int i = 0; i < nthr; ++i) pthread_join(th[i], nullptr);
    multi = 0;
}

void enter(int step, long alloc_fail)
{
    tl.step = step; tl.ticks = 0; tl.alloc_fail = alloc_fail; tl.nalloc = 0; tl.alloc_fired = 0; tl.live_new = tl.live_mp = 0; tl.vol = 0; tl.blk0 = nblk;
    tl.on = 1;
}
void leave()
{
    tl.on = 0; tl.alloc_fail = 0;
    for (size_t i = tl.blk0; i < nblk; ++i) check_blk(blks[i], "after the operation");
}

static uintptr_t priv_lo[sim::MAXTHR], priv_n[sim::MAXTHR];
void set_private(int tid, void const* p, size_t n) { priv_lo[tid] = (uintptr_t)p; priv_n[tid] = n; }
static inline void access(void* p, int w, size_t n)
{
    TL& t = tl;
    if (!t.on) return;
    uintptr_t a = (uintptr_t)p;
    if (a - t.stk_lo < t.stk_hi - t.stk_lo) return;
    ++t.ticks; ++total_ticks; is_write = w;
    if (t.ticks > limits.ticks) fatal("hang", "operation not finished after %llu memory accesses", (unsigned long long)limits.ticks);
    if (in_arena(p)) {
        unsigned char s = SHADOW[(char*)p - ARENA], e = SHADOW[(char*)p - ARENA + n - 1];
        if (s < OWNER0 - 1 || e < OWNER0 - 1) fatal("memory", "%s of %zu bytes %s", w ? "write" : "read", n, s == 2 || e == 2 ? "in a released block" : "outside any block");
        bool own = s == OWNER0 + t.tid; sched_point(own ? 0 : 1, own ? 0 : a);       // a block of another thread is shared
    } else { bool d = p >= (void*)__data_start && p < (void*)_end && !(t.tid >= 0 && a - priv_lo[t.tid] < priv_n[t.tid]); sched_point(d, d ? a : 0); }
}
static int locale_comma;
void set_locale_comma(int on) { locale_comma = on; }
static inline bool is_data(uintptr_t p) { return p >= (uintptr_t)__data_start && p < (uintptr_t)_end && !(tl.tid >= 0 && p - priv_lo[tl.tid] < priv_n[tl.tid]); }
static inline bool is_shared(uintptr_t p) { return is_data(p) || (in_arena((void*)p) && SHADOW[(char*)p - ARENA] >= OWNER0 - 1 && SHADOW[(char*)p - ARENA] != OWNER0 + tl.tid); }
} // namespace rt

// ------------------------------------------------------------------------------------------- compiler-inserted hooks
extern "C" {
#define RW(n) \
 void __tsan_read##n(void* p) { rt::access(p, 0, n); } void __tsan_write##n(void* p) { rt::access(p, 1, n); } \
 void __tsan_unaligned_read##n(void* p) { rt::access(p, 0, n); } void __tsan_unaligned_write##n(void* p) { rt::access(p, 1, n); } \
 void __tsan_volatile_read##n(void* p) { rt::access(p, 0, n); } void __tsan_volatile_write##n(void* p) { rt::access(p, 1, n); } \
 void __tsan_unaligned_volatile_read##n(void* p) { rt::access(p, 0, n); } void __tsan_unaligned_volatile_write##n(void* p) { rt::access(p, 1, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) rt::access(p, 0, n); }
void __tsan_write_range(void* p, size_t n) { if (n) rt::access(p, 1, n); }
void __tsan_vptr_update(void** p, void*) { rt::access(p, 1, 8); }
void __tsan_vptr_read(void** p) { rt::access(p, 0, 8); }
void __tsan_func_entry(void*)
{
    rt::TL& t = rt::tl; if (!t.on) return;
    ++t.ticks; ++rt::total_ticks;
    if (t.ticks > rt::limits.ticks) rt::fatal("hang", "operation not finished after %llu memory accesses", (unsigned long long)rt::limits.ticks);
    rt::sched_point(2);
}
// calls out of the library into libmpfr, libgmp and libc (stubs.sh): scheduling points too
void sim_call_hook(uintptr_t a, uintptr_t b, uintptr_t c, uintptr_t d, int id)
{
    rt::TL& t = rt::tl; if (!t.on) return;
    int e = errno;
    if (id == 101) { if (c) { rt::access((void*)a, 1, c); rt::access((void*)b, 0, c); } }
    else if (id == 102) { if (c) rt::access((void*)a, 1, c); }
    else { ++t.ticks; ++rt::total_ticks; rt::is_write = true; uintptr_t h = id > 0 && rt::is_shared(a) ? a : id > 1 && rt::is_shared(b) ? b : id > 2 && rt::is_shared(c) ? c : id > 3 && rt::is_shared(d) ? d : 0; rt::sched_point(h ? 1 : 2, h); }
    errno = e;
}
void __tsan_func_exit() {}
void __tsan_init() {}
#define AT(b, T) \
 T __tsan_atomic##b##_load(T const volatile* p, int) { rt::access((void*)p, 0, sizeof(T)); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
 void __tsan_atomic##b##_store(T volatile* p, T v, int) { rt::access((void*)p, 1, sizeof(T)); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_exchange(T volatile* p, T v, int) { rt::access((void*)p, 1, sizeof(T)); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_add(T volatile* p, T v, int) { rt::access((void*)p, 1, sizeof(T)); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_sub(T volatile* p, T v, int) { rt::access((void*)p, 1, sizeof(T)); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_and(T volatile* p, T v, int) { rt::access((void*)p, 1, sizeof(T)); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_or(T volatile* p, T v, int) { rt::access((void*)p, 1, sizeof(T)); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_xor(T volatile* p, T v, int) { rt::access((void*)p, 1, sizeof(T)); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_fetch_nand(T volatile* p, T v, int) { rt::access((void*)p, 1, sizeof(T)); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
 bool __tsan_atomic##b##_compare_exchange_strong(T volatile* p, T* e, T v, int, int) { rt::access((void*)p, 1, sizeof(T)); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 bool __tsan_atomic##b##_compare_exchange_weak(T volatile* p, T* e, T v, int, int) { rt::access((void*)p, 1, sizeof(T)); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##b##_compare_exchange_val(T volatile* p, T e, T v, int, int) { rt::access((void*)p, 1, sizeof(T)); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// function-local statics: the initialising thread may be preempted, the others wait in the simulator
int __cxa_guard_acquire(uint64_t* g)
{
    char volatile* b = (char volatile*)g;
    if (b[0]) return 0;
    if (rt::tl.on) rt::sched_point(1, (uintptr_t)g);
    for (;;) {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        if (rt::tl.tid < 0 || !rt::multi) { if (rt::tl.tid >= 0) rt::fatal("deadlock", "recursive initialisation of a static"); return 1; }
        rt::block_wait();
    }
}
void __cxa_guard_release(uint64_t* g) { char volatile* b = (char volatile*)g; b[0] = 1; b[1] = 0; if (rt::tl.on) rt::sched_point(1); }
void __cxa_guard_abort(uint64_t* g) { char volatile* b = (char volatile*)g; b[1] = 0; if (rt::tl.on) rt::sched_point(1); }

// locks: a parked thread never blocks the process
typedef int (*mfn)(pthread_mutex_t*);
static mfn real(char const* n) { return (mfn)dlsym(RTLD_NEXT, n); }
int pthread_mutex_lock(pthread_mutex_t* m)
{
    static mfn f, t; if (!f) { f = real("pthread_mutex_lock"); t = real("pthread_mutex_trylock"); }
    if (rt::tl.tid < 0 || !rt::multi) return f(m);
    if (rt::tl.on) rt::sched_point(1);
    int r; while ((r = t(m)) == EBUSY) rt::block_wait();
    return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static mfn f; if (!f) f = real("pthread_mutex_unlock");
    int r = f(m); if (rt::tl.tid >= 0 && rt::tl.on) rt::sched_point(1); return r;
}
typedef int (*rwfn)(pthread_rwlock_t*);
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    static rwfn f, t; if (!f) { f = (rwfn)dlsym(RTLD_NEXT, "pthread_rwlock_rdlock"); t = (rwfn)dlsym(RTLD_NEXT, "pthread_rwlock_tryrdlock"); }
    if (rt::tl.tid < 0 || !rt::multi) return f(m);
    if (rt::tl.on) rt::sched_point(1);
    int r; while ((r = t(m)) == EBUSY) rt::block_wait();
    return r;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    static rwfn f, t; if (!f) { f = (rwfn)dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"); t = (rwfn)dlsym(RTLD_NEXT, "pthread_rwlock_trywrlock"); }
    if (rt::tl.tid < 0 || !rt::multi) return f(m);
    if (rt::tl.on) rt::sched_point(1);
    int r; while ((r = t(m)) == EBUSY) rt::block_wait();
    return r;
}
int pthread_once(pthread_once_t* o, void (*f)())
{
    int volatile* s = (int volatile*)o;
    for (;;) {
        if (*s == 2) return 0;
        if (*s == 0) { *s = 1; try { f(); } catch (...) { *s = 0; throw; } *s = 2; return 0; }
        if (rt::tl.tid < 0 || !rt::multi) return 0;
        rt::block_wait();
    }
}
int sched_yield() { if (rt::tl.tid >= 0 && rt::multi) rt::block_wait(); return 0; }
}
