// Executes one run inside a forked child: places registers, runs the simulated threads, logs every outcome to shared memory.
#include "exec.hpp"
#include "shm.hpp"
#include <sys/resource.h>
#include <csignal>
#include <unistd.h>
#include <sys/prctl.h>
namespace ex {
static Ctx ctxs[MAXTHR]; static Regs regs_[MAXTHR];
struct Prog { std::vector<Step> steps[MAXTHR]; Shm* shm; };
static Prog* prog;
Shm* fatal_shm;

static void put(Shm* h, void const* p, size_t n) { if (h->log_len + n > sizeof h->log) { h->log_full = 1; return; } memcpy(h->log + h->log_len, p, n); h->log_len += n; }
template<class X> static void putv(Shm* h, X const& x) { put(h, &x, sizeof x); }
static void puts_(Shm* h, std::string const& s) { uint32_t n = s.size(); putv(h, n); put(h, s.data(), n); }
static void putval(Shm* h, Val const& v) { uint8_t b[3] = { v.fmt, v.isdec, v.dec }; put(h, b, 3); unsigned char z[32]; memset(z, 0, 32); memcpy(z, &v.lo, 10); memcpy(z + 16, &v.hi, 10); put(h, z, 32); }
static void log_outcome(Shm* h, Outcome const& o)
{
    uint32_t save = h->log_len;
    putv(h, o.step); putv(h, o.thr); putv(h, o.rep); putv(h, o.seq_begin); putv(h, o.seq_end); putv(h, o.exc); puts_(h, o.what); puts_(h, o.payload);
    putv(h, o.nops); for (int i = 0; i < o.nops; ++i) putval(h, o.ops[i]);
    putv(h, o.ops_changed); putv(h, o.has_dst); putval(h, o.dst0); putval(h, o.dst1);
    putv(h, o.flags0); putv(h, o.flags1); putv(h, o.cwd0); putv(h, o.cwd1); putv(h, o.rnd0); putv(h, o.rnd1);
    putv(h, o.st0); putv(h, o.st1); putv(h, o.pos0); putv(h, o.pos1); puts_(h, o.text); puts_(h, o.fmt0); puts_(h, o.fmt1); putv(h, o.fault);
    putv(h, o.nalloc); putv(h, o.live_new); putv(h, o.live_mp); putv(h, o.ticks); putv(h, o.vol); puts_(h, o.key);
    if (h->log_full) h->log_len = save; else h->nlog++;
}
static void thread_fn(int tid, void*)
{
    Ctx& c = ctxs[tid];
    streams_init(c);
    for (auto& s : prog->steps[tid]) {
        rt::step_boundary(s.id);
        for (int r = 0; r < s.rep; ++r) {
            prog->shm->cur_step = s.id;
            Outcome o; o.rep = r; o.step = s.id; o.thr = tid;
            exec_step(c, s, o);
            log_outcome(prog->shm, o);
        }
    }
    rt::step_boundary(1000000);
    streams_done(c);
}
static void xcpu(int) { rt::fatal("hang", "processor time limit reached"); }
void run_child(Shm* h)
{
    Run r; bool ok = run_parse(std::string(h->cmd, h->cmd_len), r);
    if (!ok) { snprintf(h->fatal, sizeof h->fatal, "harness|0|0|cannot parse run"); _exit(78); }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl; rl.rlim_cur = 60; rl.rlim_max = 80; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = xcpu; sa.sa_flags = SA_ONSTACK; sigaction(SIGXCPU, &sa, nullptr);
    fatal_shm = h;
    rt::begin_run(r.nthr, &r, h->fatal, sizeof h->fatal);
    Prog p; p.shm = h; prog = &p;
    memset((void*)&shared_regs, 0, sizeof shared_regs); memset((void*)regs_, 0, sizeof regs_);
    for (int f = 0; f < 3; ++f) for (int d = 0; d < 2; ++d) {
        Val e; e.fmt = f; e.isdec = d; e.dec = d ? COM : TRV; e.lo = 1; e.hi = 2;
        for (int i = 0; i < NREG; ++i) place_ptr(reg_ptr(shared_regs, f, d, i), e);
        for (size_t i = 0; i < r.shared[f][d].size(); ++i) place_ptr(reg_ptr(shared_regs, f, d, i), r.shared[f][d][i]);
        for (int t = 0; t < r.nthr; ++t) {
            for (int i = 0; i < NREG; ++i) place_ptr(reg_ptr(regs_[t], f, d, i), e);
            for (size_t i = 0; i < r.init[t][f][d].size(); ++i) place_ptr(reg_ptr(regs_[t], f, d, i), r.init[t][f][d][i]);
        }
    }
    for (int t = 0; t < r.nthr; ++t) { ctxs[t].tid = t; ctxs[t].r = regs_[t]; ctxs[t].shared = &shared_regs; rt::set_private(t, &ctxs[t], sizeof ctxs[t]); }
    for (auto& s : r.steps) if (s.thr < r.nthr) p.steps[s.thr].push_back(s);
    rt::run_threads(r.nthr, thread_fn, nullptr);
    rt::check_all_blocks("at the end of the run");
    uint64_t fin = 1469598103934665603ULL;
    for (int f = 0; f < 3; ++f) for (int d = 0; d < 2; ++d) for (int i = 0; i < NSHARED; ++i) { std::string t = val_text(snap_ptr(reg_ptr(shared_regs, f, d, i), f, d)); fin = fnv(fin, t.data(), t.size());
        Val want; want.fmt = f; want.isdec = d; want.dec = d ? COM : TRV; want.lo = 1; want.hi = 2; if (size_t(i) < r.shared[f][d].size()) want = r.shared[f][d][i]; if (!same_val(want, snap_ptr(reg_ptr(shared_regs, f, d, i), f, d))) h->shared_changed++; }
    h->final_hash = fin; h->nswitch = rt::nswitch; h->sched_hash = rt::sched_hash;
    auto const& sw = rt::switches(); h->nsw = sw.size() < MAXSW ? sw.size() : MAXSW; for (uint32_t i = 0; i < h->nsw; ++i) h->sw[i] = sw[i];
    h->finished = 1;
    _exit(0);
}
void probe_child(Shm* h) { snprintf(h->fatal, sizeof h->fatal, "%s", layout_probe()); _exit(0); }
void dump_switches(Shm* h) { auto const& sw = rt::switches(); h->nsw = sw.size() < MAXSW ? sw.size() : MAXSW; for (uint32_t i = 0; i < h->nsw; ++i) h->sw[i] = sw[i]; h->sched_hash = rt::sched_hash; h->nswitch = rt::nswitch; }
}
