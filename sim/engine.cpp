#include "engine.hpp"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <sys/resource.h>
#include <errno.h>
namespace rt { void install_mp(); }
namespace sim {
Engine::Engine() {}
Engine::~Engine() { for (int w = 1; w >= 0; --w) if (to_z[w] >= 0) { close(to_z[w]); close(from_z[w]); kill(zpid[w], SIGKILL); int st; waitpid(zpid[w], &st, 0); } if (shm) munmap(shm, sizeof(Shm)); }
void Engine::fork_zygote(int w)
{
    int a[2], b[2]; if (pipe(a) || pipe(b)) { perror("pipe"); exit(3); }
    fflush(stdout); fflush(stderr);
    zpid[w] = fork();
    if (zpid[w] == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(a[1]); close(b[0]); if (w) { close(to_z[0]); close(from_z[0]); }
        rt::install_mp();
        if (w) {    // build the one-time tables; tried in a child first, so that a failure stays a property of single runs
            int p = fork(); if (p == 0) { struct rlimit rl; rl.rlim_cur = rl.rlim_max = 20; setrlimit(RLIMIT_CPU, &rl); ex::warm_up(); _exit(0); }
            int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) ex::warm_up();
        }
        char cmd;
        while (read(a[0], &cmd, 1) == 1) {
            int p = fork();
            if (p == 0) { close(a[0]); close(b[1]); if (cmd == 'p') ex::probe_child(shm); else ex::run_child(shm); _exit(0); }
            int st = 0; if (p > 0) while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} else st = -1;
            if (write(b[1], &st, sizeof st) != sizeof st) break;
        }
        _exit(0);
    }
    close(a[0]); close(b[1]); to_z[w] = a[1]; from_z[w] = b[0];
}
void Engine::start()
{
    shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fork_zygote(0); fork_zygote(1);
    shm->fatal[0] = 0; roundtrip('p', 0);
    layout_ok = !strcmp(shm->fatal, "ok");
    if (!layout_ok) fprintf(stderr, "object layout probe: %s\n", shm->fatal);
}
int Engine::roundtrip(char cmd, int w)
{
    if (write(to_z[w], &cmd, 1) != 1) { fprintf(stderr, "zygote lost\n"); exit(3); }
    int st; size_t n = 0; while (n < sizeof st) { ssize_t k = read(from_z[w], (char*)&st + n, sizeof st - n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; fprintf(stderr, "zygote lost\n"); exit(3); } n += k; }
    return st;
}
struct Rd { char const* p; char const* e; bool bad = false;
    void get(void* d, size_t n) { if (p + n > e) { bad = true; memset(d, 0, n); return; } memcpy(d, p, n); p += n; }
    template<class X> void v(X& x) { get(&x, sizeof x); }
    void s(std::string& t) { uint32_t n; v(n); if (bad || p + n > e) { bad = true; return; } t.assign(p, n); p += n; }
    void val(Val& x) { uint8_t b[3]; get(b, 3); unsigned char z[32]; get(z, 32); x.fmt = b[0]; x.isdec = b[1]; x.dec = b[2]; x.lo = x.hi = 0; memcpy(&x.lo, z, 10); memcpy(&x.hi, z + 16, 10); } };
void Engine::execute(Run const& r, RunLog& log)
{
    log = RunLog(); std::string t = run_text(r); ++runs;
    if (t.size() >= sizeof shm->cmd) { log.harness_error = "run too large"; return; }
    memcpy(shm->cmd, t.data(), t.size()); shm->cmd_len = t.size();
    shm->fatal[0] = 0; shm->cur_step = -1; shm->finished = 0; shm->shared_changed = 0; shm->log_len = shm->nlog = 0; shm->log_full = 0; shm->final_hash = shm->nswitch = shm->sched_hash = 0; shm->nsw = 0;
    int st = roundtrip('r', r.warm ? 1 : 0);
    Rd rd{ shm->log, shm->log + shm->log_len };
    for (uint32_t i = 0; i < shm->nlog && !rd.bad; ++i) {
        Outcome o;
        rd.v(o.step); rd.v(o.thr); rd.v(o.rep); rd.v(o.seq_begin); rd.v(o.seq_end); rd.v(o.exc); rd.s(o.what); rd.s(o.payload);
        rd.v(o.nops); for (int k = 0; k < o.nops && k < 3; ++k) rd.val(o.ops[k]);
        rd.v(o.ops_changed); rd.v(o.has_dst); rd.val(o.dst0); rd.val(o.dst1);
        rd.v(o.flags0); rd.v(o.flags1); rd.v(o.cwd0); rd.v(o.cwd1); rd.v(o.rnd0); rd.v(o.rnd1);
        rd.v(o.st0); rd.v(o.st1); rd.v(o.pos0); rd.v(o.pos1); rd.s(o.text); rd.s(o.fmt0); rd.s(o.fmt1); rd.v(o.fault);
        rd.v(o.nalloc); rd.v(o.live_new); rd.v(o.live_mp); rd.v(o.ticks); rd.v(o.vol); rd.s(o.key);
        if (!rd.bad) log.out.push_back(o);
    }
    log.log_full = shm->log_full;
    log.finished = shm->finished && WIFEXITED(st) && WEXITSTATUS(st) == 0;
    log.shared_changed = shm->shared_changed; log.nswitch = shm->nswitch; log.sched_hash = shm->sched_hash;
    log.sw.assign(shm->sw, shm->sw + (shm->nsw < MAXSW ? shm->nsw : MAXSW));
    if (!log.finished) {
        std::string f = shm->fatal;
        if (!f.empty()) {
            size_t a = f.find('|'), b = f.find('|', a + 1), c = f.find('|', b + 1);
            if (c != std::string::npos) { log.fatal_kind = f.substr(0, a); log.fatal_thr = atoi(f.c_str() + a + 1); log.fatal_step = atoi(f.c_str() + b + 1); log.fatal_msg = f.substr(c + 1); }
            if (log.fatal_kind == "harness") log.harness_error = log.fatal_msg;
        } else {
            log.fatal_kind = "crash"; log.fatal_step = shm->cur_step;
            char b[100]; if (WIFSIGNALED(st)) snprintf(b, sizeof b, "ended by signal %d", WTERMSIG(st)); else snprintf(b, sizeof b, "ended with status %d", WEXITSTATUS(st));
            log.fatal_msg = b;
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) log.harness_error = "child killed";
            if (!WIFSIGNALED(st) && WEXITSTATUS(st) == 3) log.harness_error = "child set-up failed";
        }
    }
    uint64_t h = 1469598103934665603ULL;
    h = fnv(h, shm->log, shm->log_len); h = fnv(h, log.fatal_kind.data(), log.fatal_kind.size()); h = fnv(h, &log.fatal_step, sizeof(int));
    h = fnv(h, &shm->final_hash, 8); h = fnv(h, &shm->sched_hash, 8);
    log.hash = h;
}
Step literal_step(Step const& s, Outcome const& o)
{
    Step t = s; t.id = 1; t.thr = 0; t.dst = 0; t.alloc = 0; t.rep = 1;
    for (int i = 0; i < o.nops; ++i) { t.a[i].kind = 'v'; t.a[i].v = o.ops[i]; t.a[i].fmt = o.ops[i].fmt; t.a[i].isdec = o.ops[i].isdec; }
    if (op_kinds[s.op] == K_RED) { t.cut = 0; t.cutk = 0; t.chunk = 0; }
    return t;
}
Outcome const& Engine::isolated_run(Run const& r)
{
    std::string key = run_text(r);
    auto it = memo.find(key); if (it != memo.end()) { ++iso_hits; return it->second; }
    ++iso_runs;
    RunLog l; execute(r, l); --runs;
    Outcome o; o.step = -2;
    if (!l.finished) { o.what = "fatal " + l.fatal_kind + ": " + l.fatal_msg; o.exc = 99; o.step = r.steps.empty() ? -1 : r.steps.back().id; }
    else for (auto& x : l.out) if (!r.steps.empty() && x.step == r.steps.back().id) o = x;
    if (!l.harness_error.empty()) { o.exc = 98; o.what = l.harness_error; }
    if (memo.size() > 400000) memo.clear();
    return memo[key] = o;
}
Outcome const& Engine::isolated(Step const& s, Outcome const& seen, int cwd, std::vector<Step> const& prelude, int warm)
{
    Run r; r.prop = "ISO"; r.nthr = 1; r.warm = warm;
    if (cwd) { Step e; e.id = 0; e.op = OP_env; e.e = "cwd:" + std::to_string(cwd); r.steps.push_back(e); }
    for (auto& p : prelude) r.steps.push_back(p);
    r.steps.push_back(literal_step(s, seen));
    return isolated_run(r);
}
} // namespace sim
