// Driver: seeded search over simulated runs, minimisation and replay.
//   sim run --prop ID --base N --secs S [--max RUNS] [--workers W] --out DIR     search; exit 0 clean, 1 violations, 3 broken harness
//   sim replay FILE [--prop ID]                                                   exit 1 if the run violates the property, 0 if not
//   sim show --prop ID --seed N                                                   prints the generated run
//   sim hash --prop ID --base N --count K                                         prints the execution hash of K runs (determinism check)
#include "engine.hpp"
#include "mathref.hpp"
#include <algorithm>
#include <unordered_set>
#include <unistd.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <signal.h>
#include <fstream>
#include <sstream>
using namespace sim;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t seed_of(uint64_t base, uint64_t i) { return mix(base, i) >> 1; }

static int op_class(Val const& v)
{
    if (!v.valid()) return 15;
    if (v.nai()) return 14;
    if (v.empty()) return 13;
    int c = 0; if (std::isinf(v.lo)) c |= 1; if (std::isinf(v.hi)) c |= 2;
    if (v.lo == v.hi) return 12;
    if (v.lo >= 0) c |= 4; else if (v.hi > 0) c |= 8;
    return c;
}
static uint64_t state_of(Step const& s, Outcome const& o)
{
    uint64_t h = mix(s.op, s.fmt * 2 + s.isdec);
    for (int i = 0; i < o.nops; ++i) h = mix(h, op_class(o.ops[i]) * 64 + o.ops[i].fmt * 20 + (o.ops[i].isdec ? o.ops[i].dec / 4 + 1 : 0));
    h = mix(h, o.exc); h = mix(h, o.flags0 * 16 + o.cwd0); h = mix(h, o.fault); h = mix(h, o.st0 * 8 + o.st1); h = mix(h, o.rnd0);
    if (s.cutk) h = mix(h, s.cutk);
    if (op_kinds[s.op] == K_TXT) { uint64_t c = 0; for (char ch : s.s) c |= 1ull << (ch & 63); h = mix(h, c); }
    if (op_kinds[s.op] == K_ENV) h = mix(h, fnv(s.e));
    return h;
}
struct Found { Violation v; Run r; RunLog log; };
static std::set<std::string> known_cls;      // recorded findings: counted, not reported again
static void drop_known(std::vector<Violation>& v, Counters& c) { for (size_t i = 0; i < v.size();) if (known_cls.count(v[i].cls)) { c.add("known." + v[i].cls); v.erase(v.begin() + i); } else ++i; }
static bool test(Engine& e, Run const& r, std::string const& cls, Violation* out, RunLog* lo = nullptr)
{
    RunLog log; e.execute(r, log); Counters c; std::vector<Violation> v;
    if (!log.harness_error.empty()) return false;
    judge(r, log, e, c, v);
    for (auto& x : v) if (x.cls == cls) { if (out) *out = x; if (lo) *lo = log; return true; }
    return false;
}
static void minimise(Engine& e, Run& r, Violation& viol, double secs)
{
    double end = now() + secs; std::string cls = viol.cls; RunLog log; int left = 4000;
    auto ok = [&](Run const& c) { if (now() > end || --left < 0) return false; Violation v; RunLog l; if (!test(e, c, cls, &v, &l)) return false; viol = v; r = c; log = l; return true; };
    { RunLog l; Violation v; if (!test(e, r, cls, &v, &l)) return; viol = v; log = l; }
    if (r.nthr > 1 && !r.explicit_sched) { Run c = r; c.explicit_sched = 1; c.sw = log.sw; ok(c); }
    // one thread only?
    for (int t = 0; t < r.nthr && r.nthr > 1; ++t) { Run c = r; c.steps.clear(); for (auto& s : r.steps) if (s.thr != t) c.steps.push_back(s); if (c.steps.size() < r.steps.size()) ok(c); }
    // steps
    for (size_t chunk = std::max<size_t>(1, r.steps.size() / 2);; chunk = chunk / 2) {
        for (size_t i = 0; i < r.steps.size();) { Run c = r; size_t k = std::min(chunk, c.steps.size() - i); if (k == c.steps.size()) break; c.steps.erase(c.steps.begin() + i, c.steps.begin() + i + k); if (!ok(c)) i += chunk; }
        if (chunk <= 1) break;
    }
    for (size_t i = 0; i < r.steps.size() && r.steps.size() > 1;) { Run c = r; c.steps.erase(c.steps.begin() + i); if (!ok(c)) ++i; }
    // scheduling decisions
    if (r.explicit_sched) for (size_t chunk = std::max<size_t>(1, r.sw.size() / 2);; chunk /= 2) {
        for (size_t i = 0; i < r.sw.size();) { Run c = r; size_t k = std::min(chunk, c.sw.size() - i); c.sw.erase(c.sw.begin() + i, c.sw.begin() + i + k); if (!ok(c)) i += chunk; }
        if (chunk <= 1) break;
    }
    // faults, patterns, values
    for (size_t i = 0; i < r.steps.size(); ++i) {
        auto tryset = [&](auto f) { Run c = r; std::string a = step_text(c.steps[i]); f(c.steps[i]); if (step_text(c.steps[i]) != a) ok(c); };
        tryset([](Step& s) { s.alloc = 0; }); tryset([](Step& s) { s.cut = 0; s.cutk = 0; }); tryset([](Step& s) { s.mask = 0; }); tryset([](Step& s) { if (s.rep > 1) s.rep = 1; });
        tryset([](Step& s) { if (s.op == OP_open) { s.chunk = 1; s.n = 0; } });
        if (r.steps[i].op == OP_open || r.steps[i].op == OP_txt) for (size_t ch = std::max<size_t>(1, r.steps[i].s.size() / 2); ch >= 1; ch /= 2) { for (size_t j = 0; j < r.steps[i].s.size();) { Run c = r; c.steps[i].s.erase(j, ch); if (!ok(c)) j += ch; } if (ch == 1) break; }
        if (op_kinds[r.steps[i].op] == K_RED) {
            auto sp = [](std::string const& x) { std::vector<std::string> v; std::istringstream is(x); std::string t; while (is >> t) v.push_back(t); return v; };
            for (size_t j = 0; j < sp(r.steps[i].s).size();) { Run c = r; auto a = sp(c.steps[i].s), b = sp(c.steps[i].e); a.erase(a.begin() + j); if (j < b.size()) b.erase(b.begin() + j); c.steps[i].s.clear(); for (auto& x : a) c.steps[i].s += (c.steps[i].s.empty() ? "" : " ") + x; if (!b.empty() || !c.steps[i].e.empty()) { c.steps[i].e.clear(); for (auto& x : b) c.steps[i].e += (c.steps[i].e.empty() ? "" : " ") + x; } if (!ok(c)) ++j; }
        }
    }
    // registers nobody reads
    { Run c = r; for (int f = 0; f < 3; ++f) for (int d = 0; d < 2; ++d) c.shared[f][d].clear(); ok(c); }
    for (int t = 0; t < r.nthr; ++t) { Run c = r; for (int f = 0; f < 3; ++f) for (int d = 0; d < 2; ++d) c.init[t][f][d].clear(); if (!ok(c)) for (int f = 0; f < 3; ++f) for (int d = 0; d < 2; ++d) { Run c2 = r; c2.init[t][f][d].clear(); ok(c2); } }
    { int mt = 0; for (auto& s : r.steps) mt = std::max(mt, s.thr); if (mt + 1 < r.nthr) { Run c = r; c.nthr = mt + 1; if (c.nthr == 1) { c.sw.clear(); c.explicit_sched = 0; } ok(c); } }
    // operand simplification
    for (size_t i = 0; i < r.steps.size(); ++i) for (int a = 0; a < 3; ++a) {
        if (r.steps[i].a[a].kind == 'r' || r.steps[i].a[a].kind == 's') { for (auto& o : log.out) if (o.step == r.steps[i].id && a < o.nops && o.ops[a].valid()) { Run c = r; Arg& x = c.steps[i].a[a]; x.kind = 'v'; x.v = o.ops[a]; ok(c); break; } }
        if (r.steps[i].a[a].kind != 'v') continue;
        Val v = r.steps[i].a[a].v; if (v.empty() || v.nai()) continue;
        auto tv = [&](Val w) { if (!w.valid() || same_val(w, r.steps[i].a[a].v)) return; Run c = r; c.steps[i].a[a].v = w; ok(c); };
        { Val w = v; w.hi = w.lo; tv(w); w = v; w.lo = w.hi; tv(w); }
        v = r.steps[i].a[a].v; for (long double q : { 0.0L, 1.0L, -1.0L, 2.0L }) { Val w = r.steps[i].a[a].v; w.lo = q; tv(w); w = r.steps[i].a[a].v; w.hi = q; tv(w); }
    }
    for (size_t i = 0; i < r.steps.size() && r.steps.size() > 1;) { Run c = r; c.steps.erase(c.steps.begin() + i); if (!ok(c)) ++i; }
}
struct Ctl { volatile int stop; };
static std::string one_line(std::string s) { for (auto& c : s) if (c == '\n') c = ' '; return s; }
static int worker(int w, int nw, std::string const& prop, uint64_t base, double secs, uint64_t maxr, std::string const& out, Ctl* ctl)
{
    Engine e; e.start(); ref_init();
    std::ofstream res(out + "/w" + std::to_string(w) + ".txt");
    if (!e.layout_ok) { res << "harness objects are not stored as expected\n"; return 3; }
    double t0 = now(); Counters c; std::unordered_set<uint64_t> hashes, scheds; uint64_t runs = 0, steps = 0, ticks = 0, nsw = 0, gate = 0; int rc = 0; std::vector<std::string> samples; uint64_t nontriv = 0, unfinished = 0; int nondet = 0;
    std::map<std::string, uint64_t>& n = c.n;
    for (uint64_t i = w; ; i += nw) {
        if (ctl->stop || now() - t0 > secs || (maxr && i >= maxr)) break;
        uint64_t seed = seed_of(base, i); Run r; generate(prop, seed, r);
        RunLog log; e.execute(r, log);
        if (!log.harness_error.empty()) { res << "harness " << log.harness_error << " (seed " << seed << ")\n"; rc = 3; break; }
        ++runs; nsw += log.nswitch; hashes.insert(log.hash); if (r.nthr > 1) scheds.insert(log.sched_hash);
        if (runs % 50 == 1) { RunLog l2; e.execute(r, l2); ++gate; if (l2.hash != log.hash) { res << "harness run not repeatable (seed " << seed << ")\n"; std::ofstream(out + "/nondet.replay") << run_text(r); rc = 3; break; } }
        std::map<int, Step const*> by; for (auto& s : r.steps) by[s.id] = &s;
        bool nt = false;
        for (auto& o : log.out) {
            ++steps; ticks += o.ticks; auto it = by.find(o.step); if (it == by.end()) continue; Step const& s = *it->second;
            n[std::string("op.") + op_names[s.op]]++; if (o.exc) n[std::string("exc.") + exc_names[o.exc]]++;
            if (o.fault & 1) n["fault.allocation"]++; if (o.fault & 2) n["fault.stream_device"]++; if (o.fault & 4) n["fault.iterator"]++; if (o.fault & 8) n["fault.corrupted_object"]++;
            if (s.op == OP_env) { std::string k = s.e.substr(0, s.e.find(':')); n["env." + k]++; }
            if (s.op == OP_open && s.chunk) n[s.chunk == -1 ? "delivery.unbuffered" : "delivery.chunked"]++;
            c.states[state_of(s, o)] = 1; if (s.op != OP_env && op_kinds[s.op] != K_IO) nt = true; if (s.op == OP_rd || s.op == OP_wr) nt = true;
        }
        if (log.nswitch) n["schedule.preemptions"] += log.nswitch;
        if (nt) ++nontriv;
        if (samples.size() < 2 && runs % 7 == 3) { std::string t = "seed=" + std::to_string(seed) + " threads=" + std::to_string(r.nthr) + ":"; int k = 0; for (auto& s : r.steps) { if (++k > 5) { t += " ..."; break; } t += " | " + step_text(s); } samples.push_back(one_line(t)); }
        std::vector<Violation> v;
        judge(r, log, e, c, v); drop_known(v, c);
        if (!log.finished && log.fatal_kind.empty()) ++unfinished;
        if (v.empty()) continue;
        // a violation: must repeat exactly, then minimise
        Violation viol = v[0]; std::string err;
        RunLog l2; e.execute(r, l2);
        if (l2.hash != log.hash) {      // not acceptable as evidence; another run may show the same defect in a repeatable way
            std::ofstream(out + "/nondet.replay") << run_text(r);
            if (++nondet < 40) continue;
            res << "harness violating run not repeatable (seed " << seed << "): " << one_line(viol.msg) << "\n"; rc = 3; break;
        }
        Run m = r; minimise(e, m, viol, 25);
        RunLog lf; Violation vf; if (!test(e, m, viol.cls, &vf, &lf)) { m = r; vf = viol; }
        std::string file = out + "/" + prop + "-" + std::to_string(seed) + ".replay"; std::ofstream f(file);
        f << "# property " << prop << " violated: " << one_line(vf.msg) << "\n# class " << vf.cls << "\n# found at seed " << seed << " of base " << base << "; replay: sim replay <this file>\n" << run_text(m) << "expect " << vf.cls << "\n";
        f.close();
        res << "violation " << file << " " << vf.cls << " " << one_line(vf.msg) << "\n"; res.flush(); rc = 1; ctl->stop = 1; break;
    }
    if (nondet && rc == 0) { res << "harness " << nondet << " violating runs were not repeatable\n"; rc = 3; }
    res << "runs " << runs << "\nsteps " << steps << "\nticks " << ticks << "\nswitches " << nsw << "\ngate " << gate << "\niso " << e.iso_runs << "\nisohits " << e.iso_hits << "\nnontrivial " << nontriv << "\n";
    for (auto& p : n) res << "count " << p.first << " " << p.second << "\n";
    for (auto& s : samples) res << "sample " << s << "\n";
    res.close();
    auto dump = [&](char const* k, auto const& set, auto get) { std::ofstream f(out + "/w" + std::to_string(w) + "." + k, std::ios::binary); for (auto& x : set) { uint64_t h = get(x); f.write((char const*)&h, 8); } };
    dump("hash", hashes, [](uint64_t x) { return x; }); dump("sched", scheds, [](uint64_t x) { return x; }); dump("state", c.states, [](std::pair<uint64_t const, char> const& x) { return x.first; });
    return rc;
}
int main(int argc, char** argv)
{
    std::map<std::string, std::string> a; std::vector<std::string> pos;
    for (int i = 1; i < argc; ++i) { if (!strncmp(argv[i], "--", 2) && i + 1 < argc) { a[argv[i] + 2] = argv[i + 1]; ++i; } else pos.push_back(argv[i]); }
    std::string cmd = pos.empty() ? "" : pos[0], prop = a.count("prop") ? a["prop"] : ""; uint64_t base = a.count("base") ? strtoull(a["base"].c_str(), 0, 10) : 1;
    if (cmd == "show") { Run r; generate(prop, a.count("seed") ? strtoull(a["seed"].c_str(), 0, 10) : seed_of(base, a.count("i") ? atol(a["i"].c_str()) : 0), r); printf("%s", run_text(r).c_str()); return 0; }
    if (cmd == "hash") { Engine e; e.start(); uint64_t k = atol(a["count"].c_str()); for (uint64_t i = 0; i < k; ++i) { Run r; generate(prop, seed_of(base, i), r); RunLog l; e.execute(r, l); printf("%016llx %s\n", (unsigned long long)l.hash, l.fatal_kind.c_str()); } return 0; }
    if (cmd == "replay" && pos.size() > 1) {
        std::ifstream f(pos[1]); std::stringstream ss; ss << f.rdbuf(); Run r; if (!f || !run_parse(ss.str(), r)) { fprintf(stderr, "cannot read %s\n", pos[1].c_str()); return 3; }
        if (!prop.empty()) r.prop = prop;
        Engine e; e.start(); ref_init(); if (!e.layout_ok) return 3;
        RunLog l, l2; e.execute(r, l); e.execute(r, l2);
        if (!l.harness_error.empty()) { fprintf(stderr, "harness: %s\n", l.harness_error.c_str()); return 3; }
        if (l.hash != l2.hash) { fprintf(stderr, "not repeatable\n"); return 3; }
        if (a.count("log")) for (auto& o : l.out) { printf("log step=%d thr=%d rep=%d exc=%s payload=%s flags=%d->%d cwd=%d->%d st=%d->%d pos=%ld->%ld text=%s fault=%d nalloc=%ld live=%ld/%ld ticks=%llu vol=%llu dst0=%s dst1=%s fmt0=%s fmt1=%s key=%s what=%s\n", o.step, o.thr, o.rep, exc_names[o.exc], o.payload.c_str(), o.flags0, o.flags1, o.cwd0, o.cwd1, o.st0, o.st1, o.pos0, o.pos1, esc(o.text).c_str(), o.fault, o.nalloc, o.live_new, o.live_mp, (unsigned long long)o.ticks, (unsigned long long)o.vol, val_text(o.dst0).c_str(), val_text(o.dst1).c_str(), o.fmt0.c_str(), o.fmt1.c_str(), esc(o.key).c_str(), o.what.c_str()); }
        Counters c; std::vector<Violation> v; judge(r, l, e, c, v);
        for (auto& x : v) printf("violation class=%s step=%d %s\n", x.cls.c_str(), x.step, x.msg.c_str());
        printf("hash %016llx switches %llu\n", (unsigned long long)l.hash, (unsigned long long)l.nswitch);
        return v.empty() ? 0 : 1;
    }
    if (cmd == "run") {
        double secs = a.count("secs") ? atof(a["secs"].c_str()) : 20; int nw = a.count("workers") ? atoi(a["workers"].c_str()) : 8; uint64_t maxr = a.count("max") ? strtoull(a["max"].c_str(), 0, 10) : 0; std::string out = a["out"];
        Ctl* ctl = (Ctl*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        { std::istringstream ks(a["known"]); std::string k; while (std::getline(ks, k, ',')) known_cls.insert(k); }
        std::vector<int> pids;
        for (int w = 0; w < nw; ++w) { int p = fork(); if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); int rc = worker(w, nw, prop, base, secs, maxr, out, ctl); fflush(nullptr); _exit(rc); } pids.push_back(p); }
        int rc = 0; for (int p : pids) { int st; waitpid(p, &st, 0); int k = WIFEXITED(st) ? WEXITSTATUS(st) : 3; if (k == 3 && rc != 1) rc = 3; else if (k == 1) rc = 1; else if (k != 0 && rc == 0) rc = 3; }
        return rc;
    }
    fprintf(stderr, "usage: sim run|replay|show|hash ...\n"); return 2;
}
