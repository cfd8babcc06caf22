// Dispatch per property and the judgements that compare a simulated run with isolated executions or with shadow state.
#include "judge.hpp"
#include <algorithm>
#include <sstream>
namespace sim {
J::J(Run const& r_, RunLog const& l, Engine& e_, Counters& c_, std::vector<Violation>& v_) : r(r_), log(l), e(e_), c(c_), v(v_)
{
    for (auto& s : r.steps) by[s.id] = &s;
    std::map<int, Step const*> in, os;
    for (auto& o : log.out) {
        Step const* s = st(o); Step const* q = nullptr;
        if (s) { if (s->op == OP_open) in[o.thr] = s; else if (s->op == OP_wopen) os[o.thr] = s; if (s->op == OP_rd || s->op == OP_rddec) q = in[o.thr]; else if (s->op == OP_wr || s->op == OP_wrdec || s->op == OP_wrovl || s->op == OP_manip) q = os[o.thr]; }
        open_of.push_back(q);
    }
}
void J::fail(std::string const& cls, Outcome const& o, std::string const& msg) { Violation x; x.cls = cls; x.msg = msg; x.step = o.step; v.push_back(x); }
std::string describe(Step const& s, Outcome const& o)
{
    std::string t = op_names[s.op]; for (int i = 0; i < o.nops; ++i) t += " " + val_text(o.ops[i]);
    int k = op_kinds[s.op];
    if (k == K_PN || k == K_PN2) t += " n=" + std::to_string(s.n);
    if (k == K_MEM) t += " x=" + num_text(s.x);
    if (k == K_CTOR) t += " " + num_text(s.x) + " " + num_text(s.y) + " dec=" + std::to_string(s.m);
    if (k == K_TXT) t += " \"" + esc(s.s) + "\"";
    if (k == K_RED) t += " {" + s.s + "} {" + s.e + "} mode " + std::to_string(s.n);
    t += std::string(" ->") + fmt_char(s.fmt) + (s.isdec ? "+dec" : ""); return t;
}
static bool is_bookkeeping(int op) { return op_kinds[op] == K_ENV || op == OP_open || op == OP_iclear || op == OP_wopen || op == OP_odev || op == OP_oclear || op == OP_manip; }
static bool is_rd(int op) { return op == OP_rd || op == OP_rddec; }
static bool is_wr(int op) { return op == OP_wr || op == OP_wrdec || op == OP_wrovl; }
Outcome const& J::iso(size_t i, int cwd)
{
    Outcome const& o = log.out[i]; Step const* s = st(o); std::vector<Step> pre;
    if (is_rd(s->op)) { RdInfo ri = rd_info(o); Step op; op.op = OP_open; op.id = 0; op.s = o.key; op.chunk = 64; op.mask = ri.mask; std::string oe = open_of[i] ? open_of[i]->e : ""; op.m = open_of[i] ? open_of[i]->m : 0; for (char const* w : { "noskipws", "comma", "hex" }) if (oe.find(w) != std::string::npos) op.e += std::string(op.e.empty() ? "" : " ") + w; pre.push_back(op); }
    else if (is_wr(s->op)) { Step w; w.op = OP_wopen; w.id = 0; w.e = o.fmt0; w.mask = atoi(o.key.c_str()); pre.push_back(w); }
    Outcome const& x = e.isolated(*s, o, cwd, pre, r.warm);
    c.add("isolated.compared"); return x;
}
static std::string outcome_text(Outcome const& o) { return o.exc == 99 ? o.what : o.exc ? std::string("exception ") + exc_names[o.exc] + (o.what.empty() ? "" : " " + o.what) : o.payload; }
// the same operation alone in a fresh process must give the same
// bounds compare as numbers: the sign of a zero bound has no meaning
static bool same_payload(std::string const& a, std::string const& b)
{
    if (a == b) return true; if (a.size() < 3 || a[1] != ':') return false;
    auto norm = [](std::string t) { for (size_t q; (q = t.find("-0x0p+0")) != std::string::npos; ) t.erase(q, 1); return t; };
    return norm(a) == norm(b);
}
void judge_isolated(J& j, size_t i, bool flags)
{
    Outcome const& o = j.log.out[i]; Step const* s = j.st(o); if (!s || o.step < 0 || is_bookkeeping(s->op) || (o.fault & 3)) return;
    if ((o.fault & 4) && s->cutk == 'x') return;
    if ((is_rd(s->op) || is_wr(s->op)) && o.st0) return;
    if (is_rd(s->op) && rd_info(o).limited) return;
    Outcome const& p = j.iso(i, o.cwd0); if (p.exc == 98 || p.step == -1) return;
    bool io = is_rd(s->op); bool okp = !p.exc && !(io && (p.st1 & (ST_FAIL | ST_BAD))), oko = !o.exc && !(io && (o.st1 & (ST_FAIL | ST_BAD)));
    if (o.exc != p.exc || oko != okp || (oko && !same_payload(o.payload, p.payload))) return j.fail("isolated:result", o, describe(*s, o) + " gives " + outcome_text(o) + ", alone in a fresh process " + outcome_text(p));
    if (io || is_wr(s->op)) {
        if (o.st1 != p.st1 || o.pos1 - o.pos0 != p.pos1 - p.pos0 || o.text != p.text) return j.fail("isolated:stream", o, describe(*s, o) + " leaves the stream in state " + std::to_string(o.st1) + " with \"" + esc(o.text) + "\", alone " + std::to_string(p.st1) + " \"" + esc(p.text) + "\"");
    }
    if (flags && o.flags1 != (o.flags0 | p.flags1)) return j.fail("isolated:flags", o, describe(*s, o) + " takes the flags from " + std::to_string(o.flags0) + " to " + std::to_string(o.flags1) + ", alone it raises " + std::to_string(p.flags1));
}
static void judge_ambient(J& j, size_t i)
{
    Outcome const& o = j.log.out[i]; Step const* s = j.st(o); if (!s || o.step < 0) return;
    if (o.rnd0 != o.rnd1) j.fail("ambient:rounding", o, describe(*s, o) + " changes the thread's rounding mode");
    if (o.ops_changed) j.fail("operand", o, describe(*s, o) + " changes an operand");
}
static bool ok_bounds(Step const& s) { return s.x <= s.y && s.x != INFINITY && s.y != -INFINITY; }
static bool ok_dec(int d) { return d == ILL || d == TRV || d == DEF || d == DAC || d == COM; }
// flags the operation has to raise; first: the one signalled first
int expected_bits(J& j, size_t i, bool& known, int* first)
{
    Outcome const& o = j.log.out[i]; Step const& s = *j.st(o); known = true; int bits = 0; if (first) *first = 0;
    bool inv = false; for (int k = 0; k < o.nops; ++k) { if (o.ops[k].isdec && !ok_dec(o.ops[k].dec)) { known = false; return 0; } if (!o.ops[k].valid()) inv = true; }
    switch (op_kinds[s.op]) {
    case K_CTOR: {
        bool unb = std::isinf(s.x) || std::isinf(s.y);
        if (s.op == OP_ctor_dec || s.op == OP_ctor_mixed_dec) { if (!ok_dec(s.m)) bits = 8; else if (s.m == ILL || !ok_bounds(s) || (s.m == COM && unb)) bits = 1; }
        else if (!ok_bounds(s)) bits = 1;
        break; }
    case K_TXT: {
        Lit m = model_literal(s.s, true); if (m.ok == 2 || m.hugeorder) { known = false; return 0; }
        bool tail = false; if (m.ok == 1) for (size_t k = m.used; k < s.s.size(); ++k) if (!isspace((unsigned char)s.s[k])) tail = true;
        if (m.ok != 1) bits = 1; else { if (m.nai && !s.isdec) bits |= 4; if (tail) bits |= 1; if (bits == 5 && first) *first = 4; }
        break; }
    case K_COPY: if (inv) { if (s.op == OP_assign) known = false; else bits = 8; } break;
    case K_CONV:
        if (s.op == OP_setdec) bits = inv || !ok_dec(s.m) ? 8 : 0;
        else if (inv) bits = 8;
        else if (s.op == OP_ipart && o.ops[0].nai()) bits = 4;
        break;
    case K_CONST: case K_RED: break;
    case K_IO:
        if (s.op == OP_rd) { bool ok = !(o.st1 & (ST_FAIL | ST_BAD)); RdInfo r = rd_info(o); Lit m = model_literal(r.avail, (r.flags & long(std::ios_base::skipws)) != 0); if (m.ok == 2 || o.fault) { known = false; return 0; } if (m.ok == 1 && m.nai && !s.isdec && o.st0 == 0) { if (ok) bits = 4; else known = false; } }
        else if (s.op == OP_wr && inv) bits = 8;
        break;
    default: if (inv) bits = 8;
    }
    if (first && !*first) *first = bits;
    return bits;
}
static int exc_of(int bit) { return bit == 1 ? EX_UNDEF : bit == 2 ? EX_PUNDEF : bit == 4 ? EX_IPNAI : bit == 8 ? EX_INVOP : EX_NONE; }
static bool leaks_again(J& j, Step const& s, Outcome const& o);
void judge_flags(J& j, bool traps)
{
    std::map<int, int> fl, cw;
    for (size_t i = 0; i < j.log.out.size(); ++i) {
        Outcome const& o = j.log.out[i]; Step const* s = j.st(o); if (!s || o.step < 0) continue;
        int& f = fl[o.thr]; int& w = cw[o.thr];
        bool plain_env = op_kinds[s->op] == K_ENV;
        if (s->op == OP_open || s->op == OP_iclear || s->op == OP_wopen || s->op == OP_odev || s->op == OP_oclear) continue;
        if (!plain_env || o.seq_end != o.seq_begin) {
            if (o.flags0 != f) return j.fail("flags:shadow", o, "before " + describe(*s, o) + " the flags of thread " + std::to_string(o.thr) + " are " + std::to_string(o.flags0) + " although its own operations raised " + std::to_string(f));
            if (o.cwd0 != w) return j.fail("flags:traps", o, "the enabled traps of thread " + std::to_string(o.thr) + " are " + std::to_string(o.cwd0) + " although it set " + std::to_string(w));
        }
        j.c.add("flags.checked");
        if (plain_env) {
            std::string k = s->e; long n = 0; size_t q = k.find(':'); if (q != std::string::npos) { n = atol(k.c_str() + q + 1); k = k.substr(0, q); }
            int want_exc = 0;
            if (k == "cwd") w = n & 15; else if (k == "clear") f = 0; else if (k == "clearbit") f &= ~int(n); else if (k == "signal") { f |= n; if (w & n) want_exc = exc_of(n); }
            else if (k == "query") { std::string want = std::to_string(f) + " " + std::to_string(w); if (!o.exc && o.payload != want) return j.fail("flags:query", o, "flags and traps read as " + o.payload + " instead of " + want); }
            if (o.flags1 != f || o.cwd1 != w) return j.fail("flags:shadow", o, "after " + s->e + " flags " + std::to_string(o.flags1) + " traps " + std::to_string(o.cwd1) + ", expected " + std::to_string(f) + " and " + std::to_string(w));
            if (o.exc != want_exc) return j.fail("traps:exception", o, s->e + " throws " + exc_names[o.exc] + " instead of " + exc_names[want_exc]);
            continue;
        }
        if (o.cwd1 != w) return j.fail("flags:traps", o, describe(*s, o) + " changes the enabled traps to " + std::to_string(o.cwd1));
        bool known; int first; int bits = s->op == OP_manip ? 0 : expected_bits(j, i, known = true, &first); if (s->op == OP_manip) known = true, first = 0;
        int want = bits, wexc = EX_NONE;
        if (known && (bits & w)) { int b = first && (first & w) == first ? first : bits & w; if (b == first) want = first; wexc = exc_of(b); }
        if (!known) { if ((o.flags1 & f) != f) return j.fail("flags:lost", o, describe(*s, o) + " clears flags"); if (o.exc >= EX_UNDEF && o.exc <= EX_INVOP && !((w >> (o.exc - EX_UNDEF)) & 1)) return j.fail("traps:exception", o, describe(*s, o) + " throws " + exc_names[o.exc] + " which is not enabled"); f = o.flags1; continue; }
        if (o.fault & 1) { if ((o.flags1 & ~(f | want)) || (o.flags1 & f) != f) return j.fail("flags:wrong", o, describe(*s, o) + " raises flags " + std::to_string(o.flags1)); f = o.flags1; continue; }
        if (want) j.c.add("flags.raised");
        if (o.flags1 != (f | want)) return j.fail("flags:wrong", o, describe(*s, o) + " takes the flags from " + std::to_string(f) + " to " + std::to_string(o.flags1) + ", expected " + std::to_string(f | want));
        f = o.flags1;
        bool p1788exc = o.exc >= EX_UNDEF && o.exc <= EX_INVOP;
        if (wexc ? o.exc != wexc : (p1788exc || (o.exc && op_kinds[s->op] != K_IO))) return j.fail("traps:exception", o, describe(*s, o) + " throws " + exc_names[o.exc] + " " + o.what + " instead of " + exc_names[wexc] + " (enabled " + std::to_string(w) + ")");
        if (o.exc) {
            if (traps) j.c.add("traps.thrown");
            if (o.ops_changed) return j.fail("traps:operand", o, describe(*s, o) + " throws and changes an operand");
            if (o.has_dst && s->op != OP_rddec && !same_val(o.dst0, o.dst1)) return j.fail("traps:target", o, describe(*s, o) + " throws and changes the target from " + val_text(o.dst0) + " to " + val_text(o.dst1));
            if (j.r.warm && op_kinds[s->op] != K_IO && o.live_new > 0 && leaks_again(j, *s, o)) return j.fail("traps:leak", o, describe(*s, o) + " throws and leaves " + std::to_string(o.live_new) + " bytes allocated");
        }
    }
}
// memory an exit leaves behind counts only when the same operation leaves some each time: tables, caches and pools filled once are no leak
static bool leaks_again(J& j, Step const& s, Outcome const& o)
{
    Run r; r.prop = "ISO"; r.nthr = 1; r.warm = 1;
    if (o.cwd0) { Step e; e.id = 0; e.op = OP_env; e.e = "cwd:" + std::to_string(o.cwd0); r.steps.push_back(e); }
    Step t = literal_step(s, o); t.alloc = s.alloc; t.cut = s.cut; t.cutk = s.cutk; t.chunk = s.chunk; t.rep = 8; r.steps.push_back(t);
    j.c.add("memory.leak_confirmations");
    Outcome const& p = j.e.isolated_run(r);
    return p.exc < 98 && p.step >= 0 && p.live_new > 0;
}
void judge_memory(J& j)
{
    std::map<int, std::vector<Outcome const*>> by;
    for (auto& o : j.log.out) { Step const* s = j.st(o); if (!s || o.step < 0) continue; if (s->rep >= 5) by[o.step].push_back(&o); if (s->op == OP_env && s->e.compare(0, 8, "teardown") == 0) { j.c.add("memory.teardown"); if (!o.text.empty() && atol(o.text.c_str()) > 0) return j.fail("memory:teardown", o, "after thread clean-up " + o.text + " bytes of number memory are still held for the thread"); } }
    for (auto& p : by) {
        auto& q = p.second; size_t from = q.size() >= 3 ? q.size() - 3 : 0; bool ln = q.size() >= 5, lm = q.size() >= 48;      // MPFR keeps up to 32 released integers for reuse
        for (size_t k = from; k < q.size(); ++k) { if (q[k]->live_new <= 0) ln = false; if (q[k]->live_mp <= 0) lm = false; }
        j.c.add("memory.repeated", q.size());
        if (ln || lm) return j.fail(ln ? "memory:leak" : "memory:leakmp", *q.back(), describe(*j.by[p.first], *q.back()) + " leaves " + std::to_string(ln ? q.back()->live_new : q.back()->live_mp) + " bytes allocated each time it is repeated" + (q.back()->exc ? std::string(" (it throws ") + exc_names[q.back()->exc] + ")" : ""));
        // a single exit that leaks, seen once tables exist
        if (j.r.warm) for (size_t k = 1; k < q.size(); ++k) if (q[k]->exc && q[k]->live_new > 0 && op_kinds[j.by[p.first]->op] != K_IO && leaks_again(j, *j.by[p.first], *q[k])) return j.fail("memory:leak", *q[k], describe(*j.by[p.first], *q[k]) + " leaves " + std::to_string(q[k]->live_new) + " bytes allocated when it throws " + exc_names[q[k]->exc]);
    }
}
// failed allocations
void judge_alloc(J& j, size_t i)
{
    Outcome const& o = j.log.out[i]; Step const* s = j.st(o); if (!s || o.step < 0 || is_bookkeeping(s->op)) { if (s && o.step >= 0 && s->op == OP_manip && o.exc && o.exc != EX_BADALLOC && o.exc != EX_IOS) j.fail("alloc:exception", o, "manipulator throws " + std::string(exc_names[o.exc])); return; }
    if (!(o.fault & 1)) { judge_isolated(j, i, true); return; }
    j.c.add("alloc.failed");
    bool rd = is_rd(s->op), wr = is_wr(s->op);
    if (o.ops_changed) return j.fail("alloc:operand", o, describe(*s, o) + " with a failed allocation changes an operand");
    if (wr) { judge_insert(j, i); }
    if (rd) {
        judge_extract(j, i);
        bool ok = !o.exc && !(o.st1 & (ST_FAIL | ST_BAD)); if (!ok && s->op == OP_rd && !same_val(o.dst0, o.dst1)) return j.fail("alloc:target", o, "target changed although an allocation failed");
        if (o.st0) return;
        Outcome const& p = j.iso(i, o.cwd0); if (p.exc >= 98 || p.step < 0) return; bool okp = !p.exc && !(p.st1 & (ST_FAIL | ST_BAD));
        if (ok && (!okp || o.payload != p.payload)) return j.fail("alloc:result", o, describe(*s, o) + " of \"" + esc(o.key) + "\" with a failed allocation gives " + outcome_text(o) + ", normally " + (okp ? p.payload : "failure"));
        if (!o.exc && !ok && okp && !(o.st1 & ST_BAD)) return j.fail("alloc:unreported", o, "extraction of \"" + esc(o.key) + "\" fails because of memory without setting badbit or throwing");
        if (o.flags1 & ~(o.flags0 | p.flags1)) return j.fail("alloc:flags", o, "extraction raises flags");
        return;
    }
    if (wr) return;
    Outcome const& p = j.iso(i, o.cwd0); if (p.exc >= 98 || p.step < 0) return;
    if (o.exc == EX_BADALLOC) {
        if (o.has_dst && !same_val(o.dst0, o.dst1)) return j.fail("alloc:target", o, describe(*s, o) + " throws bad_alloc and changes the target to " + val_text(o.dst1));
        if (o.flags1 & ~(o.flags0 | p.flags1)) return j.fail("alloc:flags", o, describe(*s, o) + " throws bad_alloc and raises flags " + std::to_string(o.flags1));
        if (j.r.warm && o.live_new > 0 && leaks_again(j, *s, o)) return j.fail("alloc:leak", o, describe(*s, o) + " throws bad_alloc and leaves " + std::to_string(o.live_new) + " bytes allocated");
        return;
    }
    if (o.exc != p.exc || (!o.exc && o.payload != p.payload)) return j.fail("alloc:result", o, describe(*s, o) + " with a failed allocation gives " + outcome_text(o) + ", normally " + outcome_text(p));
    if (o.flags1 != (o.flags0 | p.flags1)) return j.fail("alloc:flags", o, describe(*s, o) + " with a failed allocation raises flags " + std::to_string(o.flags1));
}
static void judge_bare_vs_dec(J& j, size_t i)
{
    Outcome const& o = j.log.out[i]; Step const* s = j.st(o); if (!s || o.step < 0 || o.exc || !s->isdec || (o.fault & 3)) return;
    int k = op_kinds[s->op]; if (!(k == K_UN || k == K_BIN || k == K_TER || k == K_PN || k == K_PN2 || k == K_PAIR)) return;
    for (int a = 0; a < o.nops; ++a) if (!o.ops[a].valid() || o.ops[a].nai()) return;
    Step b = *s; b.isdec = false; Outcome x = o; for (int a = 0; a < o.nops; ++a) { x.ops[a].isdec = false; x.ops[a].dec = TRV; b.a[a].isdec = false; }
    Outcome const& p = j.e.isolated(b, x, 0, {}, j.r.warm); if (p.exc || p.step < 0) return;
    j.c.add("decoration.bare_compared");
    auto iv = [](std::string const& t) { std::vector<Val> r; std::istringstream is(t); std::string w; while (is >> w) { Val v = val_parse(w); r.push_back(v); } return r; };
    std::vector<Val> a = iv(o.payload), c = iv(p.payload); bool same = a.size() == c.size(); for (size_t q = 0; same && q < a.size(); ++q) same = a[q].empty() ? c[q].empty() : (a[q].lo == c[q].lo && a[q].hi == c[q].hi);
    if (!same) j.fail("decoration:interval", o, describe(*s, o) + " decorated " + o.payload + ", bare " + p.payload);
}
static void judge_work(J& j, size_t i)
{
    Outcome const& o = j.log.out[i]; Step const* s = j.st(o); if (!s || o.step < 0 || !(is_rd(s->op) || s->op == OP_txt)) return;
    size_t n = s->op == OP_txt ? s->s.size() : o.key.size(); uint64_t lt = 4000000 + 2500ull * n, lv = 2000000 + 1000ull * n;
    j.c.n["work.max_accesses"] = std::max<uint64_t>(j.c.n["work.max_accesses"], o.ticks); j.c.n["work.max_bytes"] = std::max<uint64_t>(j.c.n["work.max_bytes"], o.vol);
    if (o.ticks > lt) return j.fail("work:time", o, std::to_string(o.ticks) + " accesses for a text of " + std::to_string(n) + " characters");
    if (o.vol > lv) return j.fail("work:memory", o, std::to_string(o.vol) + " bytes requested for a text of " + std::to_string(n) + " characters");
}
bool judge(Run const& r, RunLog const& log, Engine& e, Counters& c, std::vector<Violation>& v)
{
    if (!log.finished) {
        if (!log.fatal_kind.empty()) { Violation x; x.cls = "fatal:" + log.fatal_kind; x.msg = log.fatal_msg; x.step = log.fatal_step; for (auto& s : r.steps) if (s.id == log.fatal_step) x.msg += " in step " + step_text(s); v.push_back(x); }
        return v.empty();
    }
    J j(r, log, e, c, v); std::string const& p = r.prop; size_t n = log.out.size(); std::string msg;
    auto math = [&](size_t i) { Outcome const& o = log.out[i]; Step const* s = j.st(o); if (s && o.step >= 0 && !(o.fault & 3) && !check_enclosure(r, *s, o, msg, c)) j.fail("enclosure", o, msg); };
    for (size_t i = 0; i < n; ++i) {
        Outcome const& o = log.out[i]; Step const* s = j.st(o); if (!s || o.step < 0) continue;
        if (p == "C01") { judge_isolated(j, i, true); judge_ambient(j, i); }
        else if (p == "C02") { judge_isolated(j, i, true); judge_ambient(j, i); }
        else if (p == "C03") { math(i); if (s->op == OP_txt) judge_text_ctor(j, i); }
        else if (p == "C04" || p == "C05") { if (p == "C05") { judge_isolated(j, i, true); if (s->op == OP_rd || s->op == OP_rddec) judge_extract(j, i); } }
        else if (p == "C06") { if (is_rd(s->op)) judge_extract(j, i); }
        else if (p == "C07") { if (is_rd(s->op)) { judge_extract(j, i); judge_delivery(j, i); } }
        else if (p == "C08") { if (is_rd(s->op)) judge_extract(j, i); else if (s->op == OP_txt) judge_text_ctor(j, i); judge_work(j, i); }
        else if (p == "C09") { if (is_wr(s->op)) judge_insert(j, i); else if (s->op == OP_manip && o.exc && !(o.fault & 1)) j.fail("insert:manipulator", o, "manipulator " + s->e + " throws " + exc_names[o.exc]); }
        else if (p == "C12") judge_alloc(j, i);
        else if (p == "C13") {
            if (op_kinds[s->op] != K_RED) { judge_isolated(j, i, false); continue; }
            if (o.exc) {
                if (o.exc == EX_INJECT && (o.fault & 4)) c.add("reduction.iterator_thrown"); else if (o.exc == EX_BADALLOC && (o.fault & 1)) c.add("reduction.alloc_failed");
                else j.fail("reduction:exception", o, describe(*s, o) + " throws " + exc_names[o.exc] + " " + o.what);
            } else {
                if ((o.fault & 4) && s->cutk == 'x') j.fail("reduction:swallowed", o, describe(*s, o) + " swallows the iterator's exception");
                else if (!check_reduction(*s, o, msg, c)) j.fail("reduction:value", o, msg + (o.fault & 4 ? " (the iterator uses the library)" : ""));
            }
            if (r.warm && o.live_new > 0 && leaks_again(j, *s, o)) j.fail("reduction:leak", o, describe(*s, o) + " leaves " + std::to_string(o.live_new) + " bytes allocated" + (o.exc ? " when it throws" : ""));
            if (o.flags0 != o.flags1) j.fail("reduction:flags", o, "a reduction changes the flags");
        }
        else if (p == "C14") { if (!(o.fault & 3) && !check_decoration(r, *s, o, msg, c)) j.fail("decoration", o, msg); judge_bare_vs_dec(j, i); if (s->op == OP_txt) judge_text_ctor(j, i); }
        else if (p == "C15" || p == "C17") { if (!(o.fault & 3) && step_is_mixed(*s, o) == (p == "C17") && !check_tight(r, *s, o, msg, c)) j.fail("tight", o, msg); if (p == "C15") judge_text_tight(j, i); }
        else if (p == "C16") { if (!(o.fault & 3) && !check_relation(*s, o, msg, c)) j.fail("relation", o, msg); }
        if (v.size() > 20) break;
    }
    if (p == "C02") { if (log.shared_changed) { Violation x; x.cls = "shared"; x.msg = "an object only read by the threads changed"; v.push_back(x); } }
    if (p == "C02" || p == "C04" || p == "C05") judge_flags(j, p == "C05");
    if (p == "C10") judge_round_trip(j);
    if (p == "C11") judge_memory(j);
    return v.empty();
}
} // namespace sim
