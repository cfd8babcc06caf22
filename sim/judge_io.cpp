// Verdicts on text input and output.
#include "judge.hpp"
#include <algorithm>
#include <sstream>
namespace sim {
static std::vector<long> longs(std::string const& t) { std::vector<long> v; std::istringstream is(t); std::string x; while (std::getline(is, x, ',')) v.push_back(atol(x.c_str())); return v; }
RdInfo rd_info(Outcome const& o)
{
    RdInfo r; std::vector<std::string> f; { std::istringstream is(o.fmt0); std::string x; while (std::getline(is, x, ',')) f.push_back(x); }
    if (f.size() < 5) return r;
    r.mask = atoi(f[0].c_str()); r.flags = atol(f[1].c_str()); r.cut = atol(f[2].c_str()); r.kind = f[3] == "-" ? 0 : f[3][0]; r.fired = f[4] == "1";
    r.avail = o.key; r.limited = r.kind && r.cut >= 0 && !((r.kind == 't' || r.kind == 'u') && r.fired) && size_t(r.cut) <= o.key.size();
    if (r.limited) r.avail = o.key.substr(0, r.cut);
    return r;
}
static bool skipws_on(RdInfo const& i) { return (i.flags & long(std::ios_base::skipws)) != 0; }
static bool plain_numbers(J&, size_t, RdInfo const&) { return true; }
// ---- extraction against the literal model
void judge_extract(J& j, size_t i)
{
    Outcome const& o = j.log.out[i]; Step const* s = j.st(o); if (!s || o.step < 0 || !j.open_of[i]) return;
    RdInfo r = rd_info(o); bool ok = !o.exc && !(o.st1 & (ST_FAIL | ST_BAD)); bool same = same_val(o.dst0, o.dst1);
    j.c.add("extract.checked");
    // exceptions: only what the caller enabled
    if (o.exc) {
        bool allowed = false;
        if (o.exc == EX_IOS) allowed = (o.st1 & r.mask) != 0;
        else if (o.exc == EX_INJECT) allowed = (r.kind == 'x' || r.kind == 'u') && (o.fault & 2) && (r.mask & ST_BAD);
        else if (o.exc == EX_BADALLOC) allowed = (o.fault & 1) != 0;
        else if (o.exc == EX_IPNAI) allowed = (o.cwd0 & 4) && s->op == OP_rd && !s->isdec;
        if (!allowed) return j.fail("extract:exception", o, std::string("extraction from \"") + esc(o.key) + "\" throws " + exc_names[o.exc] + " " + o.what + " which nobody enabled");
    }
    if (s->op == OP_rddec) {
        if (!ok && !same && o.dst1.dec != ILL) j.fail("extract:target", o, "failed extraction of a decoration from \"" + esc(o.key) + "\" leaves " + dec_name(o.dst1.dec));
        if (ok) {
            std::string t = r.avail; size_t p = 0; if (skipws_on(r)) while (p < t.size() && isspace((unsigned char)t[p])) ++p; t = t.substr(p, 3); for (auto& c : t) c = tolower(c);
            bool dig = !t.empty() && isdigit((unsigned char)t[0]);
            if (o.st0) return j.fail("extract:state", o, "extraction from a stream in error state succeeds");
            if (!dig && t != dec_name(o.dst1.dec)) j.fail("extract:wrong", o, "decoration text \"" + esc(r.avail) + "\" read as " + dec_name(o.dst1.dec));
            if (dig && plain_numbers(j, i, r)) { size_t q = p; long v = 0; while (q < r.avail.size() && isdigit((unsigned char)r.avail[q])) { if (v < 1000000) v = v * 10 + (r.avail[q] - '0'); ++q; } if (v != o.dst1.dec) j.fail("extract:wrong", o, "decoration text \"" + esc(r.avail) + "\" read as " + dec_name(o.dst1.dec)); }
        }
        return;
    }
    if (!ok) {
        if (!same) return j.fail("extract:target", o, "failed extraction from \"" + esc(r.avail) + "\" changes the target from " + val_text(o.dst0) + " to " + val_text(o.dst1) + (r.limited ? " (device stops there)" : ""));
    }
    if (o.st0) { if (ok) j.fail("extract:state", o, "extraction from a stream in error state succeeds"); return; }
    Lit m = model_literal(r.avail, skipws_on(r), plain_numbers(j, i, r));
    if (m.hugeorder && m.ok == 0 && j.r.prop != "C08") { m.ok = 2; m.used_known = false; }
    if (m.ok == 2) j.c.add("extract.undecided");
    if (ok && (o.fault & 2) && (r.kind == 'x' || r.kind == 'i' || r.kind == 'u')) return j.fail("extract:device", o, "extraction succeeds although the device failed");
    if (ok && m.ok == 0) return j.fail(m.hugeorder ? "huge-order" : "extract:accepted", o, "malformed text \"" + esc(r.avail) + "\" accepted as " + val_text(o.dst1));
    if (ok && m.ok == 1) {
        std::string msg; if (!literal_value(m, o.dst1, msg)) return j.fail("extract:wrong", o, "\"" + esc(r.avail.substr(0, m.used)) + "\": " + msg);
        if (o.pos1 - o.pos0 != long(m.used)) return j.fail("extract:framing", o, "literal \"" + esc(r.avail.substr(0, m.used)) + "\" of \"" + esc(r.avail) + "\" consumed " + std::to_string(o.pos1 - o.pos0) + " characters");
        j.c.add("extract.values");
    }
    if (ok && m.ok == 2 && !o.dst1.valid()) return j.fail("extract:wrong", o, "inconsistent interval " + val_text(o.dst1));
    if (!ok && m.ok == 1 && !m.hugeorder && !(o.fault & 3) && !o.exc) return j.fail("extract:rejected", o, "well-formed \"" + esc(r.avail.substr(0, m.used)) + "\" is rejected");
    if (!ok) j.c.add("extract.failures");
}
void judge_text_ctor(J& j, size_t i)
{
    Outcome const& o = j.log.out[i]; Step const* s = j.st(o); if (!s || s->op != OP_txt) return;
    Lit m = model_literal(s->s, true); j.c.add("extract.checked"); if (m.hugeorder && m.ok == 0 && j.r.prop != "C08") m.ok = 2; if (m.ok == 2) { j.c.add("extract.undecided"); return; }
    bool tail = false; if (m.ok == 1) for (size_t k = m.used; k < s->s.size(); ++k) if (!isspace((unsigned char)s->s[k])) tail = true;
    bool good = m.ok == 1 && !tail; std::string msg;
    if (o.exc) {
        bool allowed = (o.exc == EX_UNDEF && (!good || m.hugeorder) && (o.cwd0 & 1)) || (o.exc == EX_IPNAI && m.ok == 1 && m.nai && !s->isdec && (o.cwd0 & 4)) || (o.exc == EX_BADALLOC && (o.fault & 1));
        if (!allowed) return j.fail("text:exception", o, "constructor from \"" + esc(s->s) + "\" throws " + exc_names[o.exc] + " " + o.what);
        if (!same_val(o.dst0, o.dst1)) return j.fail("text:target", o, "target changed although the constructor threw");
        return;
    }
    if (o.fault & 1) { if (!(o.dst1.isdec ? o.dst1.nai() : o.dst1.empty()) && good && !literal_value(m, o.dst1, msg)) return j.fail("text:wrong", o, "\"" + esc(s->s) + "\": " + msg); return; }
    if (good && m.hugeorder && (o.dst1.isdec ? o.dst1.nai() : o.dst1.empty())) { j.c.add("extract.huge_order"); return; }
    if (good) { if (!literal_value(m, o.dst1, msg)) return j.fail("text:wrong", o, "\"" + esc(s->s) + "\": " + msg); j.c.add("extract.values"); }
    else if (!(o.dst1.isdec ? o.dst1.nai() : o.dst1.empty())) return j.fail(m.hugeorder ? "huge-order" : "text:accepted", o, "malformed text \"" + esc(s->s) + "\" accepted as " + val_text(o.dst1));
    else j.c.add("extract.failures");
}
void judge_text_tight(J& j, size_t i)
{
    Outcome const& o = j.log.out[i]; Step const* s = j.st(o); if (!s || s->op != OP_txt || o.exc || (o.fault & 1)) return;
    Lit m = model_literal(s->s, true); if (m.ok != 1 || m.hugeorder) return; std::string msg; for (size_t k = m.used; k < s->s.size(); ++k) if (!isspace((unsigned char)s->s[k])) return;
    j.c.add("tight.literals"); if (!literal_value(m, o.dst1, msg) || !literal_tight(m, o.dst1, msg)) j.fail("tight", o, "\"" + esc(s->s) + "\": " + msg);
}
// ---- the way the characters arrive must not matter
void judge_delivery(J& j, size_t i)
{
    Outcome const& o = j.log.out[i]; Step const* s = j.st(o); if (!s || o.step < 0 || !j.open_of[i] || o.fault || o.st0) return;
    RdInfo r = rd_info(o); if (r.limited) return;
    Step op; op.op = OP_open; op.id = 0; op.s = o.key; op.chunk = 64; op.e = skipws_on(r) ? "" : "noskipws";
    Outcome const& p = j.e.isolated(*s, o, o.cwd0, { op }, j.r.warm); if (p.exc >= 98 || p.step < 0) return;
    j.c.add("delivery.compared");
    bool okp = !p.exc && !(p.st1 & (ST_FAIL | ST_BAD)), oko = !o.exc && !(o.st1 & (ST_FAIL | ST_BAD));
    if (o.exc == EX_IOS) {
        if (!(p.st1 & r.mask)) return j.fail("delivery:exception", o, "extraction from \"" + esc(o.key) + "\" throws, but without exceptions the stream state is " + std::to_string(p.st1) + " (mask " + std::to_string(r.mask) + ")");
        if (s->op == OP_rd && !same_val(o.dst0, o.dst1)) return j.fail("delivery:target", o, "target changed although the extraction threw");
        return;
    }
    if (o.exc != p.exc) return j.fail("delivery:exception", o, std::string("outcome ") + exc_names[o.exc] + " instead of " + exc_names[p.exc] + " for \"" + esc(o.key) + "\"");
    if (!o.exc && (p.st1 & r.mask)) return j.fail("delivery:exception", o, "extraction from \"" + esc(o.key) + "\" must report state " + std::to_string(p.st1) + " by an exception (mask " + std::to_string(r.mask) + ")");
    if (oko != okp || (oko && o.payload != p.payload)) return j.fail("delivery:value", o, "\"" + esc(o.key) + "\" delivered in pieces gives " + (oko ? o.payload : "failure") + ", in one piece " + (okp ? p.payload : "failure"));
    if (o.st1 != p.st1) return j.fail("delivery:state", o, "\"" + esc(o.key) + "\" delivered in pieces ends in state " + std::to_string(o.st1) + ", in one piece " + std::to_string(p.st1));
    if (o.pos1 - o.pos0 != p.pos1 - p.pos0) return j.fail("delivery:framing", o, "\"" + esc(o.key) + "\" delivered in pieces consumes " + std::to_string(o.pos1 - o.pos0) + ", in one piece " + std::to_string(p.pos1 - p.pos0));
}
// ---- insertion under device faults
void judge_insert(J& j, size_t i)
{
    Outcome const& o = j.log.out[i]; Step const* s = j.st(o); if (!s || o.step < 0) return;
    int mask = atoi(o.key.c_str());
    if (o.exc) {
        bool allowed = false;
        if (o.exc == EX_IOS) allowed = (o.st1 & mask) != 0;
        else if (o.exc == EX_INJECT) allowed = (o.fault & 2) && (mask & ST_BAD);
        else if (o.exc == EX_BADALLOC) allowed = (o.fault & 1) != 0;
        else if (o.exc == EX_INVOP) allowed = (o.cwd0 & 8) && o.nops && !o.ops[0].valid();
        if (!allowed) return j.fail("insert:exception", o, describe(*s, o) + " throws " + exc_names[o.exc] + " " + o.what + " which nobody enabled (state " + std::to_string(o.st1) + ", mask " + std::to_string(mask) + ")");
    }
    if (o.ops_changed) return j.fail("insert:operand", o, "the operand written changed");
    // format words survive (the field width is used up like with every inserter)
    std::vector<long> a = longs(o.fmt0), b = longs(o.fmt1); if (a.size() > 1) a[1] = 0; if (b.size() > 1) b[1] = 0;
    if (a != b) return j.fail("insert:settings", o, "stream settings before " + o.fmt0 + " after " + o.fmt1);
    if (o.st0 & (ST_BAD | ST_FAIL)) { if (!o.text.empty()) j.fail("insert:state", o, "text written to a stream in error state"); if (!o.exc && !(o.st1 & (ST_BAD | ST_FAIL))) j.fail("insert:state", o, "error state lost"); return; }
    if (o.nops && !o.ops[0].valid()) return;
    Step w; w.op = OP_wopen; w.id = 0; w.e = o.fmt0; Outcome const& p = j.e.isolated(*s, o, o.cwd0, { w }, j.r.warm); if (p.exc >= 98 || p.step < 0 || p.exc) return;
    j.c.add("insert.compared");
    if (o.text.size() > p.text.size() || p.text.compare(0, o.text.size(), o.text) != 0) return j.fail("insert:text", o, describe(*s, o) + " delivers \"" + esc(o.text) + "\", a working stream receives \"" + esc(p.text) + "\"");
    bool whole = o.text == p.text, reported = o.exc || (o.st1 & (ST_BAD | ST_FAIL));
    if (!whole && !reported) return j.fail("insert:unreported", o, describe(*s, o) + " delivers only \"" + esc(o.text) + "\" of \"" + esc(p.text) + "\" and reports no error");
    if (!(o.fault & 3) && o.st0 == 0) {
        if (!whole || o.exc || o.st1 != p.st1) return j.fail("insert:text", o, describe(*s, o) + " on a working stream delivers \"" + esc(o.text) + "\" state " + std::to_string(o.st1) + ", expected \"" + esc(p.text) + "\"");
        if (o.fmt1 != p.fmt1) return j.fail("insert:settings", o, "stream settings after insertion " + o.fmt1 + ", on a fresh stream " + p.fmt1);
    }
    if (o.fault & 2) j.c.add("insert.faulted");
    if (!(o.fault & 3) && i > 0) j.c.add("insert.clean");
}
// ---- write, store, read back
struct Settings { int repr = 0; std::string num; long prec = 0; bool punct = true, sbounds = false, snob = false; };
void judge_round_trip(J& j)
{
    std::map<int, Settings> set; std::map<int, size_t> lastwr, lastopen; std::map<int, bool> have;
    for (size_t i = 0; i < j.log.out.size(); ++i) {
        Outcome const& o = j.log.out[i]; Step const* s = j.st(o); if (!s || o.step < 0) continue; Settings& t = set[o.thr];
        if (s->op == OP_wopen) { t = Settings(); have[o.thr] = false; }
        else if (s->op == OP_manip) {
            std::string k = s->e; size_t q = k.find(':'); long n = 0; if (q != std::string::npos && k.compare(0, 3, "std")) { n = atol(k.c_str() + q + 1); k = k.substr(0, q); }
            if (k == "infsup") t.repr = 0; else if (k == "unc") t.repr = 1; else if (k == "uncup") t.repr = 2; else if (k == "uncdn") t.repr = 3;
            else if (k == "hex" || k == "dec" || k == "sci" || k == "dsci") t.num = k; else if (k == "p") t.prec = n; else if (k == "punc") t.punct = true; else if (k == "nopunc") t.punct = false;
            else if (k == "sbounds") t.sbounds = true, t.snob = false; else if (k == "stext") t.sbounds = t.snob = false; else if (k == "snob") t.snob = true, t.sbounds = false;
        } else if (s->op == OP_wr) {
            lastwr[o.thr] = i; have[o.thr] = true; j.c.add("roundtrip.written");
            if (o.exc) { j.fail("roundtrip:exception", o, describe(*s, o) + " throws " + exc_names[o.exc] + " " + o.what); have[o.thr] = false; }
            else if (o.st0 == 0 && o.st1) { j.fail("roundtrip:write", o, describe(*s, o) + " fails on a working stream"); have[o.thr] = false; }
        } else if (s->op == OP_open) { lastopen[o.thr] = i; if (s->e.find("last") == std::string::npos) have[o.thr] = false; }
        else if (s->op == OP_rd) {
            if (!have[o.thr] || !j.open_of[i]) continue; Outcome const& w = j.log.out[lastwr[o.thr]]; Val const& x = w.ops[0]; RdInfo r = rd_info(o); bool first = o.pos0 == 0; if (!first || o.st0) continue;
            if (o.exc && !(o.exc == EX_IPNAI && (o.cwd0 & 4))) { if (!(o.fault & 2)) j.fail("roundtrip:exception", o, std::string("reading back throws ") + exc_names[o.exc]); continue; }
            bool ok = !(o.st1 & (ST_FAIL | ST_BAD)); std::string const& text = w.text;
            if (!x.valid() || o.key != text) continue;
            if (x.isdec != s->isdec) continue;
            bool readable = t.punct && !(x.empty() && !x.nai() && t.sbounds);
            if (r.limited) {
                j.c.add("roundtrip.cut");
                if (!ok && !same_val(o.dst0, o.dst1)) { j.fail("roundtrip:target", o, "failed reading of \"" + esc(r.avail) + "\" changes the target"); continue; }
                if (ok && r.avail.find('[') != std::string::npos && r.avail.find(']') == std::string::npos) j.fail("roundtrip:cut", o, "\"" + esc(text) + "\" cut to \"" + esc(r.avail) + "\" is accepted as " + val_text(o.dst1));
                continue;
            }
            if (!readable) continue;
            j.c.add("roundtrip.read");
            if (!ok) { j.fail("roundtrip:rejected", o, val_text(x) + " written as \"" + esc(text) + "\" is not read back"); continue; }
            Val const& y = o.dst1;
            if (o.pos1 - o.pos0 != long(text.size())) { j.fail("roundtrip:framing", o, val_text(x) + " written as \"" + esc(text) + "\": only " + std::to_string(o.pos1 - o.pos0) + " characters read back"); continue; }
            if (x.nai() ? !y.nai() && y.isdec : x.empty() ? !y.empty() : y.empty() || y.lo > x.lo || y.hi < x.hi) { j.fail("roundtrip:value", o, val_text(x) + " written as \"" + esc(text) + "\" reads back as " + val_text(y)); continue; }
            if (x.isdec && !x.nai()) { int d = x.dec; if (d == COM && (std::isinf(y.lo) || std::isinf(y.hi))) d = DAC; if (y.dec != d) { j.fail("roundtrip:decoration", o, val_text(x) + " written as \"" + esc(text) + "\" reads back as " + val_text(y)); continue; } }
            if (t.repr == 0 && t.num == "hex" && t.prec == 0 && !x.empty() && y.fmt >= x.fmt) { j.c.add("roundtrip.exact"); if (y.lo != x.lo || y.hi != x.hi) j.fail("roundtrip:exact", o, val_text(x) + " written as \"" + esc(text) + "\" reads back as " + val_text(y)); }
        }
    }
}
} // namespace sim
