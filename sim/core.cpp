#include "core.hpp"
namespace sim {
char const* const op_names[] = {
#define X(n,k) #n,
SIM_OPS(X)
#undef X
nullptr };
Kind const op_kinds[] = {
#define X(n,k) k,
SIM_OPS(X)
#undef X
};
char const* const exc_names[] = { "none", "bad_alloc", "ios_failure", "undefined_operation", "possibly_undefined_operation", "interval_part_of_nai", "invalid_operand", "injected", "std", "other" };
int op_parse(std::string const& s) {
    static std::map<std::string,int> m;
    if (m.empty()) for (int i = 0; i < OP_COUNT; ++i) m[op_names[i]] = i;
    auto it = m.find(s); return it == m.end() ? -1 : it->second;
}
std::string num_text(long double x) {
    if (std::isnan(x)) return "nan";
    if (std::isinf(x)) return x < 0 ? "-inf" : "inf";
    char b[64]; snprintf(b, sizeof b, "%La", x); 
    for (char* p = b; *p; ++p) if (*p == ',') *p = '.';
    return b;
}
long double num_parse(std::string const& s) {
    // own parser: independent of the C locale and of the rounding mode (all values written by num_text are exact)
    char const* p = s.c_str(); bool neg = false; long double r;
    if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
    if (!strncmp(p, "nan", 3)) return std::numeric_limits<long double>::quiet_NaN();
    if (!strncmp(p, "inf", 3)) r = std::numeric_limits<long double>::infinity();
    else if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) {
        p += 2; uint64_t m = 0; long e = 0; bool dot = false;
        for (;; ++p) {
            int d; if (*p == '.') { dot = true; continue; }
            if (*p >= '0' && *p <= '9') d = *p - '0'; else if (*p >= 'a' && *p <= 'f') d = *p - 'a' + 10; else break;
            m = m * 16 + d; if (dot) e -= 4;
        }
        if (*p == 'p') e += atol(p + 1);
        r = std::ldexp((long double)m, int(e));
    } else r = (long double)atol(p);
    return neg ? -r : r;
}
std::string val_text(Val const& v) {
    std::string r(1, fmt_char(v.fmt));
    r += ":" + num_text(v.lo) + ":" + num_text(v.hi);
    if (v.isdec) { bool k = v.dec == 0 || v.dec == 4 || v.dec == 8 || v.dec == 12 || v.dec == 16; r += ":"; r += k ? std::string(dec_name(v.dec)) : std::to_string(int(v.dec)); }
    return r;
}
static std::vector<std::string> split(std::string const& s, char c) {
    std::vector<std::string> r; size_t b = 0;
    for (;;) { size_t e = s.find(c, b); r.push_back(s.substr(b, e == std::string::npos ? e : e - b)); if (e == std::string::npos) break; b = e + 1; }
    return r;
}
Val val_parse(std::string const& s) {
    Val v; auto p = split(s, ':'); if (p.size() < 3) { fprintf(stderr, "bad value %s\n", s.c_str()); exit(3); }
    v.fmt = fmt_of(p[0][0]); v.lo = num_parse(p[1]); v.hi = num_parse(p[2]);
    if (p.size() > 3) { v.isdec = true; v.dec = dec_of(p[3]); }
    return v;
}
long double fmt_round(int f, long double x) { if (f == FF) return (float)x; if (f == FD) return (double)x; return x; }
long double fmt_next(int f, long double x, bool up) {
    if (f == FF) return std::nextafter((float)x, up ? INFINITY : -INFINITY);
    if (f == FD) return std::nextafter((double)x, up ? (double)INFINITY : -(double)INFINITY);
    return std::nextafter(x, up ? (long double)INFINITY : -(long double)INFINITY);
}
std::string arg_text(Arg const& a) {
    if (a.kind == 'v') return val_text(a.v);
    std::string r(1, a.kind); r += fmt_char(a.fmt); r += a.isdec ? 'D' : 'B'; r += std::to_string(a.idx); return r;
}
Arg arg_parse(std::string const& s) {
    Arg a;
    if (s.size() > 1 && s[1] == ':') { a.kind = 'v'; a.v = val_parse(s); a.fmt = a.v.fmt; a.isdec = a.v.isdec; return a; }
    a.kind = s[0]; a.fmt = fmt_of(s[1]); a.isdec = s[2] == 'D'; a.idx = atoi(s.c_str() + 3); return a;
}
std::string esc(std::string const& s) {
    std::string r; char b[8];
    for (unsigned char c : s) { if (c > 32 && c < 127 && c != '%' && c != '#') r += char(c); else { snprintf(b, sizeof b, "%%%02x", c); r += b; } }
    return r;
}
std::string unesc(std::string const& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '%' && i + 2 < s.size()) { r += char(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; } else r += s[i]; }
    return r;
}
std::string step_text(Step const& s) {
    std::string r = "step " + std::to_string(s.id) + " t" + std::to_string(s.thr) + " " + op_names[s.op];
    r += std::string(" f=") + fmt_char(s.fmt) + (s.isdec ? "D" : "B");
    r += " dst=" + std::to_string(s.dst);
    for (int i = 0; i < 3; ++i) if (s.a[i].kind) r += std::string(" ") + char('a' + i) + "=" + arg_text(s.a[i]);
    if (s.n) r += " n=" + std::to_string(s.n);
    if (s.m) r += " m=" + std::to_string(s.m);
    if (!(s.x == 0 && !std::signbit(s.x))) r += " x=" + num_text(s.x);
    if (!(s.y == 0 && !std::signbit(s.y))) r += " y=" + num_text(s.y);
    if (!s.s.empty()) r += " s=" + esc(s.s);
    if (!s.e.empty()) r += " e=" + esc(s.e);
    if (s.alloc) r += " alloc=" + std::to_string(s.alloc);
    if (s.cut) { r += " cut=" + std::to_string(s.cut); r += ","; r += s.cutk ? s.cutk : 'e'; }
    if (s.chunk) r += " chunk=" + std::to_string(s.chunk);
    if (s.mask) r += " mask=" + std::to_string(s.mask);
    if (s.rep != 1) r += " rep=" + std::to_string(s.rep);
    return r;
}
bool step_parse(std::string const& line, Step& s) {
    auto p = split(line, ' '); if (p.size() < 4 || p[0] != "step") return false;
    s = Step(); s.id = atoi(p[1].c_str()); s.thr = atoi(p[2].c_str() + 1); s.op = op_parse(p[3]); if (s.op < 0) return false;
    for (size_t i = 4; i < p.size(); ++i) {
        if (p[i].empty()) continue;
        if (p[i][0] == '#') break;
        size_t q = p[i].find('='); if (q == std::string::npos) return false;
        std::string k = p[i].substr(0, q), v = p[i].substr(q + 1);
        if (k == "f") { s.fmt = fmt_of(v[0]); s.isdec = v.size() > 1 && v[1] == 'D'; }
        else if (k == "dst") s.dst = atoi(v.c_str());
        else if (k == "a" || k == "b" || k == "c") s.a[k[0] - 'a'] = arg_parse(v);
        else if (k == "n") s.n = atol(v.c_str());
        else if (k == "m") s.m = atol(v.c_str());
        else if (k == "x") s.x = num_parse(v);
        else if (k == "y") s.y = num_parse(v);
        else if (k == "s") s.s = unesc(v);
        else if (k == "e") s.e = unesc(v);
        else if (k == "alloc") s.alloc = atol(v.c_str());
        else if (k == "cut") { s.cut = atol(v.c_str()); size_t c = v.find(','); s.cutk = c == std::string::npos ? 'e' : v[c + 1]; }
        else if (k == "chunk") s.chunk = atol(v.c_str());
        else if (k == "mask") s.mask = atoi(v.c_str());
        else if (k == "rep") s.rep = atoi(v.c_str());
        else return false;
    }
    return true;
}
std::string run_text(Run const& r) {
    std::string t = "run prop=" + r.prop + " seed=" + std::to_string(r.seed) + " nthr=" + std::to_string(r.nthr) + " profile=" + std::to_string(r.profile) + " sseed=" + std::to_string(r.sched_seed) + " explicit=" + std::to_string(r.explicit_sched) + " warm=" + std::to_string(r.warm) + "\n";
    for (int f = 0; f < 3; ++f) for (int d = 0; d < 2; ++d) for (size_t i = 0; i < r.shared[f][d].size(); ++i) t += "shared " + std::to_string(i) + " " + val_text(r.shared[f][d][i]) + "\n";
    for (int k = 0; k < r.nthr; ++k) for (int f = 0; f < 3; ++f) for (int d = 0; d < 2; ++d) for (size_t i = 0; i < r.init[k][f][d].size(); ++i)
        t += "init " + std::to_string(k) + " " + std::to_string(i) + " " + val_text(r.init[k][f][d][i]) + "\n";
    for (auto& s : r.steps) t += step_text(s) + "\n";
    for (auto& s : r.sw) t += "switch " + std::to_string(s.thr) + " " + std::to_string(s.step) + " " + std::to_string(s.at) + " " + std::to_string(s.to) + "\n";
    return t;
}
bool run_parse(std::string const& t, Run& r) {
    r = Run();
    for (auto& line : split(t, '\n')) {
        if (line.empty() || line[0] == '#') continue;
        auto p = split(line, ' ');
        if (p[0] == "run") {
            for (size_t i = 1; i < p.size(); ++i) {
                size_t q = p[i].find('='); if (q == std::string::npos) continue;
                std::string k = p[i].substr(0, q), v = p[i].substr(q + 1);
                if (k == "prop") r.prop = v; else if (k == "seed") r.seed = strtoull(v.c_str(), nullptr, 10); else if (k == "nthr") r.nthr = atoi(v.c_str());
                else if (k == "profile") r.profile = atoi(v.c_str()); else if (k == "sseed") r.sched_seed = strtoull(v.c_str(), nullptr, 10); else if (k == "explicit") r.explicit_sched = atoi(v.c_str()); else if (k == "warm") r.warm = atoi(v.c_str());
            }
        } else if (p[0] == "shared" && p.size() > 2) { Val v = val_parse(p[2]); auto& w = r.shared[v.fmt][v.isdec]; size_t i = atoi(p[1].c_str()); if (w.size() <= i) w.resize(i + 1, v); w[i] = v; }
        else if (p[0] == "init" && p.size() > 3) { Val v = val_parse(p[3]); int k = atoi(p[1].c_str()); if (k < 0 || k >= MAXTHR) return false; auto& w = r.init[k][v.fmt][v.isdec]; size_t i = atoi(p[2].c_str()); if (w.size() <= i) w.resize(i + 1, v); w[i] = v; }
        else if (p[0] == "step") { Step s; if (!step_parse(line, s)) return false; r.steps.push_back(s); }
        else if (p[0] == "switch" && p.size() > 4) { Switch s; s.thr = atoi(p[1].c_str()); s.step = atoi(p[2].c_str()); s.at = strtoull(p[3].c_str(), nullptr, 10); s.to = atoi(p[4].c_str()); r.sw.push_back(s); }
        else if (p[0] == "expect" || p[0] == "violation") {}
        else return false;
    }
    return r.nthr >= 1 && r.nthr <= MAXTHR;
}
} // namespace sim
