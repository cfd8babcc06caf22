// Model of interval literals, written from the documented grammar (P1788 literals as documented in doc/ and the regular language of the reader).
#include "judge.hpp"
#include <algorithm>
namespace sim {
static bool ws(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static bool dg(char c) { return c >= '0' && c <= '9'; }
static bool xd(char c) { return dg(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static char lc(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
static std::string lower(std::string s) { for (auto& c : s) c = lc(c); return s; }
static long sat(std::string const& s)      // signed decimal integer, saturating
{
    size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; ++i; }
    long v = 0; for (; i < s.size(); ++i) { if (v < 100000000000000L) v = v * 10 + (s[i] - '0'); }
    return neg ? -v : v;
}
// value = sign * digs(base) * scale^e, scale 10 or 2
static XNum make(bool neg, std::string digs, int base, long e)
{
    XNum x; size_t z = 0; while (z < digs.size() && digs[z] == '0') ++z; digs.erase(0, z);
    if (digs.empty()) { x.sgn = 0; x.q = 0; return x; }
    x.sgn = neg ? -1 : 1; x.base = base; x.digs = digs;
    long lim;
    if (base == 10) { x.pos = long(digs.size()) + e; lim = 6000; } else { x.pos = 4 * long(digs.size()) + e; lim = 20000; }
    if (x.pos > lim) { x.cls = XNum::HUGE_; return x; }
    if (x.pos < -lim) { x.cls = XNum::TINY; return x; }
    mpz_class n(digs, base == 10 ? 10 : 16), p;
    if (base == 10) mpz_ui_pow_ui(p.get_mpz_t(), 10, std::labs(e)); else mpz_ui_pow_ui(p.get_mpz_t(), 2, std::labs(e));
    x.q = e >= 0 ? mpq_class(n * p, 1) : mpq_class(n, p); x.q.canonicalize(); if (neg) x.q = -x.q;
    return x;
}
// order of the magnitudes of two numbers outside every format
static int mag_cmp(XNum const& a, XNum const& b)
{
    if (std::labs(a.pos) > 10000000000000L || std::labs(b.pos) > 10000000000000L) return 9;
    if (a.base == b.base && a.base == 10) {
        if (a.pos != b.pos) return a.pos < b.pos ? -1 : 1;
        std::string x = a.digs, y = b.digs; size_t n = std::max(x.size(), y.size()); x.resize(n, '0'); y.resize(n, '0'); int c = x.compare(y); return c < 0 ? -1 : c > 0;
    }
    if (a.base == b.base) {
        mpz_class x(a.digs, 16), y(b.digs, 16); long ex = a.pos - 4 * long(a.digs.size()), ey = b.pos - 4 * long(b.digs.size());
        long tx = ex + long(mpz_sizeinbase(x.get_mpz_t(), 2)), ty = ey + long(mpz_sizeinbase(y.get_mpz_t(), 2)); if (tx != ty) return tx < ty ? -1 : 1;
        if (ex > ey) x <<= (unsigned long)(ex - ey); else y <<= (unsigned long)(ey - ex);
        int c = cmp(x, y); return c < 0 ? -1 : c > 0;
    }
    long double lx = a.base == 10 ? (long double)a.pos : a.pos * 0.30102999566398119521L, ly = b.base == 10 ? (long double)b.pos : b.pos * 0.30102999566398119521L;
    if (std::fabs(lx - ly) < 5) return 9;
    return lx < ly ? -1 : 1;
}
int xcmp(XNum const& a, XNum const& b)
{
    if (a.sgn != b.sgn) return a.sgn < b.sgn ? -1 : 1;
    if (a.cls == XNum::EXACT && b.cls == XNum::EXACT) { int c = cmp(a.q, b.q); return c < 0 ? -1 : c > 0; }
    if (a.sgn == 0) return 0;
    if (a.cls == b.cls) { int r = mag_cmp(a, b); return r == 9 ? 9 : a.sgn > 0 ? r : -r; }
    auto rank = [](XNum const& x) { return x.cls == XNum::TINY ? 0 : x.cls == XNum::EXACT ? 1 : 2; };
    int r = rank(a) < rank(b) ? -1 : 1; return a.sgn > 0 ? r : -r;
}
static int cmp_ld(long double l, mpq_class const& q)    // l finite
{
    int e; long double m = std::frexp(l, &e); mpz_class n; { long double t = std::ldexp(m, 64); bool neg = t < 0; if (neg) t = -t; unsigned long u = (unsigned long)t; n = u; if (neg) n = -n; } e -= 64;
    mpq_class v(n, 1); if (e >= 0) mpq_mul_2exp(v.get_mpq_t(), v.get_mpq_t(), e); else mpq_div_2exp(v.get_mpq_t(), v.get_mpq_t(), -e);
    int c = cmp(v, q); return c < 0 ? -1 : c > 0;
}
bool below(long double l, XNum const& x, int)
{
    if (std::isnan(l)) return false; if (l == -INFINITY) return true;
    switch (x.cls) {
    case XNum::HUGE_: return x.sgn > 0 ? !std::isinf(l) : false;
    case XNum::TINY: return x.sgn > 0 ? l <= 0 : l < 0;
    default: return !std::isinf(l) && cmp_ld(l, x.q) <= 0;
    }
}
bool above(long double u, XNum const& x, int)
{
    if (std::isnan(u)) return false; if (u == INFINITY) return true;
    switch (x.cls) {
    case XNum::HUGE_: return x.sgn < 0 ? !std::isinf(u) : false;
    case XNum::TINY: return x.sgn < 0 ? u >= 0 : u > 0;
    default: return !std::isinf(u) && cmp_ld(u, x.q) >= 0;
    }
}
// one complete number; false if malformed
static bool mant_ok(std::string const& m, bool hex, std::string& digs, long& frac)
{
    digs.clear(); frac = 0; bool dot = false; size_t before = 0, after = 0;
    for (char c : m) { if (c == '.') { if (dot) return false; dot = true; } else if (hex ? xd(c) : dg(c)) { digs += lc(c); if (dot) ++after; else ++before; } else return false; }
    if (before + after == 0) return false; frac = long(after); return true;
}
static bool number(std::string const& s, XNum& x)
{
    size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; ++i; }
    std::string digs; long frac;
    auto expo = [&](std::string const& e) { size_t k = !e.empty() && (e[0] == '+' || e[0] == '-') ? 1 : 0; if (k == e.size()) return false; for (; k < e.size(); ++k) if (!dg(e[k])) return false; return true; };
    if (i + 1 < s.size() && s[i] == '0' && lc(s[i + 1]) == 'x') {
        size_t p = s.find_first_of("pP", i + 2); if (p == std::string::npos) return false;
        std::string e = s.substr(p + 1); if (!expo(e) || !mant_ok(s.substr(i + 2, p - i - 2), true, digs, frac)) return false;
        x = make(neg, digs, 16, sat(e) - 4 * frac); x.bigexp = std::labs(sat(e)) >= 100000; return true;
    }
    size_t sl = s.find('/', i);
    if (sl != std::string::npos) {
        size_t a = sl, b = sl + 1; while (a > i && ws(s[a - 1])) --a; while (b < s.size() && ws(s[b])) ++b;
        std::string n = s.substr(i, a - i), d = s.substr(b); if (n.empty() || d.empty()) return false;
        for (char c : n) if (!dg(c)) return false; for (char c : d) if (!dg(c)) return false;
        if (d.find_first_not_of('0') == std::string::npos) return false;
        if (n.find_first_not_of('0') == std::string::npos) { x = XNum(); return true; }
        mpq_class q(mpz_class(n, 10), mpz_class(d, 10)); q.canonicalize(); x = XNum(); x.sgn = neg ? -1 : 1; x.q = neg ? mpq_class(-q) : q; return true;
    }
    size_t e = s.find_first_of("eE", i); std::string ex = "0", m = s.substr(i, e == std::string::npos ? e : e - i);
    if (e != std::string::npos) { ex = s.substr(e + 1); if (!expo(ex)) return false; }
    if (!mant_ok(m, false, digs, frac)) return false;
    x = make(neg, digs, 10, sat(ex) - frac); x.bigexp = std::labs(sat(ex)) >= 100000; return true;
}
static std::string trim(std::string const& s) { size_t a = 0, b = s.size(); while (a < b && ws(s[a])) ++a; while (b > a && ws(s[b - 1])) --b; return s.substr(a, b - a); }
// suffix behind the interval; natural: best decoration
static void suffix(Lit& m, std::string const& t, size_t p, bool skipws, bool numdec, int natural)
{
    m.ok = 1; m.used = p;
    if (p >= t.size() || t[p] != '_') return;
    ++p; m.ok = 0;
    if (m.nai) return;
    if (p < t.size() && ws(t[p]) && skipws) { m.ok = 2; m.used_known = false; return; }
    if (p >= t.size()) return;
    int d = -1;
    if (dg(t[p])) {
        if (!numdec) { m.ok = 2; m.used_known = false; return; }
        size_t q = p; long v = 0; while (q < t.size() && dg(t[q])) { if (v < 1000000) v = v * 10 + (t[q] - '0'); ++q; }
        if (v == 0 || v == 4 || v == 8 || v == 12 || v == 16) d = v; else return; p = q;
    } else {
        if (p + 3 > t.size()) return; std::string w = lower(t.substr(p, 3)); p += 3;
        if (w == "ill") d = 0; else if (w == "trv") d = 4; else if (w == "def") d = 8; else if (w == "dac") d = 12; else if (w == "com") d = 16; else return;
    }
    if (d == 0 || d > natural) return;
    m.ok = 1; m.suffix = d; m.used = p;
}
Lit model_literal(std::string const& t, bool skipws, bool numdec)
{
    Lit m; size_t p = 0; if (skipws) while (p < t.size() && ws(t[p])) ++p;
    if (p >= t.size()) return m;
    if (t[p] == '[') {
        size_t q = t.find(']', p); if (q == std::string::npos) return m;
        std::string in = t.substr(p + 1, q - p - 1); ++q; size_t c = in.find(',');
        if (c == std::string::npos) {
            std::string a = trim(in), l = lower(a);
            if (a.empty() || l == "empty") { m.empty = true; suffix(m, t, q, skipws, numdec, TRV); return m; }
            if (l == "entire") { m.loinf = m.hiinf = true; suffix(m, t, q, skipws, numdec, DAC); return m; }
            if (l == "nai") { m.nai = m.empty = true; suffix(m, t, q, skipws, numdec, ILL); return m; }
            if (!number(a, m.lo)) return m;
            m.hi = m.lo; suffix(m, t, q, skipws, numdec, COM); return m;
        }
        std::string a = trim(in.substr(0, c)), b = trim(in.substr(c + 1)), la = lower(a), lb = lower(b);
        if (a.empty() || la == "-inf" || la == "-infinity") m.loinf = true; else if (!number(a, m.lo)) return m;
        if (b.empty() || lb == "inf" || lb == "infinity" || lb == "+inf" || lb == "+infinity") m.hiinf = true; else if (!number(b, m.hi)) return m;
        bool und = false;
        if (!m.loinf && !m.hiinf) { int k = xcmp(m.lo, m.hi); if (k == 9) und = true; m.hugeorder = m.lo.bigexp || m.hi.bigexp; if (k != 9 && k > 0) return m; }
        suffix(m, t, q, skipws, numdec, m.loinf || m.hiinf ? DAC : COM);
        if (und && m.ok == 1) m.ok = 2;
        return m;
    }
    // uncertain form
    m.uncertain = true; size_t i = p; auto at = [&](size_t k) { return k < t.size() ? t[k] : '\0'; };
    if (!(at(i) == '+' || at(i) == '-' || at(i) == '.' || dg(at(i)))) return m;
    while (i < t.size() && (dg(t[i]) || t[i] == '.' || t[i] == '+' || t[i] == '-')) ++i;
    if (at(i) != '?') return m;
    std::string num = t.substr(p, i - p); ++i; bool inf = false; std::string ulps;
    if (at(i) == '?') { inf = true; ++i; } else while (dg(at(i))) ulps += t[i++];
    int dir = 0; if (lc(at(i)) == 'u') { dir = 1; ++i; } else if (lc(at(i)) == 'd') { dir = -1; ++i; }
    std::string ex = "0";
    if (lc(at(i)) == 'e') { ++i; ex.clear(); if (at(i) == '+' || at(i) == '-') ex += t[i++]; bool any = false; while (dg(at(i))) { ex += t[i++]; any = true; } if (!any) return m; }
    bool neg = false; size_t k = 0; if (k < num.size() && (num[k] == '+' || num[k] == '-')) { neg = num[k] == '-'; ++k; }
    std::string digs; long frac; if (!mant_ok(num.substr(k), false, digs, frac)) return m;
    long e = sat(ex) - frac; mpz_class N(digs, 10), r; if (neg) N = -N;
    if (inf) r = 0; else if (ulps.empty()) { N *= 10; r = 5; --e; } else r = mpz_class(ulps, 10);
    auto mk = [&](mpz_class const& z) { mpz_class a = abs(z); return make(z < 0, a.get_str(), 10, e); };
    m.lo = mk(dir > 0 ? N : mpz_class(N - r)); m.hi = mk(dir < 0 ? N : mpz_class(N + r));
    if (inf) { if (dir <= 0) m.loinf = true; if (dir >= 0) m.hiinf = true; }
    suffix(m, t, i, skipws, numdec, inf ? DAC : COM);
    return m;
}
bool literal_value(Lit const& m, Val const& v, std::string& msg)
{
    if (m.nai) { if (v.isdec ? v.nai() : v.empty()) return true; msg = "NaI literal read as " + val_text(v); return false; }
    if (!v.valid()) { msg = "inconsistent interval " + val_text(v); return false; }
    if (m.empty) { if (!v.empty()) { msg = "empty literal read as " + val_text(v); return false; } if (v.isdec && v.dec != TRV) { msg = "empty literal read as " + val_text(v); return false; } return true; }
    if (v.empty()) { msg = "nonempty literal read as " + val_text(v); return false; }
    if (m.loinf ? v.lo != -INFINITY : !below(v.lo, m.lo, v.fmt)) { msg = "lower bound of " + val_text(v) + " lies above the literal's"; return false; }
    if (m.hiinf ? v.hi != INFINITY : !above(v.hi, m.hi, v.fmt)) { msg = "upper bound of " + val_text(v) + " lies below the literal's"; return false; }
    if (v.isdec) {
        int d = m.suffix >= 0 ? m.suffix : COM; if (std::isinf(v.lo) || std::isinf(v.hi)) d = std::min(d, int(DAC));
        if (v.dec != d) { msg = std::string("decoration ") + dec_name(v.dec) + " instead of " + dec_name(d); return false; }
    }
    return true;
}
bool literal_tight(Lit const& m, Val const& v, std::string& msg)
{
    if (m.nai || m.empty || v.empty()) return true;
    if (!m.loinf && below(fmt_next(v.fmt, v.lo, true), m.lo, v.fmt)) { msg = "lower bound of " + val_text(v) + " is not the largest possible"; return false; }
    if (!m.hiinf && above(fmt_next(v.fmt, v.hi, false), m.hi, v.fmt)) { msg = "upper bound of " + val_text(v) + " is not the smallest possible"; return false; }
    return true;
}
} // namespace sim
