// Exact ranges of the operations: the smallest interval of the result format that encloses the exact result (C15, C17), and the
// set-theoretic definition of the relations (C16).
#include "mathref.hpp"
#include <algorithm>
#include <sstream>
namespace sim {
static long double const INF_ = std::numeric_limits<long double>::infinity();
namespace {
struct Range { bool known = true, empty = false; Br lo, hi; };       // brackets of the exact end points
Br br(long double x) { Br b; b.lo = M(x); b.hi = M(x); return b; }
bool less_br(Br const& a, Br const& b) { return mpfr_cmp(a.lo.v, b.lo.v) < 0; }
bool grt_br(Br const& a, Br const& b) { return mpfr_cmp(a.hi.v, b.hi.v) > 0; }
bool nanb(Br const& b) { return mpfr_nan_p(b.lo.v) || mpfr_nan_p(b.hi.v); }
void widen(Range& r, bool& have, Br const& b) { if (nanb(b)) return; if (!have) { r.lo = r.hi = b; have = true; return; } if (less_br(b, r.lo)) r.lo = b; if (grt_br(b, r.hi)) r.hi = b; }
Range none() { Range r; r.empty = true; return r; }
Range span(Br const& a, Br const& b) { Range r; r.lo = a; r.hi = b; return r; }
Range unknown() { Range r; r.known = false; return r; }
typedef int (*fun)(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);
int f_pos(mpfr_ptr r, mpfr_srcptr x, mpfr_rnd_t d) { return mpfr_set(r, x, d); }
int f_neg(mpfr_ptr r, mpfr_srcptr x, mpfr_rnd_t d) { return mpfr_neg(r, x, d); }
int f_even(mpfr_ptr r, mpfr_srcptr x, mpfr_rnd_t) { if (mpfr_inf_p(x)) return mpfr_set(r, x, MPFR_RNDN); return mpfr_rint_roundeven(r, x, MPFR_RNDN); }
int f_sign(mpfr_ptr r, mpfr_srcptr x, mpfr_rnd_t) { int s = mpfr_sgn(x); return mpfr_set_si(r, s > 0 ? 1 : s < 0 ? -1 : 0, MPFR_RNDN); }
int f_rec(mpfr_ptr r, mpfr_srcptr x, mpfr_rnd_t d) { return mpfr_ui_div(r, 1, x, d); }
Br ev(fun f, long double x) { Br b; M m(x); f(b.lo.v, m.v, MPFR_RNDD); f(b.hi.v, m.v, MPFR_RNDU); return b; }
fun monotone(int op)
{
    switch (op) {
    case OP_pos: return f_pos; case OP_exp: return mpfr_exp; case OP_exp2: return mpfr_exp2; case OP_exp10: return mpfr_exp10; case OP_atan: return mpfr_atan; case OP_sinh: return mpfr_sinh; case OP_tanh: return mpfr_tanh;
    case OP_asinh: return mpfr_asinh; case OP_sign: return f_sign; case OP_ceil: return mpfr_rint_ceil; case OP_floor: return mpfr_rint_floor; case OP_trunc: return mpfr_rint_trunc; case OP_round_ties_to_even: return f_even; case OP_round_ties_to_away: return mpfr_rint_round;
    case OP_sqrt: return mpfr_sqrt; case OP_log: return mpfr_log; case OP_log2: return mpfr_log2; case OP_log10: return mpfr_log10; case OP_asin: return mpfr_asin; case OP_acosh: return mpfr_acosh; case OP_atanh: return mpfr_atanh;
    }
    return nullptr;
}
// does [lo, hi] contain a point q * pi/2 with q = want mod per
bool hits(Val const& v, int want, int per)
{
    int e1, e2; std::frexp(v.lo, &e1); std::frexp(v.hi, &e2); long pr = std::max(10, std::max(e1, e2)) + 400;
    M p(pr, 0), a(pr, 0), b(pr, 0); mpfr_const_pi(p.v, MPFR_RNDN); mpfr_div_2ui(p.v, p.v, 1, MPFR_RNDN);
    mpfr_set_ld(a.v, v.lo, MPFR_RNDN); mpfr_set_ld(b.v, v.hi, MPFR_RNDN); mpfr_div(a.v, a.v, p.v, MPFR_RNDN); mpfr_div(b.v, b.v, p.v, MPFR_RNDN);
    mpfr_sub_si(a.v, a.v, want, MPFR_RNDN); mpfr_sub_si(b.v, b.v, want, MPFR_RNDN); mpfr_div_si(a.v, a.v, per, MPFR_RNDN); mpfr_div_si(b.v, b.v, per, MPFR_RNDN);
    mpfr_ceil(a.v, a.v); mpfr_floor(b.v, b.v); return mpfr_cmp(a.v, b.v) <= 0;
}
long double mag_(Val const& v) { return std::max(std::fabs(v.lo), std::fabs(v.hi)); }
long double mig_(Val const& v) { return v.lo <= 0 && v.hi >= 0 ? 0 : std::min(std::fabs(v.lo), std::fabs(v.hi)); }
Br mulb(long double x, long double y) { Br b; if (x == 0 || y == 0) return br(0); M a(x), c(y); mpfr_mul(b.lo.v, a.v, c.v, MPFR_RNDD); mpfr_mul(b.hi.v, a.v, c.v, MPFR_RNDU); return b; }
Br divb(long double x, long double y) { Br b; if (x == 0) return br(0); M a(x), c(y); mpfr_div(b.lo.v, a.v, c.v, MPFR_RNDD); mpfr_div(b.hi.v, a.v, c.v, MPFR_RNDU); return b; }   // 0/0: limit along 0
Br powb(long double x, long n) { Br b; M a(x); mpfr_pow_si(b.lo.v, a.v, n, MPFR_RNDD); mpfr_pow_si(b.hi.v, a.v, n, MPFR_RNDU); return b; }
Br pib(int sg) { Br b; if (sg > 0) { mpfr_const_pi(b.lo.v, MPFR_RNDD); mpfr_const_pi(b.hi.v, MPFR_RNDU); } else { mpfr_const_pi(b.lo.v, MPFR_RNDU); mpfr_const_pi(b.hi.v, MPFR_RNDD); mpfr_neg(b.lo.v, b.lo.v, MPFR_RNDN); mpfr_neg(b.hi.v, b.hi.v, MPFR_RNDN); } return b; }
Range range1(int op, Val A, long n)
{
    if (A.empty()) return none();
    switch (op) {
    case OP_neg: return span(ev(f_neg, A.hi), ev(f_neg, A.lo));
    case OP_sqrt: if (A.hi < 0) return none(); A.lo = std::max(A.lo, 0.0L); break;
    case OP_log: case OP_log2: case OP_log10: if (A.hi <= 0) return none(); A.lo = std::max(A.lo, 0.0L); break;
    case OP_asin: if (A.hi < -1 || A.lo > 1) return none(); A.lo = std::max(A.lo, -1.0L); A.hi = std::min(A.hi, 1.0L); break;
    case OP_acos: if (A.hi < -1 || A.lo > 1) return none(); A.lo = std::max(A.lo, -1.0L); A.hi = std::min(A.hi, 1.0L); return span(ev(mpfr_acos, A.hi), ev(mpfr_acos, A.lo));
    case OP_acosh: if (A.hi < 1) return none(); A.lo = std::max(A.lo, 1.0L); break;
    case OP_atanh: if (A.hi <= -1 || A.lo >= 1) return none(); A.lo = std::max(A.lo, -1.0L); A.hi = std::min(A.hi, 1.0L); break;
    case OP_sqr: { long double a = mig_(A), b = mag_(A); return span(ev(mpfr_sqr, a), ev(mpfr_sqr, b)); }
    case OP_abs: return span(br(mig_(A)), br(mag_(A)));
    case OP_cosh: return span(ev(mpfr_cosh, mig_(A)), ev(mpfr_cosh, mag_(A)));
    case OP_recip: if (A.lo == 0 && A.hi == 0) return none(); if (A.lo < 0 && A.hi > 0) return span(br(-INF_), br(INF_)); return span(A.hi == 0 ? br(-INF_) : ev(f_rec, A.hi), A.lo == 0 ? br(INF_) : ev(f_rec, A.lo));
    case OP_sin: case OP_cos: {
        if (std::isinf(A.lo) || std::isinf(A.hi)) return span(br(-1), br(1)); fun f = op == OP_sin ? (fun)mpfr_sin : (fun)mpfr_cos; int top = op == OP_sin ? 1 : 0;
        Range r; bool have = false; widen(r, have, ev(f, A.lo)); widen(r, have, ev(f, A.hi)); if (hits(A, top, 4)) r.hi = br(1); if (hits(A, top + 2, 4)) r.lo = br(-1); return r; }
    case OP_tan: if (std::isinf(A.lo) || std::isinf(A.hi) || hits(A, 1, 2)) return span(br(-INF_), br(INF_)); return span(ev(mpfr_tan, A.lo), ev(mpfr_tan, A.hi));
    case OP_pown: {
        if (n == 0) return span(br(1), br(1)); bool even = n % 2 == 0; long double g = mig_(A), m = mag_(A);
        if (n > 0) return even ? span(powb(g, n), powb(m, n)) : span(powb(A.lo, n), powb(A.hi, n));
        if (m == 0) return none();
        if (even) return span(powb(m, n), g == 0 ? br(INF_) : powb(g, n));
        if (A.lo < 0 && A.hi > 0) return span(br(-INF_), br(INF_));
        return span(A.hi == 0 ? br(-INF_) : powb(A.hi, n), A.lo == 0 ? br(INF_) : powb(A.lo, n)); }
    }
    if (fun f = monotone(op)) return span(ev(f, A.lo), ev(f, A.hi));
    return unknown();
}
Range quotient(Val const& A, Val const& B)
{
    Range r; bool have = false;
    if (B.hi > 0) { long double l = std::max(B.lo, 0.0L); for (long double x : { A.lo, A.hi }) { Br q = l == 0 ? (x == 0 ? br(0) : br(x > 0 ? INF_ : -INF_)) : divb(x, l); widen(r, have, q); widen(r, have, divb(x, B.hi)); } }
    if (B.lo < 0) { long double h = std::min(B.hi, 0.0L); for (long double x : { A.lo, A.hi }) { Br q = h == 0 ? (x == 0 ? br(0) : br(x > 0 ? -INF_ : INF_)) : divb(x, h); widen(r, have, q); widen(r, have, divb(x, B.lo)); } }
    if (!have) return none();
    return r;
}
Range range2(int op, Val A, Val B)
{
    if (op == OP_convex_hull) { if (A.empty() && B.empty()) return none(); if (A.empty()) return span(br(B.lo), br(B.hi)); if (B.empty()) return span(br(A.lo), br(A.hi)); return span(br(std::min(A.lo, B.lo)), br(std::max(A.hi, B.hi))); }
    if (op == OP_cancel_plus || op == OP_cancel_minus) {
        Val Y = B; if (op == OP_cancel_plus && !Y.empty()) { long double t = Y.lo; Y.lo = -Y.hi; Y.hi = -t; }
        bool unb = (!A.empty() && (std::isinf(A.lo) || std::isinf(A.hi))) || (!Y.empty() && (std::isinf(Y.lo) || std::isinf(Y.hi)));
        if (unb) return span(br(-INF_), br(INF_)); if (A.empty()) return none(); if (Y.empty()) return span(br(-INF_), br(INF_));
        M wa(40000, 0), wy(40000, 0), t(40000, 0); mpfr_set_ld(wa.v, A.hi, MPFR_RNDN); mpfr_set_ld(t.v, A.lo, MPFR_RNDN); mpfr_sub(wa.v, wa.v, t.v, MPFR_RNDN); mpfr_set_ld(wy.v, Y.hi, MPFR_RNDN); mpfr_set_ld(t.v, Y.lo, MPFR_RNDN); mpfr_sub(wy.v, wy.v, t.v, MPFR_RNDN);
        if (mpfr_cmp(wa.v, wy.v) < 0) return span(br(-INF_), br(INF_));
        Range r; M al(A.lo), ah(A.hi), yl(Y.lo), yh(Y.hi); for (int u = 0; u < 2; ++u) { Br& b = u ? r.hi : r.lo; mpfr_sub(b.lo.v, u ? ah.v : al.v, u ? yh.v : yl.v, MPFR_RNDD); mpfr_sub(b.hi.v, u ? ah.v : al.v, u ? yh.v : yl.v, MPFR_RNDU); } return r;
    }
    if (A.empty() || B.empty()) return none();
    switch (op) {
    case OP_add: case OP_sub: { Range r; M al(A.lo), ah(A.hi), bl(op == OP_add ? B.lo : -B.hi), bh(op == OP_add ? B.hi : -B.lo); mpfr_add(r.lo.lo.v, al.v, bl.v, MPFR_RNDD); mpfr_add(r.lo.hi.v, al.v, bl.v, MPFR_RNDU); mpfr_add(r.hi.lo.v, ah.v, bh.v, MPFR_RNDD); mpfr_add(r.hi.hi.v, ah.v, bh.v, MPFR_RNDU); return r; }
    case OP_mul: { Range r; bool have = false; for (long double x : { A.lo, A.hi }) for (long double y : { B.lo, B.hi }) widen(r, have, mulb(x, y)); return r; }
    case OP_div: return quotient(A, B);
    case OP_min: return span(br(std::min(A.lo, B.lo)), br(std::min(A.hi, B.hi)));
    case OP_max: return span(br(std::max(A.lo, B.lo)), br(std::max(A.hi, B.hi)));
    case OP_intersection: { long double l = std::max(A.lo, B.lo), h = std::min(A.hi, B.hi); if (l > h) return none(); return span(br(l), br(h)); }
    case OP_pow: {
        if (A.hi < 0) return none(); A.lo = std::max(A.lo, 0.0L);
        if (A.hi == 0) { if (B.hi <= 0) return none(); return span(br(0), br(0)); }
        Range r; bool have = false;
        for (long double x : { A.lo, A.hi }) for (long double y : { B.lo, B.hi }) { Br b; M a(x == 0 ? 0.0L : x), c(y); if (x == 0) mpfr_set_zero(a.v, 1); mpfr_pow(b.lo.v, a.v, c.v, MPFR_RNDD); mpfr_pow(b.hi.v, a.v, c.v, MPFR_RNDU); widen(r, have, b); }
        return r; }
    case OP_atan2: {    // A: ordinate, B: abscissa
        if (A.lo == 0 && A.hi == 0 && B.lo == 0 && B.hi == 0) return none();
        if (A.lo < 0 && A.hi >= 0 && B.lo < 0) return span(pib(-1), pib(1));
        Range r; bool have = false;
        for (long double y : { A.lo, A.hi }) for (long double x : { B.lo, B.hi }) {
            if (x == 0 && y == 0) continue; Br b; M a(y), c(x); if (y == 0) mpfr_set_zero(a.v, 1); if (x == 0) mpfr_set_zero(c.v, 1); mpfr_atan2(b.lo.v, a.v, c.v, MPFR_RNDD); mpfr_atan2(b.hi.v, a.v, c.v, MPFR_RNDU); widen(r, have, b); }
        return r; }
    }
    return unknown();
}
Range range_fma(Val const& A, Val const& B, Val const& C)
{
    if (A.empty() || B.empty() || C.empty()) return none();
    Range p; bool have = false; for (long double x : { A.lo, A.hi }) for (long double y : { B.lo, B.hi }) widen(p, have, mulb(x, y));      // products are exact
    M cl(C.lo), ch(C.hi); Range r; mpfr_add(r.lo.lo.v, p.lo.lo.v, cl.v, MPFR_RNDD); mpfr_add(r.lo.hi.v, p.lo.hi.v, cl.v, MPFR_RNDU); mpfr_add(r.hi.lo.v, p.hi.lo.v, ch.v, MPFR_RNDD); mpfr_add(r.hi.hi.v, p.hi.hi.v, ch.v, MPFR_RNDU); return r;
}
// The end points of a bracket are neighbouring numbers of 384 bits or equal, and a value that is not exact lies strictly between them; hence
// rounding the outer end of the bracket rounds the value. 1 agrees, 0 differs, -1 not decided
int agrees(Br const& b, long double got, int fmt, bool upper, long double& want)
{
    if (nanb(b)) return -1; want = round_fmt(upper ? b.hi.v : b.lo.v, fmt, upper ? MPFR_RNDU : MPFR_RNDD); return got == want;
}
typedef std::vector<std::pair<Br, Br>> Parts;
Br negb(Br const& b) { Br r; mpfr_neg(r.lo.v, b.hi.v, MPFR_RNDD); mpfr_neg(r.hi.v, b.lo.v, MPFR_RNDU); return r; }
void mirror(Parts& p, Br const& a, Br const& b) { p.push_back({ negb(b), negb(a) }); p.push_back({ a, b }); }
Br rootb(long double x, unsigned long k) { Br b; M m(x); mpfr_rootn_ui(b.lo.v, m.v, k, MPFR_RNDD); mpfr_rootn_ui(b.hi.v, m.v, k, MPFR_RNDU); return b; }
Br invb(Br const& x) { Br b; mpfr_ui_div(b.lo.v, 1, x.hi.v, MPFR_RNDD); mpfr_ui_div(b.hi.v, 1, x.lo.v, MPFR_RNDU); return b; }
// solutions of f(x) in C as at most two closed intervals, ascending; false if not handled
bool solutions(int op, long n, Val C, Val const& D, Parts& p)
{
    if (C.empty()) return true;
    switch (op) {
    case OP_sqr_rev: case OP_sqr_rev2: if (C.hi < 0) return true; C.lo = std::max(C.lo, 0.0L); mirror(p, ev(mpfr_sqrt, C.lo), ev(mpfr_sqrt, C.hi)); return true;
    case OP_abs_rev: case OP_abs_rev2: if (C.hi < 0) return true; C.lo = std::max(C.lo, 0.0L); mirror(p, br(C.lo), br(C.hi)); return true;
    case OP_cosh_rev: case OP_cosh_rev2: if (C.hi < 1) return true; C.lo = std::max(C.lo, 1.0L); mirror(p, ev(mpfr_acosh, C.lo), ev(mpfr_acosh, C.hi)); return true;
    case OP_pown_rev: case OP_pown_rev2: {
        if (n == 0) { if (C.lo <= 1 && C.hi >= 1) p.push_back({ br(-INF_), br(INF_) }); return true; }
        unsigned long k = n < 0 ? -n : n; bool even = k % 2 == 0;
        if (n > 0) { if (!even) { p.push_back({ rootb(C.lo, k), rootb(C.hi, k) }); return true; } if (C.hi < 0) return true; C.lo = std::max(C.lo, 0.0L); mirror(p, rootb(C.lo, k), rootb(C.hi, k)); return true; }
        auto pos = [&](long double l, long double h, Br& a, Br& b) { a = std::isinf(h) ? br(0) : invb(rootb(h, k)); b = l <= 0 ? br(INF_) : invb(rootb(l, k)); };
        Br a, b;
        if (even) { if (C.hi <= 0) return true; pos(C.lo, C.hi, a, b); mirror(p, a, b); return true; }
        if (C.lo < 0) { pos(-C.hi, -C.lo, a, b); p.push_back({ negb(b), negb(a) }); }
        if (C.hi > 0) { pos(C.lo, C.hi, a, b); p.push_back({ a, b }); }
        return true; }
    case OP_mul_rev: case OP_mul_rev3: {     // C is the factor, D the product
        if (D.empty()) return true;
        if (C.lo <= 0 && C.hi >= 0 && D.lo <= 0 && D.hi >= 0) { p.push_back({ br(-INF_), br(INF_) }); return true; }
        Val b = C; Parts q;
        if (C.lo < 0) { b = C; b.hi = std::min(b.hi, 0.0L); Range r = quotient(D, b); if (!r.empty) q.push_back({ r.lo, r.hi }); }
        if (C.hi > 0) { b = C; b.lo = std::max(b.lo, 0.0L); Range r = quotient(D, b); if (!r.empty) q.push_back({ r.lo, r.hi }); }
        if (C.lo < 0 && C.hi > 0 && q.size() == 2 && less_br(q[1].first, q[0].first)) std::swap(q[0], q[1]);
        if (!(C.lo < 0 && C.hi > 0)) { Range r = quotient(D, C); q.clear(); if (!r.empty) q.push_back({ r.lo, r.hi }); }
        p = q; return true; }
    }
    return false;
}
// the hull of the solutions in X; false if the exact result hangs on the rounding of a solution
bool hull_in(Parts const& p, Val const& X, Range& r)
{
    r = none(); if (X.empty()) return true; Br xl = br(X.lo), xh = br(X.hi); bool have = false;
    for (auto& q : p) {
        if (mpfr_cmp(q.first.lo.v, xh.lo.v) <= 0 && mpfr_cmp(q.first.hi.v, xh.lo.v) > 0) return false;
        if (mpfr_cmp(q.second.hi.v, xl.lo.v) >= 0 && mpfr_cmp(q.second.lo.v, xl.lo.v) < 0) return false;
        if (mpfr_cmp(q.first.lo.v, xh.lo.v) > 0 || mpfr_cmp(q.second.hi.v, xl.lo.v) < 0) continue;
        Br l = mpfr_cmp(q.first.lo.v, xl.lo.v) < 0 ? xl : q.first, h = mpfr_cmp(q.second.hi.v, xh.lo.v) > 0 ? xh : q.second;
        if (!have) { r.empty = false; r.lo = l; } r.hi = h; have = true;
    }
    return true;
}
std::string rtext(Br const& b) { return mtext(b.lo.v); }
bool fail(std::string& msg, Step const& s, Outcome const& o, std::string const& what)
{
    msg = std::string(op_names[s.op]); for (int i = 0; i < o.nops; ++i) msg += " " + val_text(o.ops[i]);
    if (op_kinds[s.op] == K_PN || op_kinds[s.op] == K_PN2) msg += " n=" + std::to_string(s.n);
    if (op_kinds[s.op] == K_CTOR || op_kinds[s.op] == K_MEM) msg += " x=" + num_text(s.x) + " y=" + num_text(s.y);
    msg += " -> " + o.payload + ": " + what; return false;
}
// midpoint: nearest number of the format (either one in a tie); radius: smallest number of the format so that midpoint and radius enclose the interval
bool mid_rad_ok(int op, Val const& A, int fmt, long double m, long double rd, std::string& why)
{
    M lo(A.lo), hi(A.hi), e(40000, 0), h(40000, 0), t(40000, 0); mpfr_t mx; mpfr_init2(mx, 80); mpfr_set_ui_2exp(mx, 1, 20000, MPFR_RNDN); long double big = round_fmt(mx, fmt, MPFR_RNDZ); mpfr_clear(mx);
    std::vector<long double> ms; bool li = std::isinf(A.lo), hi_ = std::isinf(A.hi);
    if (li && hi_) ms = { 0.0L }; else if (li) ms = { -big }; else if (hi_) ms = { big };
    else {
        mpfr_add(e.v, lo.v, hi.v, MPFR_RNDN); mpfr_div_2ui(e.v, e.v, 1, MPFR_RNDN); long double n = round_fmt(e.v, fmt, MPFR_RNDN), d = round_fmt(e.v, fmt, MPFR_RNDD), u = round_fmt(e.v, fmt, MPFR_RNDU); ms = { n };
        if (!std::isinf(d) && !std::isinf(u) && !std::isinf(n)) { M a(d), b(u); mpfr_sub(h.v, e.v, a.v, MPFR_RNDN); mpfr_sub(t.v, b.v, e.v, MPFR_RNDN); if (mpfr_cmp(h.v, t.v) == 0) ms = { d, u }; }
    }
    if (op != OP_rad) { if (std::find(ms.begin(), ms.end(), m) == ms.end()) { why = "not the midpoint " + num_text(ms[0]); return false; } ms = { m }; }
    if (op == OP_mid) return true;
    for (long double x : ms) {
        long double want = INF_;
        if (!li && !hi_ && !std::isinf(x)) { M a(x); mpfr_sub(e.v, a.v, lo.v, MPFR_RNDN); mpfr_sub(h.v, hi.v, a.v, MPFR_RNDN); if (mpfr_cmp(e.v, h.v) < 0) mpfr_set(e.v, h.v, MPFR_RNDN); want = round_fmt(e.v, fmt, MPFR_RNDU); }
        if (rd == want) return true; why = "not the radius " + num_text(want);
    }
    return false;
}
std::vector<std::string> split(std::string const& x) { std::vector<std::string> v; std::istringstream is(x); std::string t; while (is >> t) v.push_back(t); return v; }
}
bool step_is_mixed(Step const& s, Outcome const& o) { for (int i = 0; i < o.nops; ++i) if (o.ops[i].fmt != s.fmt) return true; return s.op == OP_ctor_mixed || s.op == OP_ctor_mixed_dec; }
bool check_tight(Run const&, Step const& s, Outcome const& o, std::string& msg, Counters& c)
{
    if (o.exc) return true; int k = op_kinds[s.op];
    for (int i = 0; i < o.nops; ++i) if (!o.ops[i].valid() || o.ops[i].nai()) return true;
    Val const &A = o.ops[0], &B = o.ops[1], &C = o.ops[2], &R = o.dst1; Range r;
    switch (k) {
    case K_UN: case K_PN: r = range1(s.op, A, s.n); break;
    case K_BIN: r = range2(s.op, A, B); break;
    case K_TER: r = s.op == OP_fma ? range_fma(A, B, C) : unknown(); break;
    case K_CONV: if (s.op == OP_setdec && s.m == ILL) return true; if (R.nai()) return true; r = A.empty() ? none() : span(br(A.lo), br(A.hi)); break;
    case K_COPY: r = A.empty() ? none() : span(br(A.lo), br(A.hi)); break;
    case K_CTOR: if (R.empty()) return true; r = span(br(s.x), br(s.y)); break;
    case K_NUM: case K_NUM2: {
        auto w = split(o.payload); if (w.empty()) return fail(msg, s, o, "no number"); long double v = num_parse(w[0]), want; if (A.empty()) return true;
        bool unb = std::isinf(A.lo) || std::isinf(A.hi); Br b;
        switch (s.op) {
        case OP_inf: b = br(A.lo); break; case OP_sup: b = br(A.hi); break; case OP_mag: b = br(mag_(A)); break; case OP_mig: b = br(mig_(A)); break;
        case OP_wid: { if (unb) { b = br(INF_); break; } M l(A.lo), h(A.hi); mpfr_sub(b.lo.v, h.v, l.v, MPFR_RNDD); mpfr_sub(b.hi.v, h.v, l.v, MPFR_RNDU); break; }
        case OP_mid: case OP_rad: case OP_mid_rad: { if (s.op == OP_mid_rad && w.size() != 2) return fail(msg, s, o, "no pair"); std::string why; c.add("tight.numbers");
            return mid_rad_ok(s.op, A, s.fmt, v, s.op == OP_mid_rad ? num_parse(w[1]) : v, why) || fail(msg, s, o, why); }
        default: return true; }
        int q = agrees(b, v, s.fmt, !(s.op == OP_inf || s.op == OP_mig), want); if (q < 0) return true; c.add("tight.numbers");
        if (!q) return fail(msg, s, o, "not the nearest number of the format in the required direction, which is " + num_text(want));
        return true; }
    default: return true;
    }
    if (!r.known) {     // reverse operations never leave their argument
        Val X; bool have = false;
        switch (s.op) { case OP_sqr_rev2: case OP_abs_rev2: case OP_sin_rev2: case OP_cos_rev2: case OP_tan_rev2: case OP_cosh_rev2: case OP_pown_rev2: X = B; have = true; break; case OP_mul_rev3: X = C; have = true; break; }
        Parts p; Val all; all.fmt = FL; all.lo = -INF_; all.hi = INF_;
        if (solutions(s.op, s.n, A, B, p)) {
            Val const& W = have ? X : all; if (!hull_in(p, W, r)) { c.add("tight.undecided"); return true; } c.add("tight.reverse"); r.known = true;
            long double l, h; if (r.empty) {    // rounding may close a gap between the solutions and the argument
                if (R.empty()) return true; bool near = false; for (auto& q : p) if (agrees(q.first, 0, s.fmt, false, l) >= 0 && agrees(q.second, 0, s.fmt, true, h) >= 0 && l <= W.hi && h >= W.lo) near = true;
                if (!near) return fail(msg, s, o, "there is no solution"); return true; }
            if (R.empty()) return fail(msg, s, o, "there are solutions");
            if (!agrees(r.lo, R.lo, s.fmt, false, l)) return fail(msg, s, o, "lower bound is not the largest possible, " + num_text(l) + " (exact " + rtext(r.lo) + ")");
            if (!agrees(r.hi, R.hi, s.fmt, true, h)) return fail(msg, s, o, "upper bound is not the smallest possible, " + num_text(h) + " (exact " + rtext(r.hi) + ")");
            return true;
        }
        if (!have) return true; c.add("tight.subset"); if (R.empty()) return true;
        if (X.empty() || A.empty()) return fail(msg, s, o, "not empty although an argument is");
        long double want; if (agrees(br(X.lo), R.lo, s.fmt, false, want) == 0 && R.lo < want) return fail(msg, s, o, "leaves the argument below");
        if (agrees(br(X.hi), R.hi, s.fmt, true, want) == 0 && R.hi > want) return fail(msg, s, o, "leaves the argument above");
        return true;
    }
    c.add("tight.checked");
    if (r.empty != R.empty()) return fail(msg, s, o, r.empty ? "the exact result is empty" : "the exact result is not empty");
    if (r.empty) return true;
    long double want; int q = agrees(r.lo, R.lo, s.fmt, false, want); if (q < 0) c.add("tight.undecided"); else if (!q) return fail(msg, s, o, "lower bound is not the largest possible, " + num_text(want) + " (exact " + rtext(r.lo) + ")");
    q = agrees(r.hi, R.hi, s.fmt, true, want); if (q < 0) c.add("tight.undecided"); else if (!q) return fail(msg, s, o, "upper bound is not the smallest possible, " + num_text(want) + " (exact " + rtext(r.hi) + ")");
    return true;
}
// ------------------------------------------------------------------------------------------------ relations
static int overlap_of(Val const& a, Val const& b)
{
    if (a.nai() || b.nai()) return 0;
    if (a.empty()) return b.empty() ? 1 : 2;
    if (b.empty()) return 4;
    if (a.hi < b.lo) return 8; if (b.hi < a.lo) return 1 << 15;
    if (a.lo == b.lo && a.hi == b.hi) return 1 << 9;
    if (a.lo == b.lo) return a.hi < b.hi ? 1 << 6 : 1 << 12;
    if (a.hi == b.hi) return a.lo > b.lo ? 1 << 8 : 1 << 10;
    if (a.hi == b.lo) return 1 << 4; if (b.hi == a.lo) return 1 << 14;
    if (a.lo < b.lo) return a.hi < b.hi ? 1 << 5 : 1 << 11;
    return a.hi < b.hi ? 1 << 7 : 1 << 13;
}
static bool relation(int op, Val const& a, Val const& b)
{
    switch (op) {
    case OP_superset: return relation(OP_subset, b, a); case OP_greater: return relation(OP_less, b, a); case OP_succeeds: return relation(OP_precedes, b, a); case OP_contains_interior: return relation(OP_interior, b, a);
    case OP_strictly_greater: return relation(OP_strictly_less, b, a); case OP_strictly_succeeds: return relation(OP_strictly_precedes, b, a);
    }
    if (a.nai() || b.nai()) return false;
    bool e = a.empty(), f = b.empty();
    switch (op) {
    case OP_equal: return e || f ? e && f : a.lo == b.lo && a.hi == b.hi;
    case OP_subset: return e || (!f && b.lo <= a.lo && a.hi <= b.hi);
    case OP_less: return e || f ? e && f : a.lo <= b.lo && a.hi <= b.hi;
    case OP_precedes: return e || f || a.hi <= b.lo;
    case OP_interior: return e || (!f && (b.lo < a.lo || (b.lo == -INF_ && a.lo == -INF_)) && (a.hi < b.hi || (a.hi == INF_ && b.hi == INF_)));
    case OP_strictly_less: return e || f ? e && f : (a.lo < b.lo || (a.lo == -INF_ && b.lo == -INF_)) && (a.hi < b.hi || (a.hi == INF_ && b.hi == INF_));
    case OP_strictly_precedes: return e || f || a.hi < b.lo;
    case OP_disjoint: return e || f || a.hi < b.lo || b.hi < a.lo;
    }
    return false;
}
bool check_relation(Step const& s, Outcome const& o, std::string& msg, Counters& c)
{
    if (o.exc) return true; int k = op_kinds[s.op]; for (int i = 0; i < o.nops; ++i) if (!o.ops[i].valid()) return true;
    Val const &A = o.ops[0], &B = o.ops[1]; bool want;
    switch (k) {
    case K_OVL: { c.add("relation.overlap"); int w = overlap_of(A, B); if (o.payload != std::to_string(w)) return fail(msg, s, o, "the state is " + std::to_string(w)); return true; }
    case K_B2: want = relation(s.op, A, B); break;
    case K_MEM: want = !A.nai() && !A.empty() && std::isfinite(s.x) && A.lo <= s.x && s.x <= A.hi; break;
    case K_B1:
        switch (s.op) {
        case OP_is_empty: if (A.nai()) return true; want = A.empty(); break;
        case OP_is_entire: want = A.lo == -INF_ && A.hi == INF_; break;
        case OP_is_common_interval: want = !A.empty() && !std::isinf(A.lo) && !std::isinf(A.hi); break;
        case OP_is_singleton: want = !A.empty() && A.lo == A.hi; break;
        case OP_is_nai: want = A.nai(); break;
        case OP_decoration: c.add("relation.checked"); if (o.payload != std::to_string(int(A.dec))) return fail(msg, s, o, "wrong decoration"); return true;
        default: return true;
        }
        break;
    default: return true;
    }
    c.add("relation.checked");
    if (o.payload != (want ? "true" : "false")) return fail(msg, s, o, std::string("by definition ") + (want ? "true" : "false"));
    return true;
}
} // namespace sim
