#include "mathref.hpp"
#include <algorithm>
#include <sstream>
namespace sim {
static long double const INF_ = std::numeric_limits<long double>::infinity();
static int const P_[3] = { 24, 53, 64 }, EMIN_[3] = { -148, -1073, -16444 }, EMAX_[3] = { 128, 1024, 16384 };
void ref_init() { mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max()); }
std::string mtext(mpfr_t const x) { char b[128]; mpfr_snprintf(b, sizeof b, "%.30Rg", x); return b; }
long double round_fmt(mpfr_t const x, int f, mpfr_rnd_t r)
{
    mpfr_t y; mpfr_init2(y, P_[f]); mpfr_exp_t a = mpfr_get_emin(), b = mpfr_get_emax();
    int t = mpfr_set(y, x, r); mpfr_set_emin(EMIN_[f]); mpfr_set_emax(EMAX_[f]); t = mpfr_check_range(y, t, r); t = mpfr_subnormalize(y, t, r);
    long double v = mpfr_get_ld(y, MPFR_RNDN); mpfr_clear(y); mpfr_set_emin(a); mpfr_set_emax(b); return v;
}
static int cmpl(M const& a, long double x) { return mpfr_cmp_ld(a.v, x); }
static bool inside(M const& x, Val const& v) { return !v.empty() && cmpl(x, v.lo) >= 0 && cmpl(x, v.hi) <= 0; }
// the exact point is certainly not in the interval
static bool outside(Br const& b, Val const& v) { return v.empty() || cmpl(b.hi, v.lo) < 0 || cmpl(b.lo, v.hi) > 0; }
static bool br_inside(Br const& b, Val const& v) { return !v.empty() && cmpl(b.lo, v.lo) >= 0 && cmpl(b.hi, v.hi) <= 0; }
static M pi2(int k, mpfr_rnd_t r) { M p; mpfr_const_pi(p.v, r == MPFR_RNDD ? (k < 0 ? MPFR_RNDU : MPFR_RNDD) : (k < 0 ? MPFR_RNDD : MPFR_RNDU)); mpfr_mul_si(p.v, p.v, k, r); mpfr_div_2ui(p.v, p.v, 1, r); return p; }

#define BOTH(f, x) do { f(b.lo.v, (x).v, MPFR_RNDD); f(b.hi.v, (x).v, MPFR_RNDU); } while (0)
// value of the function at x; false where it is not defined
static bool eval1(int op, M const& x, long n, Br& b)
{
    int sg = mpfr_sgn(x.v);
    switch (op) {
    case OP_pos: b.lo = b.hi = x; return true;
    case OP_neg: b.lo = x; mpfr_neg(b.lo.v, x.v, MPFR_RNDN); b.hi = b.lo; return true;
    case OP_recip: if (!sg) return false; mpfr_ui_div(b.lo.v, 1, x.v, MPFR_RNDD); mpfr_ui_div(b.hi.v, 1, x.v, MPFR_RNDU); return true;
    case OP_sqr: BOTH(mpfr_sqr, x); return true;
    case OP_sqrt: if (sg < 0) return false; BOTH(mpfr_sqrt, x); return true;
    case OP_exp: BOTH(mpfr_exp, x); return true;
    case OP_exp2: BOTH(mpfr_exp2, x); return true;
    case OP_exp10: BOTH(mpfr_exp10, x); return true;
    case OP_log: if (sg <= 0) return false; BOTH(mpfr_log, x); return true;
    case OP_log2: if (sg <= 0) return false; BOTH(mpfr_log2, x); return true;
    case OP_log10: if (sg <= 0) return false; BOTH(mpfr_log10, x); return true;
    case OP_sin: BOTH(mpfr_sin, x); return true;
    case OP_cos: BOTH(mpfr_cos, x); return true;
    case OP_tan: BOTH(mpfr_tan, x); return true;
    case OP_asin: if (cmpl(x, -1) < 0 || cmpl(x, 1) > 0) return false; BOTH(mpfr_asin, x); return true;
    case OP_acos: if (cmpl(x, -1) < 0 || cmpl(x, 1) > 0) return false; BOTH(mpfr_acos, x); return true;
    case OP_atan: BOTH(mpfr_atan, x); return true;
    case OP_sinh: BOTH(mpfr_sinh, x); return true;
    case OP_cosh: BOTH(mpfr_cosh, x); return true;
    case OP_tanh: BOTH(mpfr_tanh, x); return true;
    case OP_asinh: BOTH(mpfr_asinh, x); return true;
    case OP_acosh: if (cmpl(x, 1) < 0) return false; BOTH(mpfr_acosh, x); return true;
    case OP_atanh: if (cmpl(x, -1) <= 0 || cmpl(x, 1) >= 0) return false; BOTH(mpfr_atanh, x); return true;
    case OP_sign: mpfr_set_si(b.lo.v, sg > 0 ? 1 : sg < 0 ? -1 : 0, MPFR_RNDN); b.hi = b.lo; return true;
    case OP_ceil: BOTH(mpfr_rint_ceil, x); return true;
    case OP_floor: BOTH(mpfr_rint_floor, x); return true;
    case OP_trunc: BOTH(mpfr_rint_trunc, x); return true;
    case OP_round_ties_to_even: b.lo = x; mpfr_rint_roundeven(b.lo.v, x.v, MPFR_RNDN); b.hi = b.lo; return true;
    case OP_round_ties_to_away: BOTH(mpfr_rint_round, x); return true;
    case OP_abs: b.lo = x; mpfr_abs(b.lo.v, x.v, MPFR_RNDN); b.hi = b.lo; return true;
    case OP_pown: if (!sg && n < 0) return false; if (n == 0) { mpfr_set_ui(b.lo.v, 1, MPFR_RNDN); b.hi = b.lo; return true; } mpfr_pow_si(b.lo.v, x.v, n, MPFR_RNDD); mpfr_pow_si(b.hi.v, x.v, n, MPFR_RNDU); return true;
    default: return false;
    }
}
static bool eval2(int op, M const& x, M const& y, Br& b)
{
    switch (op) {
    case OP_add: mpfr_add(b.lo.v, x.v, y.v, MPFR_RNDD); mpfr_add(b.hi.v, x.v, y.v, MPFR_RNDU); return true;
    case OP_sub: mpfr_sub(b.lo.v, x.v, y.v, MPFR_RNDD); mpfr_sub(b.hi.v, x.v, y.v, MPFR_RNDU); return true;
    case OP_mul: mpfr_mul(b.lo.v, x.v, y.v, MPFR_RNDD); mpfr_mul(b.hi.v, x.v, y.v, MPFR_RNDU); return true;
    case OP_div: if (!mpfr_sgn(y.v)) return false; mpfr_div(b.lo.v, x.v, y.v, MPFR_RNDD); mpfr_div(b.hi.v, x.v, y.v, MPFR_RNDU); return true;
    case OP_pow: if (mpfr_sgn(x.v) < 0) return false; if (!mpfr_sgn(x.v)) { if (mpfr_sgn(y.v) <= 0) return false; mpfr_set_zero(b.lo.v, 1); mpfr_set_zero(b.hi.v, 1); return true; }
        mpfr_pow(b.lo.v, x.v, y.v, MPFR_RNDD); mpfr_pow(b.hi.v, x.v, y.v, MPFR_RNDU); return true;
    case OP_atan2: { if (!mpfr_sgn(x.v) && !mpfr_sgn(y.v)) return false; M a(x), c(y); if (!mpfr_sgn(a.v)) mpfr_set_zero(a.v, 1); if (!mpfr_sgn(c.v)) mpfr_set_zero(c.v, 1); mpfr_atan2(b.lo.v, a.v, c.v, MPFR_RNDD); mpfr_atan2(b.hi.v, a.v, c.v, MPFR_RNDU); return true; }
    case OP_min: b.lo = mpfr_cmp(x.v, y.v) < 0 ? x : y; b.hi = b.lo; return true;
    case OP_max: b.lo = mpfr_cmp(x.v, y.v) > 0 ? x : y; b.hi = b.lo; return true;
    default: return false;
    }
}
// points of an interval: ends, neighbours, special points, random interior points
static void push_in(std::vector<M>& p, M const& m, Val const& v) { if (inside(m, v) && !mpfr_inf_p(m.v) && !mpfr_nan_p(m.v)) p.push_back(m); }
static std::vector<M> points(Val const& v, Rng& g, int op, int rich)
{
    std::vector<M> p; if (v.empty()) return p;
    bool il = std::isinf(v.lo), ih = std::isinf(v.hi);
    if (!il) p.push_back(M(v.lo)); else { M m; mpfr_set_si_2exp(m.v, -3, 20000, MPFR_RNDN); push_in(p, m, v); push_in(p, M(-std::ldexp(1.0L, g.range(0, 16000))), v); push_in(p, M(v.hi - 1), v); }
    if (v.lo == v.hi) return p;
    if (!ih) p.push_back(M(v.hi)); else { M m; mpfr_set_si_2exp(m.v, 3, 20000, MPFR_RNDN); push_in(p, m, v); push_in(p, M(std::ldexp(1.0L, g.range(0, 16000))), v); push_in(p, M(v.lo + 1), v); }
    push_in(p, M(0.0L), v);
    if (!rich && g.chance(1, 2)) { long double a = il ? -fmt_next(FL, INF_, false) : v.lo, b = ih ? fmt_next(FL, INF_, false) : v.hi; M m(a), d(b); mpfr_sub(d.v, d.v, m.v, MPFR_RNDN); mpfr_mul_d(d.v, d.v, (g.next() >> 11) * 0x1p-53, MPFR_RNDN); mpfr_add(m.v, m.v, d.v, MPFR_RNDN); push_in(p, m, v); return p; }
    if (!il) push_in(p, M(fmt_next(v.fmt, v.lo, true)), v);
    if (!ih) push_in(p, M(fmt_next(v.fmt, v.hi, false)), v);
    push_in(p, M(1.0L), v); push_in(p, M(-1.0L), v);
    if (rich) {
        push_in(p, M(0.5L), v); push_in(p, M(-0.5L), v); { M m; mpfr_set_si_2exp(m.v, 1, -20000, MPFR_RNDN); push_in(p, m, v); mpfr_neg(m.v, m.v, MPFR_RNDN); push_in(p, m, v); }
        for (int i = 0; i < 3; ++i) { long double a = il ? (ih ? -100 : v.hi - 100) : v.lo, b = ih ? (il ? 100 : v.lo + 100) : v.hi; M m(a), d(b); mpfr_sub(d.v, d.v, m.v, MPFR_RNDN); mpfr_mul_d(d.v, d.v, (g.next() >> 11) * 0x1p-53, MPFR_RNDN); mpfr_add(m.v, m.v, d.v, MPFR_RNDN); push_in(p, m, v); }
        if (op == OP_sin || op == OP_cos || op == OP_tan) {   // around the extrema and poles
            long double a = il ? (ih ? -10 : v.hi - 10) : v.lo, b = ih ? (il ? 10 : v.lo + 10) : v.hi;
            if (std::fabs(a) < 1e9L && std::fabs(b) < 1e9L) {
                int k0 = int(std::floor(a / 1.57079632679489661923L)) - 1, k1 = int(std::ceil(b / 1.57079632679489661923L)) + 1;
                for (int k = k0; k <= k1 && k < k0 + 7; ++k) { push_in(p, pi2(k, MPFR_RNDD), v); push_in(p, pi2(k, MPFR_RNDU), v); }
                for (int k = k1; k > k1 - 3; --k) push_in(p, pi2(k, MPFR_RNDD), v);
            }
        }
        if (op == OP_ceil || op == OP_floor || op == OP_trunc || op == OP_round_ties_to_even || op == OP_round_ties_to_away || op == OP_sign) {
            for (long double q : { v.lo, v.hi }) if (!std::isinf(q)) for (int i = -2; i <= 2; ++i) { push_in(p, M(std::floor(q) + i * 0.5L), v); M m(std::floor(q) + i * 0.5L), e; mpfr_set_si_2exp(e.v, 1, -60, MPFR_RNDN); mpfr_add(m.v, m.v, e.v, MPFR_RNDN); push_in(p, m, v); }
        }
    }
    return p;
}
static bool fail(std::string& msg, Step const& s, Outcome const& o, std::string const& what)
{
    msg = std::string(op_names[s.op]); for (int i = 0; i < o.nops; ++i) msg += " " + val_text(o.ops[i]);
    if (op_kinds[s.op] == K_PN || op_kinds[s.op] == K_PN2) msg += " n=" + std::to_string(s.n);
    if (op_kinds[s.op] == K_CTOR) msg += " x=" + num_text(s.x) + " y=" + num_text(s.y);
    msg += " -> " + o.payload + ": " + what; return false;
}
// brackets of solutions x of f(x) = c on the branches near [lo, hi]
static void preimages(int op, long n, M const& c, Val const& X, Rng& g, std::vector<Br>& out)
{
    auto add = [&](Br const& b) { if (!mpfr_nan_p(b.lo.v) && !mpfr_nan_p(b.hi.v) && !mpfr_inf_p(b.lo.v) && !mpfr_inf_p(b.hi.v)) out.push_back(b); };
    auto neg = [&](Br const& b) { Br r; mpfr_neg(r.lo.v, b.hi.v, MPFR_RNDD); mpfr_neg(r.hi.v, b.lo.v, MPFR_RNDU); return r; };
    Br b; int sg = mpfr_sgn(c.v);
    switch (op) {
    case OP_sqr_rev: if (sg < 0) return; BOTH(mpfr_sqrt, c); add(b); add(neg(b)); return;
    case OP_abs_rev: if (sg < 0) return; b.lo = b.hi = c; add(b); add(neg(b)); return;
    case OP_cosh_rev: if (cmpl(c, 1) < 0) return; BOTH(mpfr_acosh, c); add(b); add(neg(b)); return;
    case OP_pown_rev: {
        if (n == 0) return;
        if (sg == 0) { if (n > 0) { mpfr_set_zero(b.lo.v, 1); mpfr_set_zero(b.hi.v, 1); add(b); } return; }
        unsigned long k = n < 0 ? -n : n; bool even = k % 2 == 0; if (even && sg < 0) return;
        M d(c); mpfr_abs(d.v, c.v, MPFR_RNDN); Br e; mpfr_rootn_ui(e.lo.v, d.v, k, MPFR_RNDD); mpfr_rootn_ui(e.hi.v, d.v, k, MPFR_RNDU);
        if (n < 0) { mpfr_ui_div(b.lo.v, 1, e.hi.v, MPFR_RNDD); mpfr_ui_div(b.hi.v, 1, e.lo.v, MPFR_RNDU); } else b = e;
        if (even) { add(b); add(neg(b)); } else add(sg < 0 ? neg(b) : b);
        return; }
    case OP_sin_rev: case OP_cos_rev: case OP_tan_rev: {
        if (op != OP_tan_rev && (cmpl(c, -1) < 0 || cmpl(c, 1) > 0)) return;
        if (op == OP_sin_rev) BOTH(mpfr_asin, c); else if (op == OP_cos_rev) BOTH(mpfr_acos, c); else BOTH(mpfr_atan, c);
        std::vector<long> ks; // multiples of pi/2 to add
        int per = op == OP_tan_rev ? 2 : 4;
        long double lo = X.lo, hi = X.hi; bool il = std::isinf(lo), ih = std::isinf(hi);
        if (il && ih) { for (long k : { 0L, 1L, -1L, 1000L, -1000L, 100000000L, -100000000L }) ks.push_back(k * per); }
        else {
            long double q = per * 1.57079632679489661923L;
            for (long double z : { il ? hi : lo, ih ? lo : hi, il || ih ? 0.0L : lo + (hi - lo) * 0.5L }) if (std::fabs(z) < 1e9L) { long k = long(std::floor(z / q)); for (long d = -2; d <= 2; ++d) ks.push_back((k + d) * per); }
            if (il) ks.push_back(-per * 100000L); if (ih) ks.push_back(per * 100000L);
        }
        std::sort(ks.begin(), ks.end()); ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
        for (long k : ks) {
            Br r; mpfr_add(r.lo.v, b.lo.v, pi2(k, MPFR_RNDD).v, MPFR_RNDD); mpfr_add(r.hi.v, b.hi.v, pi2(k, MPFR_RNDU).v, MPFR_RNDU); if (k == 0) r = b; add(r);
            if (op == OP_sin_rev) { Br t; mpfr_sub(t.lo.v, pi2(k + 2, MPFR_RNDD).v, b.hi.v, MPFR_RNDD); mpfr_sub(t.hi.v, pi2(k + 2, MPFR_RNDU).v, b.lo.v, MPFR_RNDU); add(t); }
            if (op == OP_cos_rev) { Br t; mpfr_sub(t.lo.v, pi2(k, MPFR_RNDD).v, b.hi.v, MPFR_RNDD); mpfr_sub(t.hi.v, pi2(k, MPFR_RNDU).v, b.lo.v, MPFR_RNDU); add(k == 0 ? neg(b) : t); }
        }
        return; }
    }
}
static int fwd_of(int op) { switch (op) { case OP_sqr_rev: return OP_sqr; case OP_abs_rev: return OP_abs; case OP_sin_rev: return OP_sin; case OP_cos_rev: return OP_cos; case OP_tan_rev: return OP_tan; case OP_cosh_rev: return OP_cosh; default: return OP_pown; } }
static int rev_base(int op) { switch (op) { case OP_sqr_rev2: return OP_sqr_rev; case OP_abs_rev2: return OP_abs_rev; case OP_sin_rev2: return OP_sin_rev; case OP_cos_rev2: return OP_cos_rev; case OP_tan_rev2: return OP_tan_rev; case OP_cosh_rev2: return OP_cosh_rev; case OP_pown_rev2: return OP_pown_rev; default: return op; } }
static std::string pt(M const& m) { return mtext(m.v); }
static std::vector<std::string> words(std::string const& x) { std::vector<std::string> v; std::istringstream is(x); std::string t; while (is >> t) v.push_back(t); return v; }

bool check_enclosure(Run const& run, Step const& s, Outcome const& o, std::string& msg, Counters& c)
{
    int k = op_kinds[s.op]; Rng g(mix(run.seed, mix(s.id, o.rep)));
    for (int i = 0; i < o.nops; ++i) if (!o.ops[i].valid()) return true;
    bool nai = false; for (int i = 0; i < o.nops; ++i) if (o.ops[i].nai()) nai = true;
    if (o.exc) return true;
    Val r = o.dst1; Val const &A = o.ops[0], &B = o.ops[1], &C = o.ops[2];
    if (k == K_UN || k == K_BIN || k == K_TER || k == K_PN || k == K_PN2 || k == K_COPY || k == K_CONV || k == K_CTOR || k == K_CONST) {
        if (!r.valid()) return fail(msg, s, o, "result is no valid interval");
    }
    if (nai) return true;
    switch (k) {
    case K_UN: case K_PN: {
        if (s.op == OP_sqr_rev || s.op == OP_abs_rev || s.op == OP_sin_rev || s.op == OP_cos_rev || s.op == OP_tan_rev || s.op == OP_cosh_rev || s.op == OP_pown_rev) break;
        for (auto& x : points(A, g, s.op, 1)) { Br b; c.add("witness.points"); if (eval1(s.op, x, s.n, b) && outside(b, r)) return fail(msg, s, o, "value at " + pt(x) + " is " + pt(b.lo) + ", not enclosed"); }
        return true; }
    case K_BIN:
        switch (s.op) {
        case OP_add: case OP_sub: case OP_mul: case OP_div: case OP_pow: case OP_atan2: case OP_min: case OP_max: {
            auto X = points(A, g, s.op, 0), Y = points(B, g, s.op, 0);
            for (auto& x : X) for (auto& y : Y) { Br b; c.add("witness.points"); if (eval2(s.op, x, y, b) && outside(b, r)) return fail(msg, s, o, "value at (" + pt(x) + ", " + pt(y) + ") is " + pt(b.lo) + ", not enclosed"); }
            return true; }
        case OP_intersection: case OP_convex_hull: {
            for (int w = 0; w < 2; ++w) for (auto& x : points(w ? B : A, g, s.op, 1)) { c.add("witness.points"); if ((s.op == OP_convex_hull || inside(x, w ? A : B)) && !inside(x, r)) return fail(msg, s, o, "loses the point " + pt(x)); }
            if (s.op == OP_convex_hull && !r.empty()) {}
            return true; }
        case OP_cancel_plus: case OP_cancel_minus: {
            if (A.empty()) return true;       // nothing to enclose
            Val Y = B; if (s.op == OP_cancel_plus && !Y.empty()) { long double t = Y.lo; Y.lo = -Y.hi; Y.hi = -t; }
            bool ent = !r.empty() && std::isinf(r.lo) && std::isinf(r.hi); c.add("witness.points");
            if (Y.empty() || std::isinf(A.lo) || std::isinf(A.hi) || std::isinf(Y.lo) || std::isinf(Y.hi)) { if (!ent) return fail(msg, s, o, "must be entire"); return true; }
            M wa(40000, 0), wy(40000, 0), t(40000, 0); mpfr_set_ld(wa.v, A.hi, MPFR_RNDN); mpfr_set_ld(t.v, A.lo, MPFR_RNDN); mpfr_sub(wa.v, wa.v, t.v, MPFR_RNDN); mpfr_set_ld(wy.v, Y.hi, MPFR_RNDN); mpfr_set_ld(t.v, Y.lo, MPFR_RNDN); mpfr_sub(wy.v, wy.v, t.v, MPFR_RNDN);
            if (mpfr_cmp(wa.v, wy.v) < 0) { if (!ent) return fail(msg, s, o, "must be entire"); return true; }
            Br b; M x(A.lo), y(Y.lo); eval2(OP_sub, x, y, b); if (outside(b, r)) return fail(msg, s, o, "difference of the lower bounds not enclosed");
            M x2(A.hi), y2(Y.hi); eval2(OP_sub, x2, y2, b); if (outside(b, r)) return fail(msg, s, o, "difference of the upper bounds not enclosed");
            return true; }
        default: break;
        }
        break;
    case K_TER:
        if (s.op == OP_fma) {
            Val Z = C;
            auto X = points(A, g, s.op, 0), Y = points(B, g, s.op, 0), Zs = points(Z, g, s.op, 0);
            for (auto& x : X) for (auto& y : Y) { M xy(1024, 0); mpfr_mul(xy.v, x.v, y.v, MPFR_RNDN); for (auto& z : Zs) { c.add("witness.points"); Br b; mpfr_add(b.lo.v, xy.v, z.v, MPFR_RNDD); mpfr_add(b.hi.v, xy.v, z.v, MPFR_RNDU); if (outside(b, r)) return fail(msg, s, o, "value at (" + pt(x) + ", " + pt(y) + ", " + pt(z) + ") not enclosed"); } }
            return true;
        }
        break;
    default: break;
    }
    // reverse operations
    int base = rev_base(s.op);
    if (base == OP_sqr_rev || base == OP_abs_rev || base == OP_sin_rev || base == OP_cos_rev || base == OP_tan_rev || base == OP_cosh_rev || base == OP_pown_rev) {
        Val X; X.fmt = FL; X.lo = -INF_; X.hi = INF_; if (o.nops > 1) X = B;
        if (A.empty() || X.empty()) return true;
        for (auto& x : points(X, g, fwd_of(base), 1)) { Br b; if (mpfr_get_exp(x.v) > 18000 && fwd_of(base) != OP_abs && fwd_of(base) != OP_sqr) continue; c.add("witness.points"); if (eval1(fwd_of(base), x, s.n, b) && br_inside(b, A) && !inside(x, r)) return fail(msg, s, o, "loses the solution " + pt(x)); }
        for (auto& y : points(A, g, base, 1)) { std::vector<Br> v; preimages(base, s.n, y, X, g, v); for (auto& b : v) { c.add("witness.points"); if (br_inside(b, X) && outside(b, r)) return fail(msg, s, o, "loses the solution " + pt(b.lo) + " of f(x) = " + pt(y)); } }
        return true;
    }
    if (s.op == OP_mul_rev || s.op == OP_mul_rev3 || s.op == OP_mul_rev_to_pair) {
        Val X; X.fmt = FL; X.lo = -INF_; X.hi = INF_; if (s.op == OP_mul_rev3) X = C;
        if (A.empty() || B.empty() || X.empty()) return true;
        Val r2; r2.lo = r2.hi = std::numeric_limits<long double>::quiet_NaN();
        if (s.op == OP_mul_rev_to_pair) { auto w = words(o.payload); if (w.size() != 2) return fail(msg, s, o, "no pair"); r = val_parse(w[0]); r2 = val_parse(w[1]); if (!r.valid() || !r2.valid()) return fail(msg, s, o, "result is no valid interval"); }
        auto Bs = points(A, g, s.op, 0), Cs = points(B, g, s.op, 0);
        for (auto& b : Bs) for (auto& q : Cs) if (mpfr_sgn(b.v)) { Br x; c.add("witness.points"); eval2(OP_div, q, b, x); if (mpfr_inf_p(x.lo.v) || mpfr_inf_p(x.hi.v)) continue; if (br_inside(x, X) && outside(x, r) && outside(x, r2)) return fail(msg, s, o, "loses the solution " + pt(x.lo)); }
        if (A.lo <= 0 && A.hi >= 0 && B.lo <= 0 && B.hi >= 0) for (auto& x : points(X, g, OP_pos, 1)) if (!inside(x, r) && !inside(x, r2)) return fail(msg, s, o, "loses the solution " + pt(x));
        return true;
    }
    switch (k) {
    case K_COPY: if (!same_num(r.lo, A.lo) && r.lo != A.lo) return fail(msg, s, o, "copy differs"); if (!same_num(r.hi, A.hi) && r.hi != A.hi) return fail(msg, s, o, "copy differs"); return true;
    case K_CONV: if (s.op == OP_setdec && (s.m == ILL || dec_name(s.m)[0] == '?')) return true;
        c.add("witness.points"); if (A.empty()) { if (!r.empty()) return fail(msg, s, o, "conversion of the empty set is not empty"); return true; }
        if (r.empty() || r.lo > A.lo || r.hi < A.hi) return fail(msg, s, o, "conversion does not enclose");
        if (A.fmt <= s.fmt && (r.lo != A.lo || r.hi != A.hi)) return fail(msg, s, o, "widening conversion changes the interval");
        return true;
    case K_CTOR: {
        bool ok = s.x <= s.y && s.x != INF_ && s.y != -INF_; if (s.op == OP_ctor_dec || s.op == OP_ctor_mixed_dec) ok = ok && (s.m == TRV || s.m == DEF || s.m == DAC || (s.m == COM && !std::isinf(s.x) && !std::isinf(s.y)));
        if (!ok) return true;       // error cases: flags and traps
        c.add("witness.points"); if (r.empty() || r.lo > s.x || r.hi < s.y) return fail(msg, s, o, "constructed interval does not enclose the bounds given"); return true; }
    case K_CONST: if (s.op == OP_entire) { if (r.empty() || r.lo != -INF_ || r.hi != INF_) return fail(msg, s, o, "entire is not entire"); } else if (!r.empty()) return fail(msg, s, o, "empty is not empty"); return true;
    case K_NUM: case K_NUM2: {
        c.add("witness.points");
        auto w = words(o.payload); if (w.empty()) return fail(msg, s, o, "no number"); long double v = num_parse(w[0]); bool sf = A.fmt == s.fmt, nar = A.fmt > s.fmt;
        if (A.empty()) { if (s.op == OP_inf ? v != INF_ : s.op == OP_sup ? v != -INF_ : !std::isnan(v)) return fail(msg, s, o, "wrong value for the empty interval"); return true; }
        M lo(A.lo), hi(A.hi), e(40000, 0);
        if (std::isnan(v)) return fail(msg, s, o, "not a number");
        if (s.op == OP_inf) { if (v > A.lo || (!nar && v != A.lo)) return fail(msg, s, o, "is no lower bound"); return true; }
        if (s.op == OP_sup) { if (v < A.hi || (!nar && v != A.hi)) return fail(msg, s, o, "is no upper bound"); return true; }
        bool unb = std::isinf(A.lo) || std::isinf(A.hi);
        if (s.op == OP_mag) { long double x = std::max(std::fabs(A.lo), std::fabs(A.hi)); if (v < x || (!nar && v != x)) return fail(msg, s, o, "is not the magnitude"); return true; }
        if (s.op == OP_mig) { long double x = A.lo <= 0 && A.hi >= 0 ? 0 : std::min(std::fabs(A.lo), std::fabs(A.hi)); if (v > x || (!nar && v != x)) return fail(msg, s, o, "is not the mignitude"); return true; }
        if (s.op == OP_wid) { if (unb) { if (v != INF_) return fail(msg, s, o, "is not the width"); return true; } mpfr_sub(e.v, hi.v, lo.v, MPFR_RNDN); long double u = round_fmt(e.v, s.fmt, MPFR_RNDU); if (mpfr_cmp_ld(e.v, v) > 0 || (!nar && v > u && A.fmt == s.fmt)) return fail(msg, s, o, "is not the width"); return true; }
        // midpoint and radius
        long double m = v, rd = -1; if (s.op == OP_rad) { rd = v; m = std::numeric_limits<long double>::quiet_NaN(); }
        if (s.op == OP_mid_rad) { if (w.size() != 2) return fail(msg, s, o, "no pair"); rd = num_parse(w[1]); }
        if (!std::isnan(m)) {
            if (std::isinf(A.lo) && std::isinf(A.hi)) { if (m != 0) return fail(msg, s, o, "is not the midpoint"); }
            else if (std::isinf(A.lo)) { if (m >= 0 || std::isinf(m)) return fail(msg, s, o, "is not the midpoint"); }
            else if (std::isinf(A.hi)) { if (m <= 0 || std::isinf(m)) return fail(msg, s, o, "is not the midpoint"); }
            else { mpfr_add(e.v, lo.v, hi.v, MPFR_RNDN); mpfr_div_2ui(e.v, e.v, 1, MPFR_RNDN); if (m != round_fmt(e.v, s.fmt, MPFR_RNDN)) { long double d = round_fmt(e.v, s.fmt, MPFR_RNDD), u = round_fmt(e.v, s.fmt, MPFR_RNDU); if (m < d || m > u) return fail(msg, s, o, "is not the midpoint"); M t(40000, 0), t2(40000, 0); mpfr_set_ld(t.v, m, MPFR_RNDN); mpfr_sub(t.v, t.v, e.v, MPFR_RNDN); mpfr_set_ld(t2.v, m == d ? u : d, MPFR_RNDN); mpfr_sub(t2.v, t2.v, e.v, MPFR_RNDN); if (mpfr_cmpabs(t.v, t2.v) > 0) return fail(msg, s, o, "is not the midpoint"); } }
        }
        if (s.op != OP_mid) {
            if (unb) { if (rd != INF_) return fail(msg, s, o, "is not the radius"); return true; }
            if (std::isnan(m)) { mpfr_add(e.v, lo.v, hi.v, MPFR_RNDN); mpfr_div_2ui(e.v, e.v, 1, MPFR_RNDN); m = round_fmt(e.v, s.fmt, MPFR_RNDN); }
            if (std::isinf(m)) return true;
            M a(40000, 0), b(40000, 0), mm(m); mpfr_sub(a.v, mm.v, lo.v, MPFR_RNDN); mpfr_sub(b.v, hi.v, mm.v, MPFR_RNDN); if (mpfr_cmp(a.v, b.v) < 0) mpfr_set(a.v, b.v, MPFR_RNDN);
            if (s.op == OP_rad) { // the midpoint used may be either neighbour in a tie
                mpfr_sub(e.v, hi.v, lo.v, MPFR_RNDN); mpfr_div_2ui(e.v, e.v, 1, MPFR_RNDN); if (mpfr_cmp_ld(e.v, rd) > 0) return fail(msg, s, o, "is smaller than half the width"); if (sf && rd > fmt_next(s.fmt, round_fmt(a.v, s.fmt, MPFR_RNDU), true)) return fail(msg, s, o, "is not the radius"); return true; }
            if (mpfr_cmp_ld(a.v, rd) > 0) return fail(msg, s, o, "midpoint and radius do not enclose the interval");
            if (sf && rd > round_fmt(a.v, s.fmt, MPFR_RNDU)) return fail(msg, s, o, "is not the radius");
        }
        return true; }
    default: return true;
    }
}

// ------------------------------------------------------------------------------------------------ decorations
static bool tan_pole(Val const& v)
{
    if (std::isinf(v.lo) || std::isinf(v.hi)) return true;
    long ex = 10; int e1, e2; std::frexp(v.lo, &e1); std::frexp(v.hi, &e2); ex = std::max(10, std::max(e1, e2));
    M p(ex + 300, 0), a(ex + 300, 0), b(ex + 300, 0); mpfr_const_pi(p.v, MPFR_RNDN);
    mpfr_set_ld(a.v, v.lo, MPFR_RNDN); mpfr_set_ld(b.v, v.hi, MPFR_RNDN); mpfr_div(a.v, a.v, p.v, MPFR_RNDN); mpfr_div(b.v, b.v, p.v, MPFR_RNDN);
    mpfr_sub_d(a.v, a.v, 0.5, MPFR_RNDN); mpfr_sub_d(b.v, b.v, 0.5, MPFR_RNDN); mpfr_floor(a.v, a.v); mpfr_floor(b.v, b.v); return mpfr_cmp(a.v, b.v) != 0;
}
static bool has_int(long double lo, long double hi) { return std::floor(hi) >= lo; }
static bool step_const(int op, Val const& v)
{
    if (std::isinf(v.lo) || std::isinf(v.hi)) return op == OP_sign ? (v.lo > 0 || v.hi < 0) : false;
    Br a, b; M x(v.lo), y(v.hi); eval1(op, x, 0, a); eval1(op, y, 0, b); return mpfr_cmp(a.lo.v, b.lo.v) == 0;
}
static bool step_jump(int op, Val const& v)     // a discontinuity of the function lies in v
{
    switch (op) {
    case OP_sign: return v.lo <= 0 && v.hi >= 0;
    case OP_ceil: case OP_floor: return has_int(v.lo, v.hi);
    case OP_trunc: { if (v.lo > -1 && v.hi < 1) return false; if (v.lo <= -1 && has_int(v.lo, std::min(v.hi, -1.0L))) return true; if (v.hi >= 1 && has_int(std::max(v.lo, 1.0L), v.hi)) return true; return false; }
    default: { // half-integers k + 1/2
        if (std::fabs(v.lo) > 1e18L && std::fabs(v.hi) > 1e18L && (v.lo > 0) == (v.hi > 0)) return false;
        M a(v.lo), b(v.hi); mpfr_sub_d(a.v, a.v, 0.5, MPFR_RNDN); mpfr_sub_d(b.v, b.v, 0.5, MPFR_RNDN); M f(b); mpfr_floor(f.v, b.v); return mpfr_cmp(f.v, a.v) >= 0; }
    }
}
// highest decoration the definition permits
static int dec_limit(Step const& s, Outcome const& o)
{
    int lim = COM; for (int i = 0; i < o.nops; ++i) lim = std::min(lim, int(o.ops[i].dec));
    int k = op_kinds[s.op]; Val const &A = o.ops[0], &B = o.ops[1]; Val C = o.ops[2];
    bool nonempty = true, bounded = true; for (int i = 0; i < o.nops; ++i) { Val const& v = o.ops[i]; if (v.empty()) nonempty = false; else if (std::isinf(v.lo) || std::isinf(v.hi)) bounded = false; }
    (void)C;
    if (k == K_COPY || k == K_CONV) { if (s.op == OP_newdec || s.op == OP_setdec) { lim = A.empty() ? TRV : bounded ? COM : DAC; if (s.op == OP_setdec) lim = std::min(lim, int(s.m)); } return lim; }
    bool rev = false; switch (s.op) { case OP_intersection: case OP_convex_hull: case OP_cancel_plus: case OP_cancel_minus: case OP_sqr_rev: case OP_abs_rev: case OP_sin_rev: case OP_cos_rev: case OP_tan_rev: case OP_cosh_rev: case OP_sqr_rev2: case OP_abs_rev2: case OP_sin_rev2: case OP_cos_rev2: case OP_tan_rev2: case OP_cosh_rev2: case OP_mul_rev: case OP_mul_rev3: case OP_pown_rev: case OP_pown_rev2: rev = true; }
    if (rev) return std::min(lim, int(TRV));
    if (!nonempty) return std::min(lim, int(TRV));
    if (s.op == OP_mul_rev_to_pair) return A.lo <= 0 && A.hi >= 0 ? std::min(lim, int(TRV)) : !bounded ? std::min(lim, int(DAC)) : lim;    // first part: the quotient c / b
    bool def = true, cont = true, cpt = true;
    switch (s.op) {
    case OP_recip: def = !(A.lo <= 0 && A.hi >= 0); break;
    case OP_sqrt: def = A.lo >= 0; break;
    case OP_log: case OP_log2: case OP_log10: def = A.lo > 0; break;
    case OP_tan: def = !tan_pole(A); break;
    case OP_asin: case OP_acos: def = A.lo >= -1 && A.hi <= 1; break;
    case OP_acosh: def = A.lo >= 1; break;
    case OP_atanh: def = A.lo > -1 && A.hi < 1; break;
    case OP_div: def = !(B.lo <= 0 && B.hi >= 0); break;
    case OP_pow: def = A.lo > 0 || (A.lo == 0 && B.lo > 0); break;
    case OP_pown: def = s.n >= 0 || !(A.lo <= 0 && A.hi >= 0); break;
    case OP_atan2: def = !(A.lo <= 0 && A.hi >= 0 && B.lo <= 0 && B.hi >= 0); cont = !(A.lo < 0 && A.hi >= 0 && B.lo < 0); cpt = !(A.lo <= 0 && A.hi >= 0 && B.lo < 0); break;
    case OP_sign: case OP_ceil: case OP_floor: case OP_trunc: case OP_round_ties_to_even: case OP_round_ties_to_away: cont = step_const(s.op, A); cpt = !step_jump(s.op, A); break;
    }
    if (!def) return std::min(lim, int(TRV));
    if (!cont) return std::min(lim, int(DEF));
    if (!bounded || !cpt) return std::min(lim, int(DAC));
    return lim;
}
bool check_decoration(Run const& run, Step const& s, Outcome const& o, std::string& msg, Counters& c)
{
    if (o.exc) return true;
    for (int i = 0; i < o.nops; ++i) if (!o.ops[i].valid()) return true;
    int k = op_kinds[s.op];
    bool nai = false; for (int i = 0; i < o.nops; ++i) if (o.ops[i].nai()) nai = true;
    std::vector<Val> res;
    if (k == K_PAIR) { if (!s.isdec) return true; auto w = words(o.payload); for (auto& x : w) res.push_back(val_parse(x)); }
    else if (k == K_UN || k == K_BIN || k == K_TER || k == K_PN || k == K_PN2 || k == K_COPY || k == K_CONV) { if (!o.dst1.isdec) return true; res.push_back(o.dst1); }
    else if (k == K_CTOR) {
        if (!o.dst1.isdec) return true; Val r = o.dst1; c.add("decoration.checked");
        if (!r.valid()) return fail(msg, s, o, "inconsistent decorated interval");
        bool ok = s.x <= s.y && s.x != INF_ && s.y != -INF_, unb = std::isinf(s.x) || std::isinf(s.y);
        if (s.op == OP_ctor_dec || s.op == OP_ctor_mixed_dec) {
            ok = ok && (s.m == TRV || s.m == DEF || s.m == DAC || s.m == COM); if (s.m == COM && unb) ok = false;
            if (!ok) { if (!r.nai()) return fail(msg, s, o, "impossible construction must give NaI"); return true; }
            if (r.nai()) return fail(msg, s, o, "valid construction gives NaI");
            if (r.dec > s.m) return fail(msg, s, o, "decoration better than requested");
            return true;
        }
        if (!ok) { if (!r.nai()) return fail(msg, s, o, "impossible construction must give NaI"); return true; }
        if (r.nai()) return fail(msg, s, o, "valid construction gives NaI");
        if (r.dec > (unb ? DAC : COM)) return fail(msg, s, o, "decoration too good");
        return true;
    }
    else return true;
    c.add("decoration.checked");
    if (s.op == OP_ipart) return true;
    if (s.op == OP_setdec && (s.m == ILL || dec_name(s.m)[0] == '?')) { if (!res[0].nai()) return fail(msg, s, o, "ill-formed decoration must give NaI"); return true; }
    int lim = nai ? 0 : dec_limit(s, o);
    for (auto& r : res) {
        if (!r.valid()) return fail(msg, s, o, "inconsistent decorated interval");
        if (nai) { if (!r.nai()) return fail(msg, s, o, "NaI is turned into an ordinary interval"); continue; }
        if (r.nai()) return fail(msg, s, o, "NaI from ordinary operands");
        if (s.op == OP_mul_rev_to_pair && &r != &res[0]) lim = std::min(lim, int(TRV));     // second part: a reverse operation
        if (r.dec > lim) return fail(msg, s, o, std::string("decoration ") + dec_name(r.dec) + " but at most " + dec_name(lim) + " is true");
        if (r.dec == COM && (r.empty() || std::isinf(r.lo) || std::isinf(r.hi))) return fail(msg, s, o, "com on an unbounded or empty result");
    }
    return true;
}

// ------------------------------------------------------------------------------------------------ reductions
bool check_reduction(Step const& s, Outcome const& o, std::string& msg, Counters& c)
{
    auto a = words(s.s), b = words(s.e); size_t n = a.size(); if (s.op == OP_dot) n = std::min(n, b.size());
    M acc(140000, 0), t(256, 0), x(64, 0), y(64, 0);
    for (size_t i = 0; i < n; ++i) {
        long double u = num_parse(a[i]), v = s.op == OP_dot ? num_parse(b[i]) : 0; if (!std::isfinite(u) || !std::isfinite(v)) return true;
        mpfr_set_ld(x.v, u, MPFR_RNDN); mpfr_set_ld(y.v, v, MPFR_RNDN);
        switch (s.op) { case OP_sum: mpfr_set(t.v, x.v, MPFR_RNDN); break; case OP_sum_abs: mpfr_abs(t.v, x.v, MPFR_RNDN); break; case OP_sum_sqr: mpfr_sqr(t.v, x.v, MPFR_RNDN); break; default: mpfr_mul(t.v, x.v, y.v, MPFR_RNDN); }
        if (mpfr_add(acc.v, acc.v, t.v, MPFR_RNDN) != 0) { msg = "reference sum is not exact"; return false; }
    }
    static mpfr_rnd_t const R[4] = { MPFR_RNDN, MPFR_RNDD, MPFR_RNDU, MPFR_RNDZ };
    long double want = round_fmt(acc.v, s.fmt, R[s.n & 3]), got = num_parse(o.payload); c.add("reduction.exact");
    if (got != want || std::isnan(got)) { msg = std::string(op_names[s.op]) + " of {" + s.s + "}" + (s.op == OP_dot ? " and {" + s.e + "}" : "") + " mode " + std::to_string(s.n) + " gives " + o.payload + ", correctly rounded is " + num_text(want); return false; }
    return true;
}
} // namespace sim
