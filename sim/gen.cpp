// Seeded generation of runs: workload, faults, ambient changes, schedule profile. Pure function of (property, seed).
#include "engine.hpp"
#include "textgen.hpp"
#include <algorithm>
namespace sim {
static long double const INF_ = std::numeric_limits<long double>::infinity();
static int const EMIN_[3] = { -149, -1074, -16445 }, EMAX_[3] = { 128, 1024, 16384 }, DIG[3] = { 24, 53, 64 };

long double rnd_num(Rng& g, int f)
{
    static long double const PI = 3.14159265358979323846264338327950288L;
    long double x;
    switch (g.below(22)) {
    case 0: x = 0; break;
    case 1: x = 1; break;
    case 2: x = g.range(-5, 5); break;
    case 3: x = g.range(-20, 20) * 0.5L; break;
    case 4: x = std::ldexp(1.0L, EMIN_[f]); break;                                  // smallest subnormal
    case 5: x = std::ldexp(1.0L, EMIN_[f] + DIG[f] - 1); break;                     // smallest normal
    case 6: x = fmt_next(f, INFINITY, false); break;                                // largest
    case 7: x = fmt_next(f, 1, g.chance(1, 2)); break;
    case 8: x = PI * g.range(-8, 8) / 2; break;
    case 9: x = PI * (long double)g.range(-100000, 100000) / 4; break;
    case 10: x = std::ldexp(1.0L, g.range(-8, 8)); break;
    case 11: x = std::ldexp(1.0L, g.range(EMIN_[f], EMAX_[f] - 1)); break;
    case 12: x = (g.next() >> 11) * 0x1p-53L; break;
    case 13: x = ((g.next() >> 11) * 0x1p-53L - 0.5L) * 40; break;
    case 14: x = std::ldexp(1.0L + (g.next() >> 1) * 0x1p-63L, g.range(EMIN_[f], EMAX_[f] - 2)); break;
    case 15: x = std::ldexp(1.0L + (g.next() >> 1) * 0x1p-63L, g.range(-30, 30)); break;
    case 16: x = std::log(2.0L) * (g.chance(1, 2) ? EMAX_[f] : EMIN_[f]) * (g.chance(1, 2) ? 1 : 0.5L); break;   // exp overflow / underflow
    case 17: x = (g.chance(1, 2) ? EMAX_[f] : EMIN_[f]) + g.range(-2, 2); break;
    case 18: x = g.range(-3, 3) * 0.1L; break;
    case 19: x = std::sqrt(std::ldexp(1.0L, EMAX_[f])) * (g.chance(1, 2) ? 1 : 0.75L); break;
    case 20: x = std::ldexp(1.0L, DIG[f] - g.range(-1, 2)) + g.range(-1, 1) * 0.5L; break;                        // around the integers' end
    default: x = std::ldexp((long double)g.range(1, 7), EMIN_[f] + g.range(0, 3)); break;
    }
    if (g.chance(1, 3)) x = -x;
    x = fmt_round(f, x);
    if (g.chance(1, 6)) x = fmt_next(f, x, g.chance(1, 2));
    if (std::isinf(x)) x = fmt_next(f, x, x < 0);
    if (x == 0) x = 0;
    return x;
}
// a number close to a point that matters to the operation
static long double crit_num(Rng& g, int op, int n, int f)
{
    static long double const PI = 3.14159265358979323846264338327950288L; long double x;
    switch (op) {
    case OP_sin: case OP_cos: case OP_tan: case OP_sin_rev2: case OP_cos_rev2: case OP_tan_rev2: x = PI * g.range(-9, 9) / 2; if (g.chance(1, 8)) x = PI * (long double)(g.next() >> g.range(20, 60)) / 2; break;
    case OP_asin: case OP_acos: case OP_atanh: case OP_sin_rev: case OP_cos_rev: x = g.range(-1, 1); break;
    case OP_acosh: case OP_cosh_rev: case OP_cosh_rev2: x = g.range(-1, 2); break;
    case OP_log: case OP_log2: case OP_log10: { static int const b[3] = { 2, 10, 1 }; int k = b[g.below(3)]; x = k == 2 ? std::ldexp(1.0L, g.range(-30, 30)) : k == 10 ? std::pow(10.0L, (long double)g.range(-10, 20)) : g.range(0, 1); break; }
    case OP_exp: case OP_exp2: case OP_exp10: case OP_sinh: case OP_cosh: { long double l = g.chance(1, 2) ? EMAX_[f] : g.chance(1, 2) ? EMIN_[f] : EMIN_[f] + DIG[f]; x = op == OP_exp2 ? l : op == OP_exp10 ? l * 0.30102999566398119521373889472449302L : l * 0.69314718055994530941723212145817657L; if (g.chance(1, 3)) x = g.range(-3, 3); break; }
    case OP_ceil: case OP_floor: case OP_trunc: case OP_sign: case OP_round_ties_to_even: case OP_round_ties_to_away: x = g.range(-9, 9) * 0.5L; if (g.chance(1, 10)) x = std::ldexp(1.0L, DIG[f] - g.range(0, 2)) + g.range(-3, 3) * 0.5L; break;
    case OP_pow: x = g.range(0, 2); if (g.chance(1, 3)) x = g.range(-6, 6) * 0.5L; break;
    case OP_pown: case OP_pown_rev: case OP_pown_rev2: { int m = std::max(1, std::min(2000, std::abs(n))); x = g.chance(1, 3) ? g.range(-1, 1) : std::exp2((long double)(g.chance(1, 2) ? EMAX_[f] : EMIN_[f]) / (op == OP_pown ? m : 1) * (g.chance(1, 2) ? 1 : -1)); if (g.chance(1, 2)) x = -x; break; }
    case OP_sqr: case OP_mul: case OP_mul_rev: case OP_mul_rev3: x = std::sqrt(std::ldexp(1.0L, g.chance(1, 2) ? EMAX_[f] : EMIN_[f])); if (g.chance(1, 3)) x = g.range(-1, 1); break;
    case OP_sqrt: case OP_sqr_rev: case OP_sqr_rev2: { long double r = g.range(0, 3000); x = r * r; break; }
    default: x = g.range(-2, 2);
    }
    switch (g.below(6)) {
    case 0: break;
    case 1: x = fmt_next(f, fmt_round(f, x), g.chance(1, 2)); break;
    default: { long double d = std::ldexp(1.0L + (g.next() >> 1) * 0x1p-63L, -g.range(1, g.chance(1, 2) ? 8 : DIG[f] + 6)); if (g.chance(1, 2)) d *= std::fabs(x); x = g.chance(1, 2) ? x + d : x - d; } }
    x = fmt_round(f, x); if (std::isinf(x)) x = fmt_next(f, x, x < 0); return x == 0 ? 0.0L : x;
}
int rnd_dec_for(Rng& g, Val const& v)
{
    if (v.empty()) return TRV;
    static int const d[4] = { TRV, DEF, DAC, COM };
    bool bounded = !std::isinf(v.lo) && !std::isinf(v.hi);
    if (g.chance(1, 2)) return bounded ? COM : DAC;
    return d[g.below(bounded ? 4 : 3)];
}
Val rnd_val(Rng& g, int f, bool dec)
{
    Val v; v.fmt = f; v.isdec = dec;
    int k = g.below(40);
    if (k < 2) v.lo = v.hi = NAN;
    else if (k < 3) { v.lo = -INF_; v.hi = INF_; }
    else if (k < 5 && dec) { v.lo = v.hi = NAN; v.dec = ILL; return v; }
    else if (k < 9) { v.lo = v.hi = rnd_num(g, f); }
    else if (k < 12) { v.lo = -INF_; v.hi = rnd_num(g, f); }
    else if (k < 15) { v.lo = rnd_num(g, f); v.hi = INF_; }
    else if (k < 18) { v.lo = rnd_num(g, f); v.hi = fmt_next(f, v.lo, true); if (std::isinf(v.hi)) v.hi = v.lo; }
    else if (k < 20) { v.hi = std::fabs(rnd_num(g, f)); v.lo = -v.hi; }
    else if (k < 22) { v.lo = 0; v.hi = std::fabs(rnd_num(g, f)); }
    else if (k < 24) { v.hi = 0; v.lo = -std::fabs(rnd_num(g, f)); }
    else if (k < 28) { v.lo = rnd_num(g, f); long double w = std::fabs(v.lo) * std::ldexp(1.0L, -g.range(1, 20)); v.hi = fmt_round(f, v.lo + w); if (std::isinf(v.hi)) v.hi = v.lo; }
    else if (k < 31) { v.lo = fmt_round(f, ((g.next() >> 11) * 0x1p-53L - 0.5L) * 8); v.hi = fmt_round(f, v.lo + (g.next() >> 11) * 0x1p-53L * 7); }
    else { v.lo = rnd_num(g, f); v.hi = rnd_num(g, f); if (v.lo > v.hi) std::swap(v.lo, v.hi); }
    if (v.lo == 0) v.lo = 0.0L;
    if (v.hi == 0) v.hi = 0.0L;
    if (dec) v.dec = rnd_dec_for(g, v);
    return v;
}

static std::vector<int> ops_of(std::initializer_list<Kind> ks) { std::vector<int> r; for (int i = 0; i < OP_COUNT; ++i) for (Kind k : ks) if (op_kinds[i] == k) r.push_back(i); return r; }
static std::vector<int> const UNS = ops_of({ K_UN }), BINS = ops_of({ K_BIN }), NUMS = ops_of({ K_NUM, K_NUM2 }), BOOLS = ops_of({ K_B1, K_B2, K_MEM, K_OVL }), REDS = ops_of({ K_RED });

struct Gen {
    Rng g; Run& r; int nid = 0; std::vector<int> favour; int lit = 30, mixed = 15, decp = 50, crit_p = 20; std::vector<Val> pool; std::vector<long double> ends;
    Gen(uint64_t seed, Run& r_) : g(seed), r(r_) {}
    Step& push(Step s) { s.id = nid++; r.steps.push_back(s); return r.steps.back(); }
    Step& env(int t, std::string const& e) { Step s; s.thr = t; s.op = OP_env; s.e = e; return push(s); }
    // interval whose bounds are few numbers and their neighbours: equal and nearly equal bounds in all formats
    Val end_val(int f, bool d)
    {
        Val v; v.fmt = f; v.isdec = d; if (g.chance(1, 12)) { v.lo = v.hi = NAN; v.dec = d && g.chance(1, 2) ? ILL : TRV; return v; }
        auto one = [&]() { long double x = g.pick(ends); x = fmt_round(f, x); if (g.chance(1, 8)) x = fmt_next(f, x, g.chance(1, 2)); if (g.chance(1, 10)) x = g.chance(1, 2) ? INF_ : -INF_; return x == 0 ? 0.0L : x; };
        v.lo = one(); v.hi = g.chance(1, 4) ? v.lo : one(); if (v.lo > v.hi) std::swap(v.lo, v.hi); if (v.lo == INF_) v.lo = fmt_next(f, v.lo, false); if (v.hi == -INF_) v.hi = fmt_next(f, v.hi, true);
        if (d) v.dec = rnd_dec_for(g, v); return v;
    }
    // interval between two numbers that matter to the operation
    Arg crit_arg(int op, int n, int f, bool d)
    {
        Arg a; a.fmt = f; a.isdec = d; a.kind = 'v'; Val& v = a.v; v.fmt = f; v.isdec = d; v.lo = crit_num(g, op, n, f); v.hi = g.chance(1, 6) ? v.lo : g.chance(1, 8) ? INF_ : crit_num(g, op, n, f);
        if (v.lo > v.hi) std::swap(v.lo, v.hi); if (g.chance(1, 10)) v.lo = -INF_; if (d) v.dec = rnd_dec_for(g, v); return a;
    }
    Arg arg(int f, bool d)
    {
        Arg a; a.fmt = f; a.isdec = d;
        int k = g.below(100);
        if (!ends.empty() && g.chance(3, 4)) { a.kind = 'v'; a.v = end_val(f, d); return a; }
        if (k < lit) {
            a.kind = 'v';
            if (!pool.empty() && g.chance(1, 3)) { Val v = g.pick(pool); a.v = v; a.v.fmt = f; a.v.lo = fmt_round(f, v.lo); a.v.hi = fmt_round(f, v.hi); a.v.isdec = d; if (std::isinf(a.v.lo) && a.v.lo > 0) a.v.lo = fmt_next(f, a.v.lo, false); if (std::isinf(a.v.hi) && a.v.hi < 0) a.v.hi = fmt_next(f, a.v.hi, true); a.v.dec = rnd_dec_for(g, a.v); }
            else { a.v = rnd_val(g, f, d); if (pool.size() < 6) pool.push_back(a.v); }
        } else if (k < lit + 20) { a.kind = 's'; a.idx = g.below(NSHARED); }
        else { a.kind = 'r'; a.idx = g.below(NREG); }
        return a;
    }
    void init_regs(int nthr)
    {
        r.nthr = nthr;
        for (int f = 0; f < 3; ++f) for (int d = 0; d < 2; ++d) {
            for (int i = 0; i < NSHARED; ++i) r.shared[f][d].push_back(rnd_val(g, f, d));
            for (int t = 0; t < nthr; ++t) for (int i = 0; i < NREG; ++i) r.init[t][f][d].push_back(rnd_val(g, f, d));
        }
    }
    int pick_int() { if (g.chance(1, 20)) { static int const e[] = { 2147483647, -2147483647, -2147483647 - 1, 2147483646, -2147483646, 1 << 30, 65536, 65537, -65536, 16384, 16445, -16446, 1074, 1075, -1022, -1023, 149, -126 }; return e[g.below(18)]; } switch (g.below(8)) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return g.range(2, 9); case 4: return -g.range(2, 9); case 5: return g.range(-100, 100); case 6: return g.range(-3, 3); default: return g.chance(1, 2) ? g.range(-2000, 2000) : g.range(-5, 5); } }
    // operands whose product or quotient lies where the format ends: around the subnormal numbers or the overflow threshold
    void edge_args(Step& s, int const* fa)
    {
        int na = op_nargs(s.op); int t = s.fmt; bool quot = !(s.op == OP_mul || s.op == OP_fma);
        int T = g.chance(2, 3) ? EMIN_[t] + g.range(-3, DIG[t] + 4) : EMAX_[t] - g.range(-3, 5);
        int i0 = s.op == OP_mul_rev || s.op == OP_mul_rev3 || s.op == OP_mul_rev_to_pair ? 1 : 0, i1 = 1 - i0, e0 = 0, e1 = 0; bool fit = false;      // first operand of the quotient
        for (int k = 0; k < 12 && !fit; ++k) { e0 = g.chance(1, 3) ? g.range(-4, 4) : g.range(EMIN_[fa[i0]], EMAX_[fa[i0]] - 1); e1 = quot ? e0 - T : T - e0; fit = e1 >= EMIN_[fa[i1]] && e1 < EMAX_[fa[i1]]; if (!fit && g.chance(1, 2)) { e1 = g.range(-3, 3); e0 = quot ? T + e1 : T - e1; fit = e0 >= EMIN_[fa[i0]] && e0 < EMAX_[fa[i0]]; } }
        if (!fit) return;
        auto make = [&](int f, int e) {
            Arg a; a.fmt = f; a.isdec = s.isdec; a.kind = 'v'; Val& v = a.v; v.fmt = f; v.isdec = s.isdec;
            auto num = [&](int e) { long double m = g.chance(1, 3) ? (long double)g.range(1, 7) / 4 : 1.0L + (g.next() >> 1) * 0x1p-63L; long double x = fmt_round(f, std::ldexp(m, std::max(EMIN_[f], std::min(EMAX_[f] - 1, e)))); return std::isinf(x) ? fmt_next(f, x, false) : x; };
            v.lo = num(e); v.hi = g.chance(1, 3) ? v.lo : g.chance(1, 2) ? fmt_next(f, v.lo, true) : num(e + g.range(0, 3)); if (std::isinf(v.hi)) v.hi = v.lo;
            if (g.chance(1, 8)) v.lo = g.chance(1, 2) ? 0.0L : -num(e + g.range(-2, 2));
            if (v.lo > v.hi) std::swap(v.lo, v.hi);
            if (g.chance(1, 2)) { long double z = v.lo; v.lo = -v.hi; v.hi = -z; }
            if (v.lo == 0) v.lo = 0.0L;
            if (v.hi == 0) v.hi = 0.0L;
            if (s.isdec) v.dec = rnd_dec_for(g, v);
            return a; };
        s.a[i0] = make(fa[i0], e0); s.a[i1] = make(fa[i1], e1);
        if (na == 3 && s.op == OP_fma) s.a[2] = make(fa[2], std::max(EMIN_[fa[2]], std::min(EMAX_[fa[2]] - 1, T + g.range(-3, 3))));
    }
    // one numeric step
    Step num_step(int t, std::vector<int> const& ops)
    {
        Step s; s.thr = t; s.op = g.pick(ops); s.fmt = g.below(3); s.isdec = int(g.below(100)) < decp; s.dst = g.below(NREG);
        int na = op_nargs(s.op); int k = op_kinds[s.op];
        int fa[3] = { s.fmt, s.fmt, s.fmt };
        if (int(g.below(100)) < mixed && k != K_B1 && k != K_MEM && k != K_COPY) {
            if (na == 1) fa[0] = g.below(3);
            else if (k == K_B2 || k == K_OVL) fa[1] = g.below(3);
            else { fa[0] = g.below(3); fa[1] = g.below(3); if (na == 3) fa[2] = g.below(3); }
        }
        if (k == K_PN || k == K_PN2) s.n = pick_int();
        bool crit = int(g.below(100)) < crit_p && (k == K_UN || k == K_BIN || k == K_TER || k == K_PN || k == K_PN2 || k == K_PAIR);
        for (int i = 0; i < na; ++i) s.a[i] = crit && (i == 0 || g.chance(1, 2)) ? crit_arg(s.op, int(s.n), fa[i], s.isdec) : arg(fa[i], s.isdec);
        if ((s.op == OP_mul || s.op == OP_div || s.op == OP_fma || s.op == OP_mul_rev || s.op == OP_mul_rev3 || s.op == OP_mul_rev_to_pair || s.op == OP_atan2) && ends.empty() && int(g.below(100)) < crit_p) edge_args(s, fa);
        else if (na == 2 && g.chance(1, 12)) s.a[1] = s.a[0];
        if (na == 2 && s.a[1].fmt != fa[1]) s.a[1] = arg(fa[1], s.isdec);
        s.m = g.chance(1, 2) ? 0 : g.range(1, 3);      // form of the call
        if (s.op == OP_is_nai || s.op == OP_decoration) { s.isdec = true; s.a[0] = arg(s.fmt, true); }
        if (k == K_MEM) { s.x = rnd_num(g, s.fmt); s.n = g.chance(1, 4); if (s.n) s.x = fmt_round(FD, s.x); if (g.chance(1, 12)) s.x = g.chance(1, 2) ? INF_ : NAN; }
        return s;
    }
    Step ctor_step(int t, bool bad)
    {
        static int const cs[4] = { OP_ctor, OP_ctor_dec, OP_ctor_mixed, OP_ctor_mixed_dec };
        Step s; s.thr = t; s.op = cs[g.below(4)]; s.fmt = g.below(3); s.isdec = g.chance(1, 2); s.dst = g.below(NREG);
        if (s.op == OP_ctor_dec || s.op == OP_ctor_mixed_dec) s.isdec = true;
        s.n = g.below(s.op == OP_ctor_mixed_dec ? 2 : 4);
        int fl = s.fmt, fu = s.fmt;
        if (s.op == OP_ctor_mixed) { static int const L[4] = { FD, FF, FL, FL }, U[4] = { FL, FD, FF, FD }; fl = L[s.n]; fu = U[s.n]; }
        if (s.op == OP_ctor_mixed_dec) { fl = s.n ? FF : FD; fu = s.n ? FD : FL; }
        s.x = rnd_num(g, fl); s.y = rnd_num(g, fu);
        if (g.chance(1, 6)) s.x = -INF_;
        if (g.chance(1, 6)) s.y = INF_;
        if ((s.x > s.y) != bad && g.chance(9, 10)) { if (fl == fu) std::swap(s.x, s.y); else { s.x = bad ? 3 : -3; s.y = bad ? -2 : 2; } }
        if (g.chance(1, bad ? 6 : 40)) { switch (g.below(5)) { case 0: s.x = NAN; break; case 1: s.y = NAN; break; case 2: s.x = s.y = NAN; break; case 3: s.x = s.y = INF_; break; default: s.x = s.y = -INF_; } }
        static int const ds[6] = { TRV, DEF, DAC, COM, COM, ILL };
        s.m = ds[g.below(6)]; if (bad && g.chance(1, 12)) s.m = 7;
        return s;
    }
    Step conv_step(int t)
    {
        static int const cs[4] = { OP_conv, OP_newdec, OP_ipart, OP_setdec };
        Step s; s.thr = t; s.op = cs[g.below(4)]; s.fmt = g.below(3); s.isdec = s.op == OP_conv ? g.chance(1, 2) : s.op != OP_ipart; s.dst = g.below(NREG);
        int fa = g.below(3); s.a[0] = arg(fa, s.op == OP_conv ? s.isdec : s.op == OP_ipart);
        static int const ds[6] = { TRV, DEF, DAC, COM, ILL, 7 }; s.m = ds[g.below(g.chance(1, 10) ? 6 : 5)];
        return s;
    }
    Step const_step(int t) { static int const cs[3] = { OP_empty, OP_entire, OP_nai }; Step s; s.thr = t; s.op = cs[g.below(3)]; s.fmt = g.below(3); s.isdec = s.op == OP_nai || g.chance(1, 2); s.dst = g.below(NREG); return s; }
    Step copy_step(int t) { Step s; s.thr = t; s.op = g.chance(1, 2) ? OP_copy : OP_assign; s.fmt = g.below(3); s.isdec = g.chance(1, 2); s.dst = g.below(NREG); s.a[0] = arg(s.fmt, s.isdec); return s; }
    Step txt_step(int t, bool bad) { Step s; s.thr = t; s.op = OP_txt; s.fmt = g.below(3); s.isdec = g.chance(1, 2); s.dst = g.below(NREG); s.s = bad ? bad_literal(g) : literal(g, s.fmt, true); if (g.chance(1, 8)) s.s = " \t" + s.s + " "; return s; }
    Step red_step(int t, int maxn = 12)
    {
        Step s; s.thr = t; s.op = g.pick(REDS); s.fmt = g.below(3); s.n = g.below(4); s.chunk = g.below(2); if (g.chance(1, 5)) { s.chunk = 2 + g.below(2); if (s.chunk == 2 && maxn > 6) maxn = 6; }
        int n = g.chance(1, 20) ? 0 : g.range(1, maxn); std::vector<long double> a, b;
        int mode = g.below(6);
        for (int i = 0; i < n; ++i) {
            long double x, y;
            if (mode == 0) { x = rnd_num(g, s.fmt); y = rnd_num(g, s.fmt); }
            else if (mode == 1) { x = g.range(-9, 9); y = g.range(-9, 9); }
            else if (mode == 2) { x = std::ldexp((long double)g.range(-9, 9), g.range(EMIN_[s.fmt], EMIN_[s.fmt] + 60)); y = std::ldexp((long double)g.range(-9, 9), g.range(-40, 5)); }
            else if (mode == 3) { x = fmt_round(s.fmt, std::ldexp((long double)g.range(-9, 9) / 9, EMAX_[s.fmt] - g.range(0, 4))); y = g.range(-3, 3) * 0.5L; }
            else if (mode == 4) { x = fmt_round(s.fmt, std::ldexp((long double)(long)g.next(), g.range(-100, 40))); y = fmt_round(s.fmt, std::ldexp((long double)(long)g.next(), g.range(-100, 0))); }
            else { x = rnd_num(g, s.fmt); y = rnd_num(g, s.fmt); if (i > 0 && g.chance(1, 2)) { x = -a[g.below(a.size())]; y = b[g.below(b.size())]; } }
            if (std::isinf(x)) x = 1;
            if (std::isinf(y)) y = 1;
            a.push_back(x); b.push_back(y);
        }
        if (g.chance(1, 25) && n) { a[g.below(n)] = g.chance(1, 2) ? INF_ : g.chance(1, 2) ? -INF_ : NAN; }
        for (auto x : a) s.s += (s.s.empty() ? "" : " ") + num_text(x);
        if (s.op == OP_dot) for (auto x : b) s.e += (s.e.empty() ? "" : " ") + num_text(x);
        return s;
    }
    std::string env_any(bool locale = false)
    {
        switch (g.below(locale ? 14 : 12)) {
        case 0: case 1: return "rnd:" + std::to_string(g.below(4));
        case 2: return "emin:" + std::to_string(-long(g.below(g.chance(1, 2) ? 200 : 20000)) - 1);
        case 3: return "emax:" + std::to_string(long(g.below(g.chance(1, 2) ? 200 : 20000)) + 1);
        case 4: return "prec:" + std::to_string(2 + g.below(g.chance(1, 2) ? 20 : 300));
        case 5: return "mrnd:" + std::to_string(g.below(4));
        case 6: return "mflags:" + std::to_string(g.below(32));
        case 7: return "fcache";
        case 8: return "teardown:" + std::to_string(g.below(3));
        case 9: return "fpe:" + std::to_string(g.below(2));
        case 10: return "setup:" + std::to_string(g.below(3));
        case 11: return "clear";
        case 12: return g.chance(1, 2) ? "locale:de" : g.chance(1, 2) ? "locale:tr" : "locale:C";
        default: return g.chance(1, 2) ? "gloc:comma" : g.chance(1, 2) ? "gloc:tr" : "gloc:C";
        }
    }
    std::string manip_any()
    {
        switch (g.below(24)) {
        case 0: return "upper"; case 1: return "lower"; case 2: return "sw:" + std::to_string(g.chance(1, 10) ? g.below(1200) : g.below(60)); case 3: return "infsup"; case 4: return "unc"; case 5: return "uncup"; case 6: return "uncdn";
        case 7: return "dsci"; case 8: return "dec"; case 9: return "sci"; case 10: case 11: return "hex"; case 12: return "w:" + std::to_string(g.chance(1, 10) ? g.below(1200) : g.below(40)); case 13: return "p:" + std::to_string(g.chance(1, 12) ? g.below(1500) : g.below(g.chance(1, 8) ? 60 : 20)); case 14: return "stext"; case 15: return "sbounds"; case 16: return "snob";
        case 17: return "punc"; case 18: return "nopunc"; case 19: return "uexp"; case 20: return "nouexp"; case 21: return "dalpha"; case 22: return "dnum"; default: return "p:0";
        }
    }
    std::string std_manip() { static char const* m[] = { "std:hex", "std:dec", "std:showpos", "std:showbase", "std:left", "std:right", "std:fill:*", "std:fill:0", "std:prec:3", "std:prec:12", "std:uppercase", "std:fixed", "std:sci", "oalpha", "onum", "std:unitbuf", "std:comma", "std:ctype", "std:internal", "std:oct", "std:boolalpha" }; return m[g.below(21)]; }
    void open_step(int t, std::string const& text, int mask = 0, long chunk = 1, long cut = 0, char kind = 0, std::string const& e = "")
    { Step s; s.thr = t; s.op = OP_open; s.s = text; s.mask = mask; s.chunk = chunk; s.cut = cut; s.cutk = kind; s.e = e; s.n = chunk > 64 ? long(g.below(1000)) : 0; push(s); }
    void rd_step(int t) { Step s; s.thr = t; s.op = g.chance(1, 20) ? OP_rddec : OP_rd; s.fmt = g.below(3); s.isdec = g.chance(1, 2); s.dst = g.below(NREG); push(s); }
    Step wr_step(int t) { Step s; s.thr = t; int k = g.below(20); s.op = k == 0 ? OP_wrdec : k == 1 ? OP_wrovl : OP_wr; static int const ds[5] = { 0, 4, 8, 12, 16 }; if (k == 0) s.n = ds[g.below(5)]; if (k == 1) s.n = g.below(17) ? 1 << g.below(16) : 0; if (s.op == OP_wr) { bool d = g.chance(1, 2); s.a[0] = arg(g.below(3), d); } return s; }
    long rnd_chunk() { switch (g.below(5)) { case 0: return 1; case 1: return g.range(2, 7); case 2: return 64; case 3: return -1; default: return 64 + g.range(3, 12); } }
    std::vector<int> swarm(std::vector<int> const& all, int n) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(g.pick(all)); return v; }
    std::vector<int> arith_ops()
    {
        std::vector<int> v = g.chance(1, 3) ? ops_of({ K_UN, K_BIN, K_TER, K_PN, K_PN2, K_PAIR }) : swarm(ops_of({ K_UN, K_BIN, K_TER, K_PN, K_PN2, K_PAIR }), g.range(2, 8));
        return v;
    }
};

static void gen_C01(Gen& G)
{
    Rng& g = G.g; G.init_regs(1); auto ar = G.arith_ops(); int n = g.range(5, 24); bool traps = g.chance(1, 5); bool io = g.chance(1, 3);
    int envp = g.pick(std::vector<int>{ 0, 10, 25, 40 });
    for (int i = 0; i < n; ++i) {
        int k = g.below(100);
        if (k < envp) { G.env(0, traps && g.chance(1, 3) ? "cwd:" + std::to_string(g.below(16)) : G.env_any()); continue; }
        Step s; k = g.below(20);
        if (k < 10) s = G.num_step(0, ar);
        else if (k < 12) s = G.num_step(0, NUMS);
        else if (k < 14) s = G.num_step(0, BOOLS);
        else if (k == 14) s = G.ctor_step(0, g.chance(1, 3));
        else if (k == 15) s = g.chance(1, 2) ? G.conv_step(0) : g.chance(1, 2) ? G.copy_step(0) : G.const_step(0);
        else if (k == 16) s = G.txt_step(0, g.chance(1, 4));
        else if (k == 17) s = G.red_step(0);
        else if (k == 18 && io) { int c = g.below(3); if (c == 0) { G.open_step(0, literal(g, g.below(3), true), 0, 64); G.rd_step(0); } else { Step w; w.op = OP_wopen; G.push(w); int m = g.below(4); for (int j = 0; j < m; ++j) { Step x; x.op = OP_manip; x.e = G.manip_any(); G.push(x); } G.push(G.wr_step(0)); } continue; }
        else if (!G.r.steps.empty() && op_kinds[G.r.steps.back().op] < K_RED) { s = G.r.steps[g.below(G.r.steps.size())]; if (op_kinds[s.op] >= K_RED) s = G.num_step(0, ar); s.alloc = 0; }
        else s = G.num_step(0, ar);
        if (g.chance(1, 40) && op_kinds[s.op] != K_IO) s.alloc = g.range(1, 5);
        G.push(s);
    }
}
// an operand of the same shape: signs, infinities and equal bounds stay
static Val alike(Rng& g, Val v)
{
    auto m = [&](long double x) { if (x == 0 || std::isinf(x) || x != x) return x; long double y = fmt_round(v.fmt, x * (1 + g.range(-6, 6) / 64.0L)); return std::isinf(y) || y == 0 ? x : y; };
    bool point = v.lo == v.hi; v.lo = m(v.lo); v.hi = point ? v.lo : m(v.hi); if (v.lo > v.hi) std::swap(v.lo, v.hi);
    return v;
}
static std::string alike(Rng& g, std::string t) { for (size_t i = 0; i < t.size(); ++i) if (t[i] > '0' && t[i] <= '9' && g.chance(1, 3) && !(i && (t[i - 1] == 'e' || t[i - 1] == 'E' || t[i - 1] == '+' || t[i - 1] == '-'))) t[i] = char('1' + g.below(9)); return t; }
// several threads do the same thing to other operands, or write alike intervals in other formats
static void gen_twin(Gen& G)
{
    Rng& g = G.g; int nt = g.chance(3, 4) ? 2 : 3; G.init_regs(nt); G.lit = 100; G.r.profile = g.chance(2, 5) ? 18 + g.below(4) : g.below(18); int per = g.range(1, 4);
    int what = g.below(10); int f = g.below(3); bool d = g.chance(1, 2);
    if (what < 4) {     // the same function
        auto all = ops_of({ K_UN, K_BIN, K_TER, K_PN, K_PN2, K_PAIR, K_NUM, K_NUM2, K_B1, K_B2, K_OVL }); std::vector<Step> base; for (int i = 0; i < g.range(1, 2); ++i) base.push_back(G.num_step(0, all));
        for (int t = 0; t < nt; ++t) for (int i = 0; i < per; ++i) { Step s = base[i % base.size()]; s.thr = t; s.dst = g.below(NREG); for (auto& a : s.a) if (a.kind == 'v') a.v = alike(g, a.v); G.push(s); }
    } else if (what < 6) {      // literals of the same form
        std::string b = g.chance(1, 8) ? bad_literal(g) : literal(g, f, true); bool rd = g.chance(1, 3);
        for (int t = 0; t < nt; ++t) for (int i = 0; i < per; ++i) { std::string x = alike(g, b); if (rd) { G.open_step(t, x, 0, G.rnd_chunk()); G.rd_step(t); G.r.steps.back().fmt = f; } else { Step s = G.txt_step(t, false); s.fmt = f; s.isdec = d; s.s = x; G.push(s); } }
    } else if (what < 9) {      // writing intervals of the same kind
        std::vector<std::string> common; int m = g.below(4); for (int j = 0; j < m; ++j) common.push_back(G.manip_any());
        if (g.chance(2, 3)) common.push_back(g.pick(std::vector<std::string>{ "unc", "uncup", "uncdn", "infsup" }));
        Val v = rnd_val(g, f, d);
        if (g.chance(1, 4)) { v.lo = -INF_; v.hi = INF_; v.dec = DAC; } else if (g.chance(1, 8)) { v.lo = v.hi = NAN; v.dec = TRV; }
        for (int t = 0; t < nt; ++t) {
            Step w; w.thr = t; w.op = OP_wopen; w.m = 7; G.push(w); for (auto& e : common) { Step x; x.thr = t; x.op = OP_manip; x.e = e; G.push(x); }
            for (int i = 0; i < per; ++i) {
                if (g.chance(2, 3)) { Step x; x.thr = t; x.op = OP_manip; x.e = g.pick(std::vector<std::string>{ "p:2", "p:5", "p:11", "p:17", "p:30", "p:0", "upper", "lower", "uexp", "nouexp", "sci", "dec", "hex", "sw:40", "w:25", "dnum", "dalpha" }); G.push(x); }
                Step y; y.thr = t; y.op = OP_wr; y.a[0].kind = 'v'; y.a[0].fmt = f; y.a[0].isdec = d; y.a[0].v = alike(g, v); G.push(y); if (g.chance(1, 2)) G.push(y); }
        }
    } else { Step b = G.red_step(0, 5); for (int t = 0; t < nt; ++t) for (int i = 0; i < per; ++i) { Step s = G.red_step(t, 5); s.op = b.op; s.fmt = b.fmt; if (s.op == OP_dot ? s.e.empty() : !s.e.empty()) s = b; s.thr = t; G.push(s); } }
}
static void gen_C02(Gen& G)
{
    Rng& g = G.g; if (g.chance(2, 5)) { gen_twin(G); return; } int nt = g.chance(3, 4) ? 2 : 3; G.init_regs(nt); auto ar = G.arith_ops(); G.lit = 45; G.r.profile = g.chance(1, 4) ? 18 + g.below(4) : g.below(18);
    int focus = g.below(10); if (focus >= 8) focus = 0;      // swarm: what the threads do at the same time
    std::vector<std::string> lits; for (int i = 0; i < 3; ++i) lits.push_back(literal(g, g.below(3), true));
    int per = g.range(1, focus < 3 ? 7 : 4);
    bool same = g.chance(1, 2); int sf = g.below(3), sd = g.below(3);       // all threads in the same few instantiations
    if (same) ar = G.swarm(ops_of({ K_UN, K_BIN, K_TER, K_PN, K_PN2, K_PAIR }), g.range(1, 5));
    auto num = [&](int t, std::vector<int> const& v) { Step s; for (int i = 0; i < 12; ++i) { s = G.num_step(t, v); if (!same || (s.fmt == sf && (sd == 2 || int(s.isdec) == sd))) break; } return s; };
    for (int t = 0; t < nt; ++t) {
        bool env = g.chance(1, 4);
        for (int i = 0; i < per; ++i) {
            if (env && g.chance(1, 4)) { G.env(t, g.chance(1, 4) ? "cwd:" + std::to_string(g.below(16)) : G.env_any()); continue; }
            int k = g.below(10); Step s;
            switch (focus) {
            case 0: case 1: s = num(t, ar); break;
            case 2: s = k < 5 ? num(t, ar) : k < 7 ? num(t, NUMS) : num(t, BOOLS); break;
            case 3: s = G.txt_step(t, g.chance(1, 6)); if (g.chance(1, 2)) s.s = g.pick(lits); break;
            case 4: s = G.red_step(t); break;
            case 5: { Step w; w.thr = t; w.op = OP_wopen; w.m = 7; G.push(w); int m = g.below(4); for (int j = 0; j < m; ++j) { Step x; x.thr = t; x.op = OP_manip; x.e = G.manip_any(); G.push(x); } Step y = G.wr_step(t); G.push(y); if (g.chance(1, 2)) G.push(y); continue; }
            case 6: G.open_step(t, g.chance(1, 2) ? g.pick(lits) : literal(g, g.below(3), true), 0, G.rnd_chunk()); G.rd_step(t); continue;
            default:
                if (k < 3) s = num(t, ar); else if (k == 3) s = G.ctor_step(t, g.chance(1, 2)); else if (k == 4) s = G.conv_step(t); else if (k == 5) s = G.txt_step(t, g.chance(1, 4)); else if (k == 6) s = G.red_step(t, 6); else if (k == 7) s = num(t, NUMS); else if (k == 8) s = num(t, BOOLS); else s = G.copy_step(t);
            }
            G.push(s);
        }
    }
}
static void gen_C03(Gen& G, bool deco)
{
    Rng& g = G.g; G.init_regs(1); G.decp = deco ? 100 : 35; G.lit = 45; int n = g.range(6, 30); auto ar = G.arith_ops(); int envp = g.pick(std::vector<int>{ 0, 0, 10, 25 });
    for (int i = 0; i < n; ++i) {
        if (int(g.below(100)) < envp) { G.env(0, G.env_any()); continue; }
        int k = g.below(20); Step s;
        if (k < 14) {
            s = G.num_step(0, ar);
            // a reverse operation on the result of its forward function
            static int const pairs[][2] = { { OP_sqr, OP_sqr_rev2 }, { OP_abs, OP_abs_rev2 }, { OP_sin, OP_sin_rev2 }, { OP_cos, OP_cos_rev2 }, { OP_tan, OP_tan_rev2 }, { OP_cosh, OP_cosh_rev2 } };
            if (g.chance(1, 6)) {
                int q = g.below(7); int f = g.below(3); bool d = int(g.below(100)) < G.decp; Step a; a.op = q < 6 ? pairs[q][0] : OP_pown; a.fmt = f; a.isdec = d; a.dst = g.below(NREG); a.a[0] = G.arg(f, d); if (q == 6) a.n = G.pick_int(); G.push(a);
                Step b; b.op = q < 6 ? pairs[q][1] : OP_pown_rev2; b.n = a.n; b.fmt = f; b.isdec = d; b.dst = g.below(NREG); b.a[0].kind = 'r'; b.a[0].fmt = f; b.a[0].isdec = d; b.a[0].idx = a.dst; b.a[1] = g.chance(1, 2) && !(a.a[0].kind == 'r' && a.a[0].idx == a.dst) ? a.a[0] : G.arg(f, d);
                if (g.chance(1, 4) && q != 6) { b.op = OP_sqr_rev + q; b.a[1] = Arg(); b.op = q == 0 ? OP_sqr_rev : q == 1 ? OP_abs_rev : q == 2 ? OP_sin_rev : q == 3 ? OP_cos_rev : q == 4 ? OP_tan_rev : OP_cosh_rev; }
                G.push(b); continue; }
        }
        else if (k < 17) s = deco ? (g.chance(1, 2) ? G.conv_step(0) : G.ctor_step(0, g.chance(1, 4))) : G.num_step(0, NUMS);
        else if (k == 17) s = G.ctor_step(0, false);
        else if (k == 18) s = G.conv_step(0);
        else s = g.chance(1, 2) ? G.txt_step(0, g.chance(1, 6)) : G.copy_step(0);
        G.push(s);
    }
}
// C15: one format, C16: relations, C17: mixed formats; in histories with ambient changes, failed steps and other threads
static void gen_C15(Gen& G, int prop)
{
    Rng& g = G.g; int nt = g.chance(1, 5) ? 2 : 1; G.init_regs(nt); G.r.profile = nt == 1 ? 0 : g.below(22); G.decp = 35; G.lit = 50; G.mixed = prop == 15 ? 0 : prop == 17 ? 100 : 40; G.crit_p = 40;
    int envp = g.pick(std::vector<int>{ 0, 0, 10, 25 }); auto ar = G.arith_ops(); int per = nt == 1 ? g.range(8, 40) : g.range(4, 12);
    if (prop == 16 || g.chance(1, 5)) { int m = g.range(2, 5), f = g.below(3); for (int i = 0; i < m; ++i) { G.ends.push_back(rnd_num(g, f)); if (g.chance(1, 3)) G.ends.push_back(-G.ends.back()); } if (g.chance(1, 2)) G.ends.push_back(0); }
    for (int t = 0; t < nt; ++t) for (int i = 0; i < per; ++i) {
        if (int(g.below(100)) < envp) { G.env(t, G.env_any()); continue; }
        int k = g.below(20); Step s;
        if (prop == 15 && g.chance(1, 10)) s = G.txt_step(t, g.chance(1, 8));
        else if (prop == 16) { if (k < 16) s = G.num_step(t, BOOLS); else if (k < 18) s = G.num_step(t, ar); else s = g.chance(1, 2) ? G.ctor_step(t, g.chance(1, 3)) : G.conv_step(t); }
        else if (k < 15) s = G.num_step(t, ar);
        else if (k < 17) s = G.num_step(t, NUMS);
        else if (k == 17) s = G.ctor_step(t, g.chance(1, 6));
        else if (k == 18) s = G.conv_step(t);
        else s = g.chance(1, 2) ? G.copy_step(t) : G.txt_step(t, g.chance(1, 3));
        if (g.chance(1, 40) && op_kinds[s.op] != K_IO) s.alloc = g.range(1, 5);
        G.push(s);
    }
}
static Step flag_step(Gen& G, int t)
{
    Rng& g = G.g; Step s;
    switch (g.below(9)) {
    case 0: case 1: return G.ctor_step(t, g.chance(2, 3));
    case 2: return G.txt_step(t, g.chance(2, 3));
    case 3: s = G.conv_step(t); s.op = OP_ipart; s.isdec = false; s.a[0] = G.arg(g.below(3), true); if (g.chance(1, 2)) { s.a[0].kind = 'v'; s.a[0].v = Val(); s.a[0].v.fmt = s.a[0].fmt; s.a[0].v.isdec = true; s.a[0].v.dec = ILL; s.a[0].v.lo = s.a[0].v.hi = NAN; } return s;
    case 4: return G.conv_step(t);
    case 5: return G.num_step(t, ops_of({ K_UN, K_BIN, K_TER, K_PN, K_PN2, K_PAIR }));
    case 6: return G.num_step(t, g.chance(1, 2) ? NUMS : BOOLS);
    case 7: return G.copy_step(t);
    default: return G.red_step(t, 4);
    }
}
static void gen_C04(Gen& G, bool traps)
{
    Rng& g = G.g; int nt = g.chance(1, 2) ? 1 : g.range(2, 3); G.init_regs(nt); G.r.profile = g.chance(1, 4) ? 18 + g.below(4) : g.below(18); int per = nt == 1 ? g.range(5, 24) : g.range(2, 7); bool corrupt = g.chance(1, 2);
    for (int t = 0; t < nt; ++t) {
        if (traps) G.env(t, "cwd:" + std::to_string(g.chance(1, 3) ? 15 : g.below(16)));
        for (int i = 0; i < per; ++i) {
            int k = g.below(20);
            if (k < 2) G.env(t, "query");
            else if (k == 2) G.env(t, g.chance(1, 2) ? "clear" : "clearbit:" + std::to_string(g.below(16)));
            else if (k == 3) G.env(t, "signal:" + std::to_string(1 << g.below(4)));
            else if (k == 4 && (traps || g.chance(1, 3))) G.env(t, "cwd:" + std::to_string(g.below(16)));
            else if (k == 5 && corrupt) {
                Step e; e.thr = t; e.op = OP_env; e.e = "corrupt:" + std::to_string(g.below(9)); e.a[0].kind = 'r'; e.a[0].fmt = g.below(3); e.a[0].isdec = g.chance(1, 2); e.a[0].idx = g.below(NREG); G.push(e);
                Step s = g.chance(1, 3) ? G.num_step(t, g.chance(1, 2) ? NUMS : BOOLS) : g.chance(1, 6) ? G.copy_step(t) : G.num_step(t, ops_of({ K_UN, K_BIN, K_TER, K_PN, K_PN2, K_PAIR }));
                s.fmt = e.a[0].fmt; s.isdec = e.a[0].isdec; if (s.op == OP_is_nai || s.op == OP_decoration) s.op = OP_is_empty; int na = op_nargs(s.op); int w = g.below(na);
                for (int j = 0; j < na; ++j) s.a[j] = j == w ? e.a[0] : G.arg(s.fmt, s.isdec);
                G.push(s);
            }
            else if (k == 6 && g.chance(1, 2)) { G.open_step(t, g.chance(1, 2) ? bad_literal(g) : literal(g, g.below(3), true), g.below(2) ? 0 : 4, G.rnd_chunk()); G.rd_step(t); }
            else if (traps && k == 7) G.env(t, G.env_any());
            else G.push(flag_step(G, t));
        }
        G.env(t, "query");
    }
}
static void gen_C06(Gen& G)
{
    Rng& g = G.g; G.init_regs(1); int n = g.range(1, 4); bool traps = g.chance(1, 10);
    if (traps) G.env(0, "cwd:" + std::to_string(g.below(16)));
    if (g.chance(1, 8)) G.env(0, G.env_any(true));
    for (int i = 0; i < n; ++i) {
        std::string t = g.chance(1, 5) ? bad_literal(g) : literal(g, g.below(3), true);
        if (g.chance(1, 8)) t = "  \n" + t;
        if (g.chance(1, 4)) t += (g.chance(1, 2) ? " " : "") + literal(g, g.below(3), true);
        if (g.chance(1, 12)) { static char const* d[] = { "com", "DAC", "def", "trv", "ill", "4", "16", "12", "xyz", "co", "", "999999999999", "-4", "8" }; t = d[g.below(14)]; }
        long cut = 0; char kind = 0; int mask = g.chance(1, 2) ? 0 : g.below(8);
        int k = g.below(6);
        if (k >= 1 && !t.empty()) { cut = g.chance(1, 4) ? t.size() + g.below(2) : 1 + g.below(t.size()); kind = "exietu"[g.below(6)]; }
        G.open_step(0, t, mask, G.rnd_chunk(), cut, kind, g.chance(1, 12) ? "noskipws" : "");
        int m = g.range(1, 3); for (int j = 0; j < m; ++j) { G.rd_step(0); if (g.chance(1, 3)) { Step c; c.op = OP_iclear; c.n = g.below(2); G.push(c); } }
    }
}
static void gen_C07(Gen& G)
{
    Rng& g = G.g; G.init_regs(1);
    if (g.chance(1, 5)) G.env(0, G.env_any(true));
    int items = g.range(1, 5); std::string t;
    for (int i = 0; i < items; ++i) { static char const* sep[] = { " ", "\n", "\t", "  ", ",", ";", "", " x", "]", "_" }; t += g.chance(1, 12) ? bad_literal(g) : literal(g, g.below(3), true); t += i + 1 < items ? sep[g.chance(2, 3) ? g.below(4) : g.below(10)] : g.chance(1, 2) ? sep[g.below(10)] : ""; }
    int mask = g.chance(1, 2) ? 0 : g.below(8); std::string e = g.chance(1, 12) ? "noskipws" : g.chance(1, 12) ? "comma" : g.chance(1, 10) ? "ctype" : g.chance(1, 20) ? "hex" : "";
    G.open_step(0, t, mask, G.rnd_chunk(), 0, 0, e); if (g.chance(1, 10)) G.r.steps.back().m = g.range(1, 4);
    for (int i = 0; i < items + 1; ++i) { G.rd_step(0); if (g.chance(1, 6)) { Step c; c.op = OP_iclear; G.push(c); } }
}
static void gen_C08(Gen& G)
{
    Rng& g = G.g; G.init_regs(1); int n = g.range(1, 4); if (g.chance(1, 10)) G.env(0, "cwd:" + std::to_string(g.below(16)));
    for (int i = 0; i < n; ++i) {
        std::string t = hostile(g);
        if (g.chance(1, 2)) { Step s = G.txt_step(0, false); s.s = t; G.push(s); }
        else { G.open_step(0, t, g.chance(3, 4) ? 0 : g.below(8), 64); G.rd_step(0); if (g.chance(1, 4)) G.rd_step(0); }
    }
}
static void gen_C09(Gen& G)
{
    Rng& g = G.g; G.init_regs(1); G.lit = 60; Step w; w.op = OP_wopen; w.mask = g.chance(2, 3) ? 0 : g.below(8); w.m = g.chance(1, 4) ? 7 : 0; G.push(w);
    int n = g.range(3, 14); bool alloc = g.chance(1, 4);
    for (int i = 0; i < n; ++i) {
        int k = g.below(12);
        if (k < 4) { Step s; s.op = OP_manip; s.e = g.chance(1, 5) ? G.std_manip() : G.manip_any(); G.push(s); }
        else if (k < 6) { Step s; s.op = OP_odev; s.cut = 1 + (g.chance(1, 3) ? g.below(3) : g.below(45)); s.cutk = "ffxti"[g.below(5)]; s.mask = g.chance(1, 2) ? 0 : g.below(8); G.push(s); G.push(G.wr_step(0)); if (g.chance(1, 2)) { Step c; c.op = OP_oclear; G.push(c); G.push(G.r.steps[G.r.steps.size() - 2]); } }
        else if (k == 6) { Step c; c.op = OP_oclear; G.push(c); }
        else if (k == 7) { Step s; s.op = OP_manip; s.e = "std:width:" + std::to_string(g.below(30)); G.push(s); G.push(G.wr_step(0)); }
        else { Step s = G.wr_step(0); if (alloc && g.chance(1, 3)) s.alloc = g.chance(1, 3) ? -g.range(1, 6) : g.range(1, 12); G.push(s); }
    }
    Step c; c.op = OP_oclear; G.push(c); G.push(G.wr_step(0));
}
static void gen_C10(Gen& G)
{
    Rng& g = G.g; G.init_regs(1); G.lit = 70; if (g.chance(1, 3)) G.env(0, G.env_any(true));
    Step w; w.op = OP_wopen; G.push(w); int n = g.range(1, 5); int fam = g.below(4);
    for (int i = 0; i < n; ++i) {
        int m = g.below(5); for (int j = 0; j < m; ++j) { Step s; s.op = OP_manip; s.e = fam == 0 ? (g.chance(1, 2) ? "hex" : G.manip_any()) : g.chance(1, 12) ? G.std_manip() : G.manip_any(); if (fam == 1 && s.e.compare(0, 3, "unc") == 0) s.e = "infsup"; G.push(s); }
        if (fam == 2) { Step s; s.op = OP_manip; s.e = g.pick(std::vector<std::string>{ "unc", "uncup", "uncdn" }); G.push(s); }
        if (g.chance(1, 5)) G.env(0, G.env_any(true));
        int f = g.below(3); bool d = g.chance(1, 2);
        Step s; s.op = OP_wr; s.a[0] = G.arg(f, d); G.push(s);
        Step o; o.op = OP_open; o.e = "last"; o.chunk = G.rnd_chunk(); if (g.chance(1, 4)) { o.cut = g.range(1, 40); o.cutk = g.chance(1, 2) ? 'e' : 'x'; } G.push(o);
        Step r; r.op = OP_rd; r.fmt = g.chance(3, 4) ? f : g.below(3); r.isdec = d; r.dst = g.below(NREG); G.push(r);
    }
}
static void gen_C11(Gen& G)
{
    Rng& g = G.g; int nt = g.chance(1, 6) ? 2 : 1; G.init_regs(nt); G.r.profile = 3; G.lit = 60; auto all = ops_of({ K_UN, K_BIN, K_TER, K_PN, K_PN2, K_PAIR, K_NUM, K_NUM2, K_B1, K_B2, K_OVL });
    for (int t = 0; t < nt; ++t) {
        int n = g.range(1, nt == 1 ? 5 : 3);
        for (int i = 0; i < n; ++i) {
            int k = g.below(16); Step s;
            if (k < 4) s = G.num_step(t, all);
            else if (k < 6) { s = G.red_step(t); if (g.chance(1, 3)) { s.chunk = 1; s.cut = 1 + g.below(8); s.cutk = 'x'; } }
            else if (k == 6) s = G.ctor_step(t, g.chance(1, 2));
            else if (k == 7) s = G.conv_step(t);
            else if (k == 8) s = G.txt_step(t, g.chance(1, 3));
            else if (k < 13) { Step w; w.thr = t; w.op = OP_wopen; w.m = g.chance(1, 4) ? 7 : 0; G.push(w); int m = g.below(6); for (int j = 0; j < m; ++j) { Step x; x.thr = t; x.op = OP_manip; x.e = G.manip_any(); G.push(x); } if (g.chance(1, 4)) { Step d; d.thr = t; d.op = OP_odev; d.cut = 1 + g.below(30); d.cutk = "ftx"[g.below(3)]; d.mask = g.below(8); G.push(d); } s = G.wr_step(t); }
            else { std::string x; int m = g.range(1, 5); for (int j = 0; j < m; ++j) x += (g.chance(1, 5) ? bad_literal(g) : literal(g, g.below(3), true)) + " "; int mask = g.chance(1, 2) ? 0 : g.below(8); bool cut = g.chance(1, 3); G.open_step(t, x, mask, G.rnd_chunk(), cut ? 1 + g.below(x.size()) : 0, cut ? "extu"[g.below(4)] : 0); G.rd_step(t); G.r.steps.back().rep = 5; continue; }
            if (g.chance(1, 5)) G.env(t, "cwd:" + std::to_string(g.below(16)));
            if (g.chance(1, 8) && op_kinds[s.op] != K_IO) s.alloc = g.range(1, 6);
            s.rep = op_kinds[s.op] != K_IO && s.op != OP_txt && g.chance(1, 3) ? 60 : 6; G.push(s);
        }
        G.env(t, "cwd:0"); G.env(t, "teardown:" + std::to_string(g.below(3)));
    }
}
static void gen_C12(Gen& G)
{
    Rng& g = G.g; G.init_regs(1); G.lit = 60; int n = g.range(1, 4); Step w; w.op = OP_wopen; w.m = g.chance(1, 3) ? 7 : 0; w.mask = g.chance(1, 3) ? g.below(8) : 0; G.push(w);
    for (int i = 0; i < n; ++i) {
        int k = g.below(12); Step s; bool twice = true;
        if (k < 3) s = G.txt_step(0, g.chance(1, 4));
        else if (k < 5) s = G.red_step(0);
        else if (k < 8) { int m = g.below(4); for (int j = 0; j < m; ++j) { Step x; x.op = OP_manip; x.e = G.manip_any(); if (g.chance(1, 6)) x.alloc = g.range(1, 2); G.push(x); } s = G.wr_step(0); }
        else if (k < 10) { std::string x = g.chance(1, 6) ? bad_literal(g) : literal(g, g.below(3), true); int mask = g.chance(1, 3) ? g.below(8) : 0; long ch = G.rnd_chunk(); G.open_step(0, x, mask, ch); G.rd_step(0); Step& q = G.r.steps.back(); long hi = g.pick(std::vector<int>{ 3, 30, 300, 3000 }); q.alloc = g.chance(1, 4) ? -long(1 + g.below(hi)) : long(1 + g.below(hi)); Step q2 = q; G.open_step(0, x, mask, ch); q2.alloc = 0; G.push(q2); continue; }
        else if (k == 10) s = G.ctor_step(0, g.chance(1, 2));
        else { s = G.num_step(0, ops_of({ K_UN, K_BIN, K_TER, K_PN, K_PN2, K_PAIR, K_NUM, K_NUM2, K_B1, K_B2, K_OVL })); }
        if (g.chance(1, 6)) G.env(0, "cwd:" + std::to_string(g.below(16)));
        Step f = s; long hi = g.pick(std::vector<int>{ 3, 8, 30, 3000 }); f.alloc = g.chance(1, 4) ? -long(1 + g.below(hi)) : long(1 + g.below(hi));
        for (int i = 0; i < 3; ++i) if (f.a[i].kind == 'r' && f.a[i].idx == f.dst) { f.dst = (f.dst + 1) % NREG; }
        G.push(f);
        if (op_kinds[f.op] == K_IO) { Step c; c.op = OP_oclear; G.push(c); }
        if (twice) { f.alloc = 0; G.push(f); }
    }
}
static void gen_C13(Gen& G)
{
    Rng& g = G.g; int nt = g.chance(1, 4) ? 2 : 1; G.init_regs(nt); G.r.profile = g.chance(1, 4) ? 18 + g.below(4) : g.below(18);
    for (int t = 0; t < nt; ++t) {
        int n = nt == 1 ? g.range(1, 6) : g.range(1, 3);
        for (int i = 0; i < n; ++i) {
            if (g.chance(1, 5)) G.env(t, G.env_any());
            if (g.chance(1, 6)) G.push(G.num_step(t, UNS));
            Step s = G.red_step(t, g.chance(1, 8) ? 60 : 10);
            int k = g.below(10);
            if (k < 2) { s.chunk = 1; s.cut = 1 + g.below(10); s.cutk = "xrRe"[g.below(4)]; }
            else if (k == 2) s.alloc = g.range(1, 12);
            G.push(s);
            if (g.chance(1, 3)) {   // the same elements delivered in another order
                Step p = s; p.cut = 0; p.cutk = 0; p.alloc = 0; auto sp = [](std::string const& x) { std::vector<std::string> v; size_t b = 0; while (b < x.size()) { size_t e = x.find(' ', b); if (e == std::string::npos) e = x.size(); v.push_back(x.substr(b, e - b)); b = e + 1; } return v; };
                auto a = sp(s.s), b = sp(s.e); std::vector<size_t> ix; for (size_t j = 0; j < a.size(); ++j) ix.push_back(j);
                for (size_t j = ix.size(); j > 1; --j) std::swap(ix[j - 1], ix[g.below(j)]);
                p.s.clear(); p.e.clear(); for (size_t j : ix) { p.s += (p.s.empty() ? "" : " ") + a[j]; if (j < b.size()) p.e += (p.e.empty() ? "" : " ") + b[j]; }
                G.push(p);
            }
        }
    }
}
void generate(std::string const& prop, uint64_t seed, Run& r)
{
    r = Run(); r.prop = prop; r.seed = seed; Gen G(mix(seed, fnv(prop)), r); r.sched_seed = mix(seed, 77); r.profile = 0;
    { Rng w(mix(seed, 99)); r.warm = prop == "C02" ? w.chance(5, 6) : w.chance(9, 10); }
    if (prop == "C01") gen_C01(G); else if (prop == "C02") gen_C02(G); else if (prop == "C03") gen_C03(G, false); else if (prop == "C04") gen_C04(G, false); else if (prop == "C05") gen_C04(G, true);
    else if (prop == "C06") gen_C06(G); else if (prop == "C07") gen_C07(G); else if (prop == "C08") gen_C08(G); else if (prop == "C09") gen_C09(G); else if (prop == "C10") gen_C10(G); else if (prop == "C11") gen_C11(G); else if (prop == "C12") gen_C12(G); else if (prop == "C13") gen_C13(G); else if (prop == "C14") gen_C03(G, true);
    else if (prop == "C15") gen_C15(G, 15); else if (prop == "C16") gen_C15(G, 16); else if (prop == "C17") gen_C15(G, 17);
    else { fprintf(stderr, "unknown property %s\n", prop.c_str()); exit(3); }
}
} // namespace sim
