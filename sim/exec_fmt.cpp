// Same-format operations; compiled once per number format (-DSIM_T=... -DSIM_SAME=exec_same_x).
#include "exec.hpp"
namespace F = p1788::infsup;
namespace ex {
#define UNOPS(X) X(pos) X(neg) X(recip) X(sqr) X(sqrt) X(exp) X(exp2) X(exp10) X(log) X(log2) X(log10) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(sinh) X(cosh) X(tanh) X(asinh) X(acosh) X(atanh) \
  X(sign) X(ceil) X(floor) X(trunc) X(round_ties_to_even) X(round_ties_to_away) X(abs) X(sqr_rev) X(abs_rev) X(sin_rev) X(cos_rev) X(tan_rev) X(cosh_rev)
#define BINOPS(X) X(add,add) X(sub,sub) X(mul,mul) X(div,div) X(pow,pow) X(atan2,atan2) X(min,min) X(max,max) X(intersection,intersection) X(convex_hull,convex_hull) X(cancel_plus,cancel_plus) X(cancel_minus,cancel_minus) \
  X(sqr_rev2,sqr_rev) X(abs_rev2,abs_rev) X(sin_rev2,sin_rev) X(cos_rev2,cos_rev) X(tan_rev2,tan_rev) X(cosh_rev2,cosh_rev) X(mul_rev,mul_rev)
#define B1OPS(X) X(is_empty) X(is_entire) X(is_common_interval) X(is_singleton)
#define B2OPS(X) X(equal) X(subset) X(superset) X(less) X(greater) X(precedes) X(succeeds) X(interior) X(contains_interior) X(strictly_less) X(strictly_greater) X(strictly_precedes) X(strictly_succeeds) X(disjoint)
#define NUMOPS(X) X(inf) X(sup) X(mid) X(rad) X(wid) X(mag) X(mig)

template<class T, class C> struct IsDec { enum { v = 0 }; };
template<class T> struct IsDec<T, D<T>> { enum { v = 1 }; };

// C: concrete interval type of operands and result
template<class T, class C>
static bool run_class(Ctx& c, Step const& s, void** p, Outcome& o, C& dst)
{
    C& a = *(C*)p[0]; C& b = *(C*)p[1]; C& d = *(C*)p[2];
    if (s.m == 2 || s.m == 3) switch (s.op) {
    case OP_pos: guarded(c, s, o, [&] { dst = +a; }); return true;
    case OP_neg: guarded(c, s, o, [&] { dst = -a; }); return true;
    case OP_add: guarded(c, s, o, [&] { dst = a + b; }); return true;
    case OP_sub: guarded(c, s, o, [&] { dst = a - b; }); return true;
    case OP_mul: guarded(c, s, o, [&] { dst = a * b; }); return true;
    case OP_div: guarded(c, s, o, [&] { dst = a / b; }); return true;
    case OP_equal: { bool r = false; if (s.m == 2) guarded(c, s, o, [&] { r = a == b; }); else guarded(c, s, o, [&] { r = !(a != b); }); o.payload = r ? "true" : "false"; return true; }
    case OP_empty: guarded(c, s, o, [&] { C t; dst = t; }); return true;
    default: break;
    }
    switch (s.op) {
    // s.m selects the form of the call: 0 static member, 1 function, 2 and 3 operator
#define X(n) case OP_##n: if (s.m == 1) guarded(c, s, o, [&] { dst = F::n(a); }); else guarded(c, s, o, [&] { dst = C::n(a); }); return true;
    UNOPS(X)
#undef X
#define X(n,f) case OP_##n: if (s.m == 1) guarded(c, s, o, [&] { dst = F::f(a, b); }); else guarded(c, s, o, [&] { dst = C::f(a, b); }); return true;
    BINOPS(X)
#undef X
    case OP_fma: if (s.m == 1) guarded(c, s, o, [&] { dst = F::fma(a, b, d); }); else guarded(c, s, o, [&] { dst = C::fma(a, b, d); }); return true;
    case OP_mul_rev3: if (s.m == 1) guarded(c, s, o, [&] { dst = F::mul_rev(a, b, d); }); else guarded(c, s, o, [&] { dst = C::mul_rev(a, b, d); }); return true;
    case OP_pown: if (s.m == 1) guarded(c, s, o, [&] { dst = F::pown(a, int(s.n)); }); else guarded(c, s, o, [&] { dst = C::pown(a, int(s.n)); }); return true;
    case OP_pown_rev: if (s.m == 1) guarded(c, s, o, [&] { dst = F::pown_rev(a, int(s.n)); }); else guarded(c, s, o, [&] { dst = C::pown_rev(a, int(s.n)); }); return true;
    case OP_pown_rev2: if (s.m == 1) guarded(c, s, o, [&] { dst = F::pown_rev(a, b, int(s.n)); }); else guarded(c, s, o, [&] { dst = C::pown_rev(a, b, int(s.n)); }); return true;
    case OP_copy: guarded(c, s, o, [&] { C t(a); dst = t; }); return true;
    case OP_assign: guarded(c, s, o, [&] { dst = a; }); return true;
    case OP_mul_rev_to_pair: {
        Slot<C> r1, r2; memset(r1.mem, 0, sizeof r1.mem); memset(r2.mem, 0, sizeof r2.mem);
        guarded(c, s, o, [&] { std::pair<C, C> r = s.m == 1 ? F::mul_rev_to_pair(a, b) : C::mul_rev_to_pair(a, b); memcpy(r1.mem, (void*)&r.first, sizeof r1.mem); memcpy(r2.mem, (void*)&r.second, sizeof r2.mem); });
        if (!o.exc) o.payload = val_text(snap(r1.get())) + " " + val_text(snap(r2.get()));
        return true; }
#define X(n) case OP_##n: { bool r = false; guarded(c, s, o, [&] { r = s.m == 1 ? F::n(a) : C::n(a); }); o.payload = r ? "true" : "false"; return true; }
    B1OPS(X)
#undef X
#define X(n) case OP_##n: { bool r = false; guarded(c, s, o, [&] { r = s.m == 1 ? F::n(a, b) : C::n(a, b); }); o.payload = r ? "true" : "false"; return true; }
    B2OPS(X)
#undef X
#define X(n) case OP_##n: { T r = T(); guarded(c, s, o, [&] { r = s.m == 1 ? F::n(a) : C::n(a); }); o.payload = num_s(r); return true; }
    NUMOPS(X)
#undef X
    case OP_mid_rad: { std::pair<T, T> r; guarded(c, s, o, [&] { r = s.m == 1 ? F::mid_rad(a) : C::mid_rad(a); }); o.payload = num_s(r.first) + " " + num_s(r.second); return true; }
    case OP_is_member: { bool r = false; T x = T(s.x); double xd = double(s.x); if (s.n == 1) guarded(c, s, o, [&] { r = s.m == 1 ? F::is_member(xd, a) : C::is_member(xd, a); }); else guarded(c, s, o, [&] { r = s.m == 1 ? F::is_member(x, a) : C::is_member(x, a); }); o.payload = r ? "true" : "false"; return true; }
    case OP_overlap: { int r = -1; guarded(c, s, o, [&] { r = int(s.m == 1 ? F::overlap(a, b) : C::overlap(a, b)); }); o.payload = std::to_string(r); return true; }
    case OP_ctor: { T x = T(s.x), y = T(s.y); guarded(c, s, o, [&] { dst = C(x, y); }); return true; }
    case OP_ctor_mixed:
        switch (s.n) {
        case 0: { double x = double(s.x); long double y = s.y; guarded(c, s, o, [&] { dst = C(x, y); }); return true; }
        case 1: { float x = float(s.x); double y = double(s.y); guarded(c, s, o, [&] { dst = C(x, y); }); return true; }
        case 2: { long double x = s.x; float y = float(s.y); guarded(c, s, o, [&] { dst = C(x, y); }); return true; }
        default: { long double x = s.x; double y = double(s.y); guarded(c, s, o, [&] { dst = C(x, y); }); return true; }
        }
    case OP_empty: guarded(c, s, o, [&] { dst = C::empty(); }); return true;
    case OP_entire: guarded(c, s, o, [&] { dst = C::entire(); }); return true;
    default: return false;
    }
}

bool SIM_SAME(Ctx& c, Step const& s, void** p, Outcome& o)
{
    typedef SIM_T T;
    RegT<T>& r = c.r.of((T*)0);
    I<T>& di = r.b[s.dst % NREG].get(); D<T>& dd = r.d[s.dst % NREG].get();
    switch (s.op) {
    case OP_is_nai: { bool q = false; D<T>& a = *(D<T>*)p[0]; guarded(c, s, o, [&] { q = s.m == 1 ? F::is_nai(a) : D<T>::is_nai(a); }); o.payload = q ? "true" : "false"; return true; }
    case OP_decoration: { DC q = DC(); D<T>& a = *(D<T>*)p[0]; guarded(c, s, o, [&] { q = s.m == 1 ? F::decoration(a) : D<T>::decoration(a); }); o.payload = std::to_string(int(q)); return true; }
    case OP_nai: guarded(c, s, o, [&] { dd = D<T>::nai(); }); return true;
    case OP_ctor_dec: { T x = T(s.x), y = T(s.y); DC q = DC(s.m); guarded(c, s, o, [&] { dd = D<T>(x, y, q); }); return true; }
    case OP_ctor_mixed_dec:
        if (s.n == 0) { double x = double(s.x); long double y = s.y; DC q = DC(s.m); guarded(c, s, o, [&] { dd = D<T>(x, y, q); }); return true; }
        else { float x = float(s.x); double y = double(s.y); DC q = DC(s.m); guarded(c, s, o, [&] { dd = D<T>(x, y, q); }); return true; }
    // conversions: operand format given by a.fmt
#define CV(F, A) if (s.a[0].fmt == F) { \
        if (s.op == OP_conv) { if (s.isdec) { D<A>& a = *(D<A>*)p[0]; guarded(c, s, o, [&] { dd = D<T>(a); }); } else { I<A>& a = *(I<A>*)p[0]; guarded(c, s, o, [&] { di = I<T>(a); }); } return true; } \
        if (s.op == OP_newdec) { I<A>& a = *(I<A>*)p[0]; guarded(c, s, o, [&] { dd = D<T>(a); }); return true; } \
        if (s.op == OP_ipart) { D<A>& a = *(D<A>*)p[0]; guarded(c, s, o, [&] { di = I<T>(a); }); return true; } \
        if (s.op == OP_setdec) { I<A>& a = *(I<A>*)p[0]; DC q = DC(s.m); guarded(c, s, o, [&] { dd = D<T>(a, q); }); return true; } }
    case OP_conv: case OP_newdec: case OP_ipart: case OP_setdec:
        CV(FF, float) CV(FD, double) CV(FL, long double)
        return false;
    case OP_txt: if (s.isdec) guarded(c, s, o, [&] { dd = D<T>(s.s); }); else guarded(c, s, o, [&] { di = I<T>(s.s); }); return true;
    default: break;
    }
    if (s.isdec) return run_class<T, D<T>>(c, s, p, o, dd);
    return run_class<T, I<T>>(c, s, p, o, di);
}
} // namespace ex
