// Mixed-format operations; compiled once per result format.
#include "exec.hpp"
#define UNOPS(X) X(pos) X(neg) X(recip) X(sqr) X(sqrt) X(exp) X(exp2) X(exp10) X(log) X(log2) X(log10) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(sinh) X(cosh) X(tanh) X(asinh) X(acosh) X(atanh) \
  X(sign) X(ceil) X(floor) X(trunc) X(round_ties_to_even) X(round_ties_to_away) X(abs) X(sqr_rev) X(abs_rev) X(sin_rev) X(cos_rev) X(tan_rev) X(cosh_rev)
#define BINOPS(X) X(add,add) X(sub,sub) X(mul,mul) X(div,div) X(pow,pow) X(atan2,atan2) X(min,min) X(max,max) X(intersection,intersection) X(convex_hull,convex_hull) X(cancel_plus,cancel_plus) X(cancel_minus,cancel_minus) \
  X(sqr_rev2,sqr_rev) X(abs_rev2,abs_rev) X(sin_rev2,sin_rev) X(cos_rev2,cos_rev) X(tan_rev2,tan_rev) X(cosh_rev2,cosh_rev) X(mul_rev,mul_rev)
#define B2OPS(X) X(equal) X(subset) X(superset) X(less) X(greater) X(precedes) X(succeeds) X(interior) X(contains_interior) X(strictly_less) X(strictly_greater) X(strictly_precedes) X(strictly_succeeds) X(disjoint)
#define NUMOPS(X) X(inf) X(sup) X(mid) X(rad) X(wid) X(mag) X(mig)
namespace F = p1788::infsup;
namespace ex {
template<class T, class C, class A>
static bool run1(Ctx& c, Step const& s, void** p, Outcome& o, C& dst)
{
    A& a = *(A*)p[0];
    switch (s.op) {
#define X(n) case OP_##n: guarded(c, s, o, [&] { dst = C::n(a); }); return true;
    UNOPS(X)
#undef X
    case OP_pown: guarded(c, s, o, [&] { dst = C::pown(a, int(s.n)); }); return true;
    case OP_pown_rev: guarded(c, s, o, [&] { dst = C::pown_rev(a, int(s.n)); }); return true;
#define X(n) case OP_##n: { T r = T(); guarded(c, s, o, [&] { r = C::n(a); }); o.payload = num_s(r); return true; }
    NUMOPS(X)
#undef X
    case OP_mid_rad: { std::pair<T, T> r; guarded(c, s, o, [&] { r = C::mid_rad(a); }); o.payload = num_s(r.first) + " " + num_s(r.second); return true; }
    default: return false;
    }
}
template<class T, class C, class A, class B>
static bool run2(Ctx& c, Step const& s, void** p, Outcome& o, C& dst)
{
    A& a = *(A*)p[0]; B& b = *(B*)p[1];
    switch (s.op) {
#define X(n,f) case OP_##n: guarded(c, s, o, [&] { dst = C::f(a, b); }); return true;
    BINOPS(X)
#undef X
    case OP_pown_rev2: guarded(c, s, o, [&] { dst = C::pown_rev(a, b, int(s.n)); }); return true;
    case OP_mul_rev_to_pair: {
        Slot<C> r1, r2; memset(r1.mem, 0, sizeof r1.mem); memset(r2.mem, 0, sizeof r2.mem);
        guarded(c, s, o, [&] { std::pair<C, C> r = C::mul_rev_to_pair(a, b); memcpy(r1.mem, (void*)&r.first, sizeof r1.mem); memcpy(r2.mem, (void*)&r.second, sizeof r2.mem); });
        if (!o.exc) o.payload = val_text(snap(r1.get())) + " " + val_text(snap(r2.get()));
        return true; }
    default: return false;
    }
}
template<class T, class C, class B>     // comparisons: C of the result format against B
static bool runb(Ctx& c, Step const& s, void** p, Outcome& o)
{
    C& a = *(C*)p[0]; B& b = *(B*)p[1];
    if (s.op == OP_equal && s.m >= 2) { bool r = false; if (s.m == 2) guarded(c, s, o, [&] { r = a == b; }); else guarded(c, s, o, [&] { r = !(a != b); }); o.payload = r ? "true" : "false"; return true; }
    switch (s.op) {
#define X(n) case OP_##n: { bool r = false; guarded(c, s, o, [&] { r = s.m == 1 ? F::n(a, b) : C::n(a, b); }); o.payload = r ? "true" : "false"; return true; }
    B2OPS(X)
#undef X
    case OP_overlap: { int r = -1; guarded(c, s, o, [&] { r = int(s.m == 1 ? F::overlap(a, b) : C::overlap(a, b)); }); o.payload = std::to_string(r); return true; }
    default: return false;
    }
}
template<class T> struct Oth; // the two other formats
template<> struct Oth<float> { typedef double U; typedef long double V; };
template<> struct Oth<double> { typedef long double U; typedef float V; };
template<> struct Oth<long double> { typedef float U; typedef double V; };

template<class T, template<class> class K>
static bool run_k(Ctx& c, Step const& s, void** p, Outcome& o, K<T>& dst)
{
    typedef typename Oth<T>::U U; typedef typename Oth<T>::V V;
    int u = fmt_id<U>::v, v = fmt_id<V>::v, t = fmt_id<T>::v, a = s.a[0].fmt, b = s.a[1].fmt;
    int k = op_kinds[s.op];
    if (op_nargs(s.op) == 1) { if (a == u) return run1<T, K<T>, K<U>>(c, s, p, o, dst); if (a == v) return run1<T, K<T>, K<V>>(c, s, p, o, dst); return false; }
    if (k == K_B2 || k == K_OVL) { if (a != t) return false; if (b == u) return runb<T, K<T>, K<U>>(c, s, p, o); if (b == v) return runb<T, K<T>, K<V>>(c, s, p, o); return false; }
    if (a == u && b == u) return run2<T, K<T>, K<U>, K<U>>(c, s, p, o, dst);
    if (a == v && b == v) return run2<T, K<T>, K<V>, K<V>>(c, s, p, o, dst);
    if (a == t && b == u) return run2<T, K<T>, K<T>, K<U>>(c, s, p, o, dst);
    if (a == v && b == t) return run2<T, K<T>, K<V>, K<T>>(c, s, p, o, dst);
    if (a == u && b == v) return run2<T, K<T>, K<U>, K<V>>(c, s, p, o, dst);
    if (a == v && b == u) return run2<T, K<T>, K<V>, K<U>>(c, s, p, o, dst);
    if (a == t && b == v) return run2<T, K<T>, K<T>, K<V>>(c, s, p, o, dst);
    if (a == u && b == t) return run2<T, K<T>, K<U>, K<T>>(c, s, p, o, dst);
    return false;
}
bool SIM_MIXED(Ctx& c, Step const& s, void** p, Outcome& o)
{
    typedef SIM_T T;
    RegT<T>& r = c.r.of((T*)0);
    if (s.isdec) return run_k<T, D>(c, s, p, o, r.d[s.dst % NREG].get());
    return run_k<T, I>(c, s, p, o, r.b[s.dst % NREG].get());
}
} // namespace ex
