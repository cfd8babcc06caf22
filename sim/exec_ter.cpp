// Mixed-format operations with three operands; compiled once per result format.
#include "exec.hpp"
namespace ex {
template<class C, class A, class B, class Z>
static bool run3(Ctx& c, Step const& s, void** p, Outcome& o, C& dst)
{
    A& a = *(A*)p[0]; B& b = *(B*)p[1]; Z& z = *(Z*)p[2];
    if (s.op == OP_fma) { guarded(c, s, o, [&] { dst = C::fma(a, b, z); }); return true; }
    if (s.op == OP_mul_rev3) { guarded(c, s, o, [&] { dst = C::mul_rev(a, b, z); }); return true; }
    return false;
}
template<class C, class A, class B, template<class> class K>
static bool run_z(Ctx& c, Step const& s, void** p, Outcome& o, C& dst)
{
    if (s.a[2].fmt == FF) return run3<C, A, B, K<float>>(c, s, p, o, dst);
    if (s.a[2].fmt == FD) return run3<C, A, B, K<double>>(c, s, p, o, dst);
    return run3<C, A, B, K<long double>>(c, s, p, o, dst);
}
template<class C, class A, template<class> class K>
static bool run_b(Ctx& c, Step const& s, void** p, Outcome& o, C& dst)
{
    if (s.a[1].fmt == FF) return run_z<C, A, K<float>, K>(c, s, p, o, dst);
    if (s.a[1].fmt == FD) return run_z<C, A, K<double>, K>(c, s, p, o, dst);
    return run_z<C, A, K<long double>, K>(c, s, p, o, dst);
}
template<class T, template<class> class K>
static bool run_k(Ctx& c, Step const& s, void** p, Outcome& o, K<T>& dst)
{
    if (s.a[0].fmt == FF) return run_b<K<T>, K<float>, K>(c, s, p, o, dst);
    if (s.a[0].fmt == FD) return run_b<K<T>, K<double>, K>(c, s, p, o, dst);
    return run_b<K<T>, K<long double>, K>(c, s, p, o, dst);
}
bool SIM_TER(Ctx& c, Step const& s, void** p, Outcome& o)
{
    typedef SIM_T T; RegT<T>& r = c.r.of((T*)0);
    if (s.isdec) return run_k<T, D>(c, s, p, o, r.d[s.dst % NREG].get());
    return run_k<T, I>(c, s, p, o, r.b[s.dst % NREG].get());
}
} // namespace ex
