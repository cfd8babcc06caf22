// Execution of single steps against the real library.
#ifndef SIM_EXEC_HPP
#define SIM_EXEC_HPP
#include "rt.hpp"
#include <utility>
#include <new>
#include <p1788/p1788.hpp>

namespace ex {
using namespace sim;
template<class T> using I = p1788::infsup::interval<T, p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor>;
template<class T> using D = p1788::infsup::decorated_interval<T, p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor>;
typedef p1788::decoration::decoration DC;
template<class T> struct fmt_id; template<> struct fmt_id<float> { enum { v = FF }; }; template<> struct fmt_id<double> { enum { v = FD }; }; template<> struct fmt_id<long double> { enum { v = FL }; };

// raw image of the objects (checked by layout_probe before anything relies on it)
template<class T> struct RawI { T lo, hi; };
template<class T> struct RawD { T lo, hi; DC dec; };

// unvalidated storage for objects, so that the harness can place any bit pattern
template<class X> struct Slot {
    alignas(X) unsigned char mem[sizeof(X)];
    X& get() { return *reinterpret_cast<X*>(mem); }
};
template<class T> inline Val snap(I<T> const& x) { RawI<T> r; memcpy((void*)&r, (void const*)&x, sizeof r); Val v; v.fmt = fmt_id<T>::v; v.isdec = false; v.lo = r.lo; v.hi = r.hi; return v; }
template<class T> inline Val snap(D<T> const& x) { RawD<T> r; memcpy((void*)&r, (void const*)&x, sizeof r); Val v; v.fmt = fmt_id<T>::v; v.isdec = true; v.lo = r.lo; v.hi = r.hi; v.dec = uint8_t(r.dec); return v; }
template<class T> inline void place(I<T>& x, Val const& v) { RawI<T> r; memset((void*)&r, 0, sizeof r); r.lo = T(v.lo); r.hi = T(v.hi); memcpy((void*)&x, &r, sizeof r); }
template<class T> inline void place(D<T>& x, Val const& v) { RawD<T> r; memset((void*)&r, 0, sizeof r); r.lo = T(v.lo); r.hi = T(v.hi); r.dec = DC(v.dec); memcpy((void*)&x, &r, sizeof(RawD<T>) < sizeof x ? sizeof(RawD<T>) : sizeof x); }

template<class T> struct RegT { Slot<I<T>> b[NREG]; Slot<D<T>> d[NREG]; };
struct Regs { RegT<float> f; RegT<double> d; RegT<long double> l; 
    RegT<float>& of(float*) { return f; } RegT<double>& of(double*) { return d; } RegT<long double>& of(long double*) { return l; } };
struct Lits { Slot<I<float>> bf[3]; Slot<I<double>> bd[3]; Slot<I<long double>> bl[3]; Slot<D<float>> df[3]; Slot<D<double>> dd[3]; Slot<D<long double>> dl[3]; };

struct Streams;     // exec_io.cpp
struct Ctx {
    int tid; Regs r; Lits lit; Streams* st; 
    Regs* shared;
};
extern Regs shared_regs;

// pointer to the operand object; its type is given by a.fmt / a.isdec
void* operand(Ctx& c, Arg const& a, int i);
void* reg_ptr(Regs& r, int fmt, bool isdec, int idx);
Val snap_ptr(void* p, int fmt, bool isdec);
void place_ptr(void* p, Val const& v);

// runs `f` as library code with faults armed; fills exception, flags, accounting
template<class F> inline void guarded(Ctx& c, Step const& s, Outcome& o, F f);
void op_begin(Ctx& c, Step const& s, Outcome& o);
void op_end(Ctx& c, Step const& s, Outcome& o);
struct Injected { int v; };     // thrown by the harness's own streams and iterators
void classify(Outcome& o);      // called inside a catch handler: sets o.exc
template<class F> inline void guarded(Ctx& c, Step const& s, Outcome& o, F f)
{
    op_begin(c, s, o);
    try { f(); rt::tl.on = 0; }
    catch (...) { rt::tl.on = 0; classify(o); rt::tl.alloc_fail = 0; rt::tl.on = 1; }     // the exception object is released within the operation
    op_end(c, s, o);
}
std::string num_s(float x); std::string num_s(double x); std::string num_s(long double x);

// per translation unit entry points; return false if the operation is not handled there
bool exec_same_f(Ctx&, Step const&, void**, Outcome&);
bool exec_same_d(Ctx&, Step const&, void**, Outcome&);
bool exec_same_l(Ctx&, Step const&, void**, Outcome&);
bool exec_mixed_f(Ctx&, Step const&, void**, Outcome&);
bool exec_mixed_d(Ctx&, Step const&, void**, Outcome&);
bool exec_mixed_l(Ctx&, Step const&, void**, Outcome&);
bool exec_ter_f(Ctx&, Step const&, void**, Outcome&);
bool exec_ter_d(Ctx&, Step const&, void**, Outcome&);
bool exec_ter_l(Ctx&, Step const&, void**, Outcome&);
bool p1788_manip(std::ostream& os, std::string const& k, long n);
bool exec_io(Ctx&, Step const&, void**, Outcome&);
bool exec_red(Ctx&, Step const&, void**, Outcome&);
void exec_env(Ctx&, Step const&, Outcome&);
void exec_step(Ctx& c, Step const& s, Outcome& o);
void streams_init(Ctx& c);
void streams_done(Ctx& c);
extern "C" const char* layout_probe();
}
#endif
