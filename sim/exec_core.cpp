// Operand handling, bookkeeping around each operation, environment steps. Compiled with the hooks like everything that includes the library.
#include "exec.hpp"
#include "shm.hpp"
#include <cfenv>
#include <clocale>
#include <locale>
#include <ios>
namespace ex {
Regs shared_regs;
std::string num_s(float x) { return num_text(x); }
std::string num_s(double x) { return num_text(x); }
std::string num_s(long double x) { return num_text(x); }

void* reg_ptr(Regs& r, int fmt, bool dec, int idx)
{
    idx %= NREG; if (idx < 0) idx = 0;
    switch (fmt) {
    case FF: return dec ? (void*)r.f.d[idx].mem : (void*)r.f.b[idx].mem;
    case FD: return dec ? (void*)r.d.d[idx].mem : (void*)r.d.b[idx].mem;
    default: return dec ? (void*)r.l.d[idx].mem : (void*)r.l.b[idx].mem;
    }
}
Val snap_ptr(void* p, int fmt, bool dec)
{
    switch (fmt) {
    case FF: return dec ? snap(*(D<float>*)p) : snap(*(I<float>*)p);
    case FD: return dec ? snap(*(D<double>*)p) : snap(*(I<double>*)p);
    default: return dec ? snap(*(D<long double>*)p) : snap(*(I<long double>*)p);
    }
}
void place_ptr(void* p, Val const& v)
{
    switch (v.fmt) {
    case FF: if (v.isdec) place(*(D<float>*)p, v); else place(*(I<float>*)p, v); break;
    case FD: if (v.isdec) place(*(D<double>*)p, v); else place(*(I<double>*)p, v); break;
    default: if (v.isdec) place(*(D<long double>*)p, v); else place(*(I<long double>*)p, v); break;
    }
}
void* operand(Ctx& c, Arg const& a, int i)
{
    if (a.kind == 'r') return reg_ptr(c.r, a.fmt, a.isdec, a.idx);
    if (a.kind == 's') return reg_ptr(*c.shared, a.fmt, a.isdec, a.idx % NSHARED);
    void* p;
    switch (a.fmt) {
    case FF: p = a.isdec ? (void*)c.lit.df[i].mem : (void*)c.lit.bf[i].mem; break;
    case FD: p = a.isdec ? (void*)c.lit.dd[i].mem : (void*)c.lit.bd[i].mem; break;
    default: p = a.isdec ? (void*)c.lit.dl[i].mem : (void*)c.lit.bl[i].mem; break;
    }
    place_ptr(p, a.v);
    return p;
}
static bool writes_dst(int op)
{
    switch (op_kinds[op]) {
    case K_UN: case K_BIN: case K_TER: case K_PN: case K_PN2: case K_CTOR: case K_TXT: case K_COPY: case K_CONV: case K_CONST: return true;
    case K_IO: return op == OP_rd;
    default: return false;
    }
}
static bool dst_dec(Step const& s)
{
    switch (s.op) {
    case OP_nai: case OP_ctor_dec: case OP_ctor_mixed_dec: case OP_newdec: case OP_setdec: return true;
    case OP_ipart: return false;
    default: return s.isdec;
    }
}
void op_begin(Ctx& c, Step const& s, Outcome& o)
{
    o.flags0 = int(p1788::exception::state()); o.cwd0 = int(p1788::exception::cwd()); o.rnd0 = fegetround();
    o.seq_begin = ++rt::seq;
    rt::enter(s.id, s.alloc);
}
void op_end(Ctx& c, Step const& s, Outcome& o)
{
    rt::leave();
    o.seq_end = ++rt::seq;
    o.rnd1 = fegetround(); o.flags1 = int(p1788::exception::state()); o.cwd1 = int(p1788::exception::cwd());
    o.nalloc = rt::tl.nalloc; o.live_new = rt::tl.live_new; o.live_mp = rt::tl.live_mp; o.ticks = rt::tl.ticks; o.vol = rt::tl.vol;
    if (rt::tl.alloc_fired) o.fault |= 1;
}
void classify(Outcome& o)
{
    try { throw; }
    catch (Injected const&) { o.exc = EX_INJECT; }
    catch (std::bad_alloc const&) { o.exc = EX_BADALLOC; }
    catch (std::ios_base::failure const&) { o.exc = EX_IOS; }
    catch (p1788::exception::undefined_operation_exception const& e) { o.exc = EX_UNDEF; }
    catch (p1788::exception::possibly_undefined_operation_exception const& e) { o.exc = EX_PUNDEF; }
    catch (p1788::exception::interval_part_of_nai_exception const& e) { o.exc = EX_IPNAI; }
    catch (p1788::exception::invalid_operand_exception const& e) { o.exc = EX_INVOP; }
    catch (std::exception const& e) { o.exc = EX_STD; o.what = e.what(); }
    catch (...) { o.exc = EX_OTHER; }
}

struct tr_ctype : std::ctype<char> {     // upper and lower case as in Turkish
    char do_tolower(char c) const override { return c == 'I' ? char(0xFD) : c == char(0xDD) ? 'i' : std::ctype<char>::do_tolower(c); }
    char do_toupper(char c) const override { return c == 'i' ? char(0xDD) : c == char(0xFD) ? 'I' : std::ctype<char>::do_toupper(c); }
    char const* do_tolower(char* b, char const* e) const override { for (; b < e; ++b) *b = do_tolower(*b); return e; }
    char const* do_toupper(char* b, char const* e) const override { for (; b < e; ++b) *b = do_toupper(*b); return e; } };
struct comma_punct : std::numpunct<char> { 
    char do_decimal_point() const { return ','; } char do_thousands_sep() const { return '.'; } std::string do_grouping() const { return "\3"; } };

void exec_env(Ctx& c, Step const& s, Outcome& o)
{
    std::string k = s.e; size_t q = k.find(':'); std::string v = q == std::string::npos ? "" : k.substr(q + 1); if (q != std::string::npos) k = k.substr(0, q);
    long n = atol(v.c_str());
    if (k == "rnd") { static int const m[4] = { FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO }; fesetround(m[n & 3]); }
    else if (k == "fpe") { if (n) feraiseexcept(FE_ALL_EXCEPT); else feclearexcept(FE_ALL_EXCEPT); }
    else if (k == "emin") mpfr_set_emin(n);
    else if (k == "emax") mpfr_set_emax(n);
    else if (k == "prec") mpfr_set_default_prec(n);
    else if (k == "mrnd") mpfr_set_default_rounding_mode(mpfr_rnd_t(n & 3));
    else if (k == "mflags") { if (n & 1) mpfr_set_overflow(); if (n & 2) mpfr_set_underflow(); if (n & 4) mpfr_set_inexflag(); if (n & 8) mpfr_set_erangeflag(); if (n & 16) mpfr_set_nanflag(); if (!n) mpfr_clear_flags(); }
    else if (k == "fcache") mpfr_free_cache();
    else if (k == "teardown") {
        guarded(c, s, o, [&] { if (n == 0) p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<float>::teardown(); else if (n == 1) p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<double>::teardown(); else p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<long double>::teardown(); });
        o.text = std::to_string(rt::mp_live(c.tid)); return; }
    else if (k == "setup") { guarded(c, s, o, [&] { if (n == 0) p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<float>::setup(); else if (n == 1) p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<double>::setup(); else p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<long double>::setup(); }); return; }
    else if (k == "cwd") { guarded(c, s, o, [&] { p1788::exception::set_throw_exception_cwd(p1788::exception::exception_bits(n)); }); return; }
    else if (k == "clear") { guarded(c, s, o, [&] { p1788::exception::clear(); }); return; }
    else if (k == "clearbit") { guarded(c, s, o, [&] { p1788::exception::state() &= ~p1788::exception::exception_bits(n); }); return; }
    else if (k == "signal") { guarded(c, s, o, [&] { switch (n) { case 1: p1788::exception::signal_undefined_operation(); break; case 2: p1788::exception::signal_possibly_undefined_operation(); break; case 4: p1788::exception::signal_interval_part_of_nai(); break; case 8: p1788::exception::signal_invalid_operand(); break; } }); return; }
    else if (k == "query") { int r = 0, w = 0; guarded(c, s, o, [&] { r = (p1788::exception::undefined_operation() ? 1 : 0) | (p1788::exception::possibly_undefined_operation() ? 2 : 0) | (p1788::exception::interval_part_of_nai() ? 4 : 0) | (p1788::exception::invalid_operand() ? 8 : 0); w = int(p1788::exception::get_throw_exception_cwd()); }); o.payload = std::to_string(r) + " " + std::to_string(w); return; }
    else if (k == "locale") { if (!setlocale(LC_ALL, v == "de" ? "de_DE.UTF-8" : v == "tr" ? "tr_TR.ISO-8859-9" : "C")) o.text = "unavailable"; }
    else if (k == "gloc") { if (v == "comma") std::locale::global(std::locale(std::locale::classic(), new comma_punct)); else if (v == "tr") std::locale::global(std::locale(std::locale::classic(), new tr_ctype)); else std::locale::global(std::locale::classic()); }
    else if (k == "corrupt") {   // flipped stored bytes: an object whose representation is no valid interval; a names the register, n the kind
        Val w = snap_ptr(reg_ptr(c.r, s.a[0].fmt, s.a[0].isdec, s.a[0].idx), s.a[0].fmt, s.a[0].isdec);
        long double inf = std::numeric_limits<long double>::infinity(), nan = std::numeric_limits<long double>::quiet_NaN();
        switch (n) { case 0: w.lo = 2; w.hi = 1; break; case 1: w.lo = nan; w.hi = 1; break; case 2: w.lo = 0; w.hi = nan; break; case 3: w.lo = inf; w.hi = inf; break; case 4: w.lo = w.hi = -inf; break;
            case 5: w.isdec ? (void)(w.dec = 7) : (void)(w.lo = 1, w.hi = -1); break; case 6: w.isdec ? (void)(w.lo = 1, w.hi = 2, w.dec = ILL) : (void)(w.lo = inf, w.hi = -inf); break; case 7: w.lo = -inf; w.hi = 1; w.dec = COM; if (!w.isdec) w.lo = 2; break;
            default: w.lo = nan; w.hi = nan; w.dec = DAC; if (!w.isdec) w.hi = 0; break; }
        place_ptr(reg_ptr(c.r, s.a[0].fmt, s.a[0].isdec, s.a[0].idx), w); o.fault |= 8; }
    o.rnd1 = o.rnd0 = fegetround(); o.flags0 = o.flags1 = int(p1788::exception::state()); o.cwd0 = o.cwd1 = int(p1788::exception::cwd());
    o.seq_begin = ++rt::seq; o.seq_end = rt::seq;
}

void exec_step(Ctx& c, Step const& s, Outcome& o)
{
    o.step = s.id; o.thr = s.thr;
    void* p[3] = { nullptr, nullptr, nullptr };
    int k = op_kinds[s.op];
    if (k == K_ENV) { exec_env(c, s, o); return; }
    int na = op_nargs(s.op);
    for (int i = 0; i < na; ++i) { if (!s.a[i].kind) { o.exc = EX_OTHER; o.what = "missing operand"; return; } p[i] = operand(c, s.a[i], i); o.ops[i] = snap_ptr(p[i], s.a[i].fmt, s.a[i].isdec); }
    o.nops = na;
    void* dst = nullptr; bool dd = dst_dec(s);
    if (writes_dst(s.op)) { dst = reg_ptr(c.r, s.fmt, dd, s.dst); o.has_dst = true; o.dst0 = snap_ptr(dst, s.fmt, dd); }
    bool same = true;
    if (k != K_CONV) for (int i = 0; i < na; ++i) if (s.a[i].fmt != s.fmt) same = false;
    bool done;
    if (k == K_IO) done = exec_io(c, s, p, o);
    else if (k == K_RED) done = exec_red(c, s, p, o);
    else if (same) done = s.fmt == FF ? exec_same_f(c, s, p, o) : s.fmt == FD ? exec_same_d(c, s, p, o) : exec_same_l(c, s, p, o);
    else if (k == K_TER) done = s.fmt == FF ? exec_ter_f(c, s, p, o) : s.fmt == FD ? exec_ter_d(c, s, p, o) : exec_ter_l(c, s, p, o);
    else done = s.fmt == FF ? exec_mixed_f(c, s, p, o) : s.fmt == FD ? exec_mixed_d(c, s, p, o) : exec_mixed_l(c, s, p, o);
    if (!done) { o.exc = EX_OTHER; o.what = "unsupported combination"; o.step = -1; return; }
    if (dst) { o.dst1 = snap_ptr(dst, s.fmt, dd); if (!o.exc && s.op != OP_rd) o.payload = val_text(o.dst1); }
    if (o.exc && k != K_IO) o.payload.clear();
    for (int i = 0; i < na; ++i) if (p[i] != dst) { Val v = snap_ptr(p[i], s.a[i].fmt, s.a[i].isdec); if (!same_val(v, o.ops[i])) o.ops_changed |= 1 << i; }
}

// verifies the assumption that objects are stored as (lower, upper[, decoration])
template<class T> static bool probe()
{
    if (sizeof(I<T>) != sizeof(RawI<T>) || sizeof(D<T>) < sizeof(RawD<T>)) return false;
    I<T> a(T(-1.5), T(2.25)); Val v = snap(a); if (v.lo != -1.5L || v.hi != 2.25L) return false;
    D<T> b(T(-3), T(7), DC::def); v = snap(b); if (v.lo != -3 || v.hi != 7 || v.dec != DEF) return false;
    v = snap(I<T>::empty()); if (!v.empty()) return false;
    v = snap(D<T>::nai()); if (!v.nai()) return false;
    Slot<D<T>> s; memset(s.mem, 0, sizeof s.mem); Val w; w.fmt = fmt_id<T>::v; w.isdec = true; w.lo = 5; w.hi = 6; w.dec = DAC; place(s.get(), w);
    return D<T>::inf(s.get()) == T(5) && D<T>::sup(s.get()) == T(6) && int(D<T>::decoration(s.get())) == DAC;
}
template<class T> static void warm_t() { try { I<T> a(std::string("[1,2]")); D<T> b(std::string("1.5?1_com")); D<T> c(std::string("[0x1p1,1/1]")); } catch (...) {} p1788::exception::clear(); }
void warm_up() { warm_t<float>(); warm_t<double>(); warm_t<long double>(); }
extern "C" const char* layout_probe() { return probe<float>() && probe<double>() && probe<long double>() ? "ok" : "bad"; }
} // namespace ex
