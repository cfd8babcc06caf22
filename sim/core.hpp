// Shared definitions of the simulator: random numbers, values, steps, outcomes, replay text format.
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <limits>

namespace sim {

// ---------------------------------------------------------------- PRNG (xoshiro256**, splitmix seeded)
struct Rng {
    uint64_t s[4];
    static uint64_t sm(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    explicit Rng(uint64_t seed = 1) { for (auto& v : s) v = sm(seed); }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t next() { uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + int(below(uint64_t(b - a + 1))); }
    bool chance(int num, int den) { return int(below(den)) < num; }
    template<class V> typename V::value_type const& pick(V const& v) { return v[below(v.size())]; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9e3779b97f4a7c15ULL + b + 0x632be59bd9b4e019ULL; return Rng::sm(x); }
inline uint64_t fnv(uint64_t h, void const* p, size_t n) { unsigned char const* c = (unsigned char const*)p; while (n--) { h ^= *c++; h *= 1099511628211ULL; } return h; }
inline uint64_t fnv(std::string const& s) { return fnv(1469598103934665603ULL, s.data(), s.size()); }

// ---------------------------------------------------------------- values
enum Fmt : uint8_t { FF = 0, FD = 1, FL = 2 };
enum Dec : uint8_t { ILL = 0, TRV = 4, DEF = 8, DAC = 12, COM = 16 };
inline char fmt_char(int f) { return "fdl"[f]; }
inline int fmt_of(char c) { return c == 'f' ? 0 : c == 'd' ? 1 : 2; }
inline char const* dec_name(int d) { switch (d) { case 0: return "ill"; case 4: return "trv"; case 8: return "def"; case 12: return "dac"; case 16: return "com"; default: return "???"; } }
inline int dec_of(std::string const& s) { if (s == "ill") return 0; if (s == "trv") return 4; if (s == "def") return 8; if (s == "dac") return 12; if (s == "com") return 16; return atoi(s.c_str()); }

// endpoints are kept as long double, which holds every float and double exactly
struct Val {
    uint8_t fmt = FD; bool isdec = false; uint8_t dec = TRV; // dec holds the raw decoration value
    long double lo = 0, hi = 0;
    bool empty() const { return std::isnan(lo) && std::isnan(hi); }
    bool nai() const { return isdec && dec == ILL && empty(); }
    bool valid() const {
        if (isdec && !(dec == 0 || dec == 4 || dec == 8 || dec == 12 || dec == 16)) return false;
        if (isdec && dec == ILL && !empty()) return false;
        if (isdec && empty() && dec > TRV) return false;
        if (isdec && dec == COM && (std::isinf(lo) || std::isinf(hi))) return false;
        if (std::isnan(lo) != std::isnan(hi)) return false;
        if (empty()) return true;
        if (lo > hi) return false;
        if (lo == std::numeric_limits<long double>::infinity() || hi == -std::numeric_limits<long double>::infinity()) return false;
        return true;
    }
};
std::string num_text(long double x);            // exact hex text, "nan", "inf", "-inf"
long double num_parse(std::string const& s);
std::string val_text(Val const& v);
Val val_parse(std::string const& s);
inline bool same_num(long double a, long double b) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); return a == b && std::signbit(a) == std::signbit(b); }
inline bool same_val(Val const& a, Val const& b) { return a.fmt == b.fmt && a.isdec == b.isdec && (!a.isdec || a.dec == b.dec) && same_num(a.lo, b.lo) && same_num(a.hi, b.hi); }
// convert to the number format (round to nearest); used by generators only
long double fmt_round(int fmt, long double x);
long double fmt_next(int fmt, long double x, bool up);

// ---------------------------------------------------------------- operations
enum Kind { K_UN, K_BIN, K_TER, K_PN, K_PN2, K_NUM, K_NUM2, K_B1, K_B2, K_MEM, K_OVL, K_PAIR, K_CTOR, K_TXT, K_COPY, K_CONV, K_CONST, K_DEC, K_RED, K_IO, K_ENV };
#define SIM_OPS(X) \
 X(pos,K_UN) X(neg,K_UN) X(recip,K_UN) X(sqr,K_UN) X(sqrt,K_UN) X(exp,K_UN) X(exp2,K_UN) X(exp10,K_UN) X(log,K_UN) X(log2,K_UN) X(log10,K_UN) \
 X(sin,K_UN) X(cos,K_UN) X(tan,K_UN) X(asin,K_UN) X(acos,K_UN) X(atan,K_UN) X(sinh,K_UN) X(cosh,K_UN) X(tanh,K_UN) X(asinh,K_UN) X(acosh,K_UN) X(atanh,K_UN) \
 X(sign,K_UN) X(ceil,K_UN) X(floor,K_UN) X(trunc,K_UN) X(round_ties_to_even,K_UN) X(round_ties_to_away,K_UN) X(abs,K_UN) \
 X(sqr_rev,K_UN) X(abs_rev,K_UN) X(sin_rev,K_UN) X(cos_rev,K_UN) X(tan_rev,K_UN) X(cosh_rev,K_UN) \
 X(add,K_BIN) X(sub,K_BIN) X(mul,K_BIN) X(div,K_BIN) X(pow,K_BIN) X(atan2,K_BIN) X(min,K_BIN) X(max,K_BIN) X(intersection,K_BIN) X(convex_hull,K_BIN) X(cancel_plus,K_BIN) X(cancel_minus,K_BIN) \
 X(sqr_rev2,K_BIN) X(abs_rev2,K_BIN) X(sin_rev2,K_BIN) X(cos_rev2,K_BIN) X(tan_rev2,K_BIN) X(cosh_rev2,K_BIN) X(mul_rev,K_BIN) \
 X(fma,K_TER) X(mul_rev3,K_TER) \
 X(pown,K_PN) X(pown_rev,K_PN) X(pown_rev2,K_PN2) \
 X(mul_rev_to_pair,K_PAIR) \
 X(inf,K_NUM) X(sup,K_NUM) X(mid,K_NUM) X(rad,K_NUM) X(wid,K_NUM) X(mag,K_NUM) X(mig,K_NUM) X(mid_rad,K_NUM2) \
 X(is_empty,K_B1) X(is_entire,K_B1) X(is_common_interval,K_B1) X(is_singleton,K_B1) X(is_nai,K_B1) X(decoration,K_B1) \
 X(equal,K_B2) X(subset,K_B2) X(superset,K_B2) X(less,K_B2) X(greater,K_B2) X(precedes,K_B2) X(succeeds,K_B2) X(interior,K_B2) X(contains_interior,K_B2) \
 X(strictly_less,K_B2) X(strictly_greater,K_B2) X(strictly_precedes,K_B2) X(strictly_succeeds,K_B2) X(disjoint,K_B2) \
 X(is_member,K_MEM) X(overlap,K_OVL) \
 X(ctor,K_CTOR) X(ctor_dec,K_CTOR) X(ctor_mixed,K_CTOR) X(ctor_mixed_dec,K_CTOR) X(txt,K_TXT) X(copy,K_COPY) X(assign,K_COPY) X(conv,K_CONV) X(newdec,K_CONV) X(ipart,K_CONV) X(setdec,K_CONV) \
 X(empty,K_CONST) X(entire,K_CONST) X(nai,K_CONST) \
 X(sum,K_RED) X(sum_abs,K_RED) X(sum_sqr,K_RED) X(dot,K_RED) \
 X(open,K_IO) X(rd,K_IO) X(rddec,K_IO) X(iclear,K_IO) X(wopen,K_IO) X(manip,K_IO) X(wr,K_IO) X(wrdec,K_IO) X(wrovl,K_IO) X(odev,K_IO) X(oclear,K_IO) \
 X(env,K_ENV)
enum Op {
#define X(n,k) OP_##n,
SIM_OPS(X)
#undef X
 OP_COUNT };
extern char const* const op_names[];
extern Kind const op_kinds[];
int op_parse(std::string const& s);
inline int op_nargs(int op) { switch (op_kinds[op]) { case K_UN: case K_PN: case K_NUM: case K_NUM2: case K_B1: case K_MEM: case K_COPY: case K_CONV: return 1; case K_BIN: case K_PN2: case K_B2: case K_OVL: case K_PAIR: return 2; case K_TER: return 3; case K_IO: return op == OP_wr ? 1 : 0; default: return 0; } }

// operand: literal value, own register or shared constant register
struct Arg {
    char kind = 0;      // 0 none, 'v' literal, 'r' own register, 's' shared constant
    uint8_t fmt = FD; bool isdec = false; int idx = 0;
    Val v;
};
std::string arg_text(Arg const& a);
Arg arg_parse(std::string const& s);

enum { NREG = 4, NSHARED = 3, MAXTHR = 4 };

// one step of one simulated thread
struct Step {
    int id = 0, thr = 0, op = 0;
    uint8_t fmt = FD; bool isdec = false;   // result format / bareness
    int dst = 0;
    Arg a[3];
    long n = 0, m = 0;                      // integer parameters
    long double x = 0, y = 0;               // scalar parameters
    std::string s;                          // text parameter
    std::string e;                          // environment / manipulator / fault detail
    long alloc = 0;                         // >0: the alloc-th allocation in this step fails, <0: that one and all later ones
    long cut = 0; char cutk = 0;            // stream / iterator fault position (1-based) and kind
    long chunk = 0;                         // delivery pattern
    int mask = 0;                           // stream exception mask
    int rep = 1;                            // repetitions
};
std::string step_text(Step const& s);
bool step_parse(std::string const& line, Step& s);

// one scheduling decision: while thread `thr` was at its `at`-th hook of step `step`, run `to`
struct Switch { int thr, step; uint64_t at; int to; };

struct Run {
    std::string prop; uint64_t seed = 0; uint64_t sched_seed = 0; int profile = 0; // schedule profile
    int nthr = 1; int explicit_sched = 0; int warm = 0; // warm: the library's one-time tables exist already when the run starts
    std::vector<Val> init[MAXTHR][3][2];    // [thr][fmt][bare/dec] initial registers
    std::vector<Val> shared[3][2];
    std::vector<Step> steps;                // in per-thread order
    std::vector<Switch> sw;
};
std::string run_text(Run const& r);
bool run_parse(std::string const& t, Run& r);

std::string esc(std::string const& s);      // quote for one token
std::string unesc(std::string const& s);

// ---------------------------------------------------------------- outcome of one executed step
enum Exc : uint8_t { EX_NONE = 0, EX_BADALLOC, EX_IOS, EX_UNDEF, EX_PUNDEF, EX_IPNAI, EX_INVOP, EX_INJECT, EX_STD, EX_OTHER };
extern char const* const exc_names[];

struct Outcome {
    int step = -1, thr = 0, rep = 0;
    uint64_t seq_begin = 0, seq_end = 0;    // global order
    uint8_t exc = 0; std::string what;
    std::string payload;                    // result (canonical text)
    Val ops[3]; uint8_t nops = 0;           // operand values before
    uint8_t ops_changed = 0;                // bit i: operand i differs afterwards
    bool has_dst = false; Val dst0, dst1;   // target before / after
    int flags0 = 0, flags1 = 0, cwd0 = 0, cwd1 = 0;
    int rnd0 = 0, rnd1 = 0;
    // stream state
    int st0 = 0, st1 = 0; long pos0 = 0, pos1 = 0; std::string text; std::string fmt0, fmt1; // text: consumed / emitted characters; fmt: stream format words
    uint8_t fault = 0;                      // injected faults that fired: 1 alloc 2 stream 4 iterator 8 corrupt
    long nalloc = 0;                        // operator new calls
    long live_new = 0, live_mp = 0;         // change of live bytes during the step
    uint64_t ticks = 0; uint64_t vol = 0;   // instrumented accesses, bytes requested
    std::string key;                        // self-contained query text for the isolated reference execution
};

} // namespace sim
#endif
