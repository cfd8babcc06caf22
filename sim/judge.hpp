// Verdicts over recorded runs. Not instrumented, shares no code with the library under test.
#ifndef SIM_JUDGE_HPP
#define SIM_JUDGE_HPP
#include "mathref.hpp"
#include <gmpxx.h>
namespace sim {
// exact number of a literal; numbers beyond every format are kept as classes
struct XNum {
    enum { EXACT, HUGE_, TINY } cls = EXACT; int sgn = 0; mpq_class q; bool bigexp = false;
    int base = 10; long pos = 0; std::string digs;      // for the order of two numbers of the same class
};
int xcmp(XNum const& a, XNum const& b);                  // -1 0 1, 9 = not decided by the model
bool below(long double l, XNum const& x, int fmt);       // l <= x
bool above(long double u, XNum const& x, int fmt);       // x <= u
// model of interval literals, written from the documented grammar
struct Lit {
    int ok = 0;                 // 0 malformed, 1 well formed, 2 not decided by the model
    bool uncertain = false, empty = false, nai = false, loinf = false, hiinf = false; XNum lo, hi;
    int suffix = -1;            // decoration given
    size_t used = 0;            // characters of the literal incl. leading space
    bool used_known = true;
    bool hugeorder = false;     // the order of the bounds hangs on exponents of six digits or more
};
Lit model_literal(std::string const& t, bool skipws, bool numdec_known = true);
// is v what the literal asks for (format of v); msg explains
bool literal_value(Lit const& m, Val const& v, std::string& msg);
bool literal_tight(Lit const& m, Val const& v, std::string& msg);     // smallest interval of the format enclosing the literal

struct J {
    Run const& r; RunLog const& log; Engine& e; Counters& c; std::vector<Violation>& v; std::map<int, Step const*> by;
    std::vector<Step const*> open_of;   // per outcome: the open/wopen step in force (same thread)
    J(Run const& r, RunLog const& l, Engine& e, Counters& c, std::vector<Violation>& v);
    Step const* st(Outcome const& o) const { auto i = by.find(o.step); return i == by.end() ? nullptr : i->second; }
    void fail(std::string const& cls, Outcome const& o, std::string const& msg);
    Outcome const& iso(size_t i, int cwd);       // the same operation alone in a pristine process
};
std::string describe(Step const& s, Outcome const& o);
int expected_bits(J& j, size_t i, bool& known, int* order = nullptr);
void judge_isolated(J& j, size_t i, bool flags);
void judge_extract(J& j, size_t i);
void judge_text_ctor(J& j, size_t i);
void judge_text_tight(J& j, size_t i);
void judge_delivery(J& j, size_t i);
void judge_insert(J& j, size_t i);
void judge_round_trip(J& j);
void judge_flags(J& j, bool traps);
void judge_memory(J& j);
void judge_alloc(J& j, size_t i);
struct RdInfo { int mask = 0; long flags = 0; long cut = -1; char kind = 0; bool fired = false; std::string avail; bool limited = false; };
RdInfo rd_info(Outcome const& o);
enum { ST_BAD = 1, ST_EOF = 2, ST_FAIL = 4 };
}
#endif
