// Independent reference for numbers: multiple precision bounds on exact values. Shares no code with the library under test.
#ifndef SIM_MATHREF_HPP
#define SIM_MATHREF_HPP
#include "engine.hpp"
#include <mpfr.h>
namespace sim {
enum { REFPREC = 384 };
struct M {
    mpfr_t v;
    M() { mpfr_init2(v, REFPREC); mpfr_set_zero(v, 1); }
    explicit M(long prec, int) { mpfr_init2(v, prec); mpfr_set_zero(v, 1); }
    M(long double x) { mpfr_init2(v, REFPREC); mpfr_set_ld(v, x, MPFR_RNDN); }
    M(M const& o) { mpfr_init2(v, mpfr_get_prec(o.v)); mpfr_set(v, o.v, MPFR_RNDN); }
    M& operator=(M const& o) { if (this != &o) { mpfr_set_prec(v, mpfr_get_prec(o.v)); mpfr_set(v, o.v, MPFR_RNDN); } return *this; }
    ~M() { mpfr_clear(v); }
};
struct Br { M lo, hi; };        // bracket: the exact value lies in [lo, hi]
void ref_init();                // wide exponent range; call in the judging process
long double round_fmt(mpfr_t const x, int fmt, mpfr_rnd_t r);  // correctly rounded to the number format
bool check_enclosure(Run const& r, Step const& s, Outcome const& o, std::string& msg, Counters& c);
bool check_decoration(Run const& r, Step const& s, Outcome const& o, std::string& msg, Counters& c);
bool check_reduction(Step const& s, Outcome const& o, std::string& msg, Counters& c);
bool check_tight(Run const& r, Step const& s, Outcome const& o, std::string& msg, Counters& c);
bool check_relation(Step const& s, Outcome const& o, std::string& msg, Counters& c);
bool step_is_mixed(Step const& s, Outcome const& o);
std::string mtext(mpfr_t const x);
}
#endif
