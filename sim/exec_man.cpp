// The library's manipulators are applied in this translation unit, intervals are written in exec_io.cpp: like in a program of several units.
#include "exec.hpp"
#include <ostream>
namespace ex {
bool p1788_manip(std::ostream& os, std::string const& k, long n)
{
    namespace io = p1788::io;
    if (k == "upper") os << io::upper_case; else if (k == "lower") os << io::lower_case;
    else if (k == "sw") os << io::string_width(n); else if (k == "w") os << io::width(n); else if (k == "p") os << io::precision(n);
    else if (k == "infsup") os << io::inf_sup_form; else if (k == "unc") os << io::uncertain_form; else if (k == "uncup") os << io::uncertain_up_form; else if (k == "uncdn") os << io::uncertain_down_form;
    else if (k == "dsci") os << io::decimal_scientific; else if (k == "dec") os << io::decimal; else if (k == "sci") os << io::scientific; else if (k == "hex") os << io::hex;
    else if (k == "stext") os << io::special_text; else if (k == "sbounds") os << io::special_bounds; else if (k == "snob") os << io::special_no_bounds;
    else if (k == "punc") os << io::punctuation; else if (k == "nopunc") os << io::no_punctuation;
    else if (k == "uexp") os << io::uncertain_exponent; else if (k == "nouexp") os << io::no_uncertain_exponent;
    else if (k == "dalpha") os << io::dec_alpha; else if (k == "dnum") os << io::dec_numeric;
    else if (k == "oalpha") os << io::overlapping_alpha; else if (k == "onum") os << io::overlapping_numeric;
    else return false;
    return true;
}
} // namespace ex
