#ifndef SIM_TEXTGEN_HPP
#define SIM_TEXTGEN_HPP
#include "core.hpp"
namespace sim {
std::string literal(Rng& g, int fmt, bool allow_dec);   // well-formed interval literal
std::string bad_literal(Rng& g);                        // usually malformed
std::string hostile(Rng& g);                            // anything
}
#endif
