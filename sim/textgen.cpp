#include "textgen.hpp"
namespace sim {
static std::string digits(Rng& g, int n) { std::string s; for (int i = 0; i < n; ++i) s += char('0' + g.below(10)); return s; }
static std::string hexdigits(Rng& g, int n) { std::string s; for (int i = 0; i < n; ++i) s += "0123456789abcdefABCDEF"[g.below(22)]; return s; }
static int len(Rng& g) { return g.chance(1, 10) ? g.range(10, 30) : g.range(1, 4); }
static std::string sign(Rng& g) { int k = g.below(6); return k < 2 ? "-" : k == 2 ? "+" : ""; }
static std::string mant(Rng& g, bool hex)
{
    auto d = [&](int n) { return hex ? hexdigits(g, n) : digits(g, n); };
    switch (g.below(4)) { case 0: return d(len(g)); case 1: return d(len(g)) + "." + d(len(g)); case 2: return "." + d(len(g)); default: return d(len(g)) + (g.chance(1, 2) ? "." : ""); }
}
static std::string expo(Rng& g, int fmt)
{
    static int const big[3] = { 45, 330, 4960 };
    int e; switch (g.below(5)) { case 0: e = g.range(-big[fmt], big[fmt]); break; case 1: e = (g.chance(1, 2) ? 1 : -1) * g.range(big[fmt] - 15, big[fmt] + 5); break; default: e = g.range(-9, 9); }
    std::string s = std::to_string(e); if (e >= 0 && g.chance(1, 4)) s = "+" + s; if (g.chance(1, 12)) { size_t p = s[0] == '-' || s[0] == '+' ? 1 : 0; s.insert(p, "00"); } return s;
}
static std::string number(Rng& g, int fmt)
{
    switch (g.below(8)) {
    case 0: { static int const b[3] = { 150, 1080, 16450 }; int e = g.chance(1, 4) ? g.range(-b[fmt], b[fmt]) : g.range(-20, 20); return sign(g) + (g.chance(1, 6) ? "0X" : "0x") + mant(g, true) + (g.chance(1, 6) ? "P" : "p") + (e >= 0 && g.chance(1, 4) ? "+" : "") + std::to_string(e); }
    case 1: { std::string q = digits(g, g.range(1, 5)); if (q.find_first_not_of('0') == std::string::npos) q += "3"; return sign(g) + digits(g, len(g)) + (g.chance(1, 8) ? " / " : "/") + q; }
    case 2: case 3: return sign(g) + mant(g, false) + (g.chance(1, 5) ? "E" : "e") + expo(g, fmt);
    default: return sign(g) + mant(g, false);
    }
}
static std::string ws(Rng& g) { return g.chance(1, 6) ? (g.chance(1, 2) ? " " : "  \t") : ""; }
static std::string casing(Rng& g, std::string s) { int k = g.below(4); if (k == 0) for (auto& c : s) c = toupper(c); else if (k == 1) for (auto& c : s) if (g.chance(1, 2)) c = toupper(c); return s; }
static double approx(std::string const& n)
{
    size_t sl = n.find('/'); if (sl != std::string::npos) return atof(n.substr(0, sl).c_str()) / atof(n.substr(sl + 1).c_str());
    return strtold(n.c_str(), nullptr) > 1e300L ? 1e300 : strtold(n.c_str(), nullptr) < -1e300L ? -1e300 : double(strtold(n.c_str(), nullptr));
}
std::string literal(Rng& g, int fmt, bool allow_dec)
{
    std::string s; bool unb = false, emp = false, nai = false;
    int k = g.below(20);
    if (k == 0) { s = "[" + ws(g) + casing(g, "empty") + ws(g) + "]"; emp = true; }
    else if (k == 1) { s = "[" + ws(g) + casing(g, "entire") + ws(g) + "]"; unb = true; }
    else if (k == 2 && g.chance(1, 2)) { s = "[" + casing(g, "nai") + "]"; nai = true; }
    else if (k == 3) { s = "[" + ws(g) + "]"; emp = true; }
    else if (k == 4) { s = "[" + ws(g) + "," + ws(g) + "]"; unb = true; }
    else if (k == 5) { s = "[" + ws(g) + casing(g, g.chance(1, 2) ? "-inf" : "-infinity") + "," + ws(g) + number(g, fmt) + ws(g) + "]"; unb = true; }
    else if (k == 6) { s = "[" + ws(g) + number(g, fmt) + ws(g) + "," + (g.chance(1, 4) ? "" : casing(g, g.chance(1, 2) ? "inf" : "+infinity")) + "]"; unb = true; }
    else if (k < 10) s = "[" + ws(g) + number(g, fmt) + ws(g) + "]";
    else if (k < 15) { std::string a = number(g, fmt), b = g.chance(1, 10) ? a : number(g, fmt); if (approx(a) > approx(b)) std::swap(a, b); s = "[" + ws(g) + a + ws(g) + "," + ws(g) + b + ws(g) + "]"; }
    else {
        s = sign(g) + mant(g, false) + "?";
        int q = g.below(6); if (q == 0) { s += "?"; unb = true; } else if (q < 4) s += digits(g, g.chance(1, 10) ? g.range(5, 12) : g.range(1, 3));
        q = g.below(4); if (q == 0) s += g.chance(1, 4) ? "U" : "u"; else if (q == 1) s += g.chance(1, 4) ? "D" : "d";
        if (g.chance(1, 3)) s += (g.chance(1, 4) ? "E" : "e") + expo(g, fmt);
    }
    if (allow_dec && g.chance(2, 5) && !nai) {
        static char const* d[] = { "trv", "def", "dac", "com" }; static char const* dn[] = { "4", "8", "12", "16" };
        int i = emp ? 0 : unb ? g.below(3) : g.below(4);
        s += "_" + (g.chance(1, 3) ? std::string(dn[i]) : casing(g, d[i]));
    }
    return s;
}
static std::string mutate(Rng& g, std::string s)
{
    int n = g.range(1, 3);
    for (int i = 0; i < n && !s.empty(); ++i) {
        size_t p = g.below(s.size());
        switch (g.below(7)) {
        case 0: s.erase(p, 1); break;
        case 1: s.insert(p, 1, s[p]); break;
        case 2: s[p] = char(s[p] ^ (1 << g.below(8))); break;
        case 3: s[p] = "0123456789.,[]?eExXpPuUdD_/+- \tinfcomdatrvl"[g.below(43)]; break;
        case 4: s.resize(p); break;
        case 5: { size_t q = g.below(s.size()); std::swap(s[p], s[q]); } break;
        default: s.insert(p, 1, "0123456789.,[]?eExXpPuUdD_/+- "[g.below(30)]); break;
        }
    }
    return s;
}
std::string bad_literal(Rng& g)
{
    static char const* b[] = { "[2,1]", "[1,2", "1,2]", "[1 2]", "[a]", "[1,2]_ill", "[1,2]_xyz", "[1,inf]_com", "[inf]", "[inf,inf]", "[-inf]", "[-inf,-inf]", "[+inf,1]", "[1,-inf]", "[empty]_def", "[nai]_trv", "[1/0]", "[1/-2]", "[0x1]", "[1e]", "[1e+,2]", "1.5", "1.5?e", "?", "1.?u3", "1.5??3", "[1,2,3]", "[,,]", "[1,]]", "[[1,2]]", "", " ", "[", "]", "[1,2]_", "[1,2]_c", "[1.2.3]", "[--1]", "[1,2]com", "nai", "empty", "[1_2]", "[0x1p]", "[0x.p1]", "[.]", "[1/2/3]", "[ e5 ]", "1.5?e5.5", "[1.0,1.0e-400]", "[1.0001e1, 10]", "-?", "+1.5?u?", "[emptyy]", "[entire]_com", "5.5?99999999999999999999_com", "[-infinity,infinity]_com" };
    if (g.chance(1, 2)) return b[g.below(sizeof b / sizeof *b)];
    return mutate(g, literal(g, g.below(3), true));
}
std::string hostile(Rng& g)
{
    static char const* ex[] = { "99999999999", "2147483647", "2147483648", "-2147483648", "-2147483649", "999999999999999999999999", "-99999999999999999999", "1000000", "-1000000", "100000000", "-100000000", "20000", "-20000", "5000", "-5000", "400", "-400", "2147483640", "-2147483640", "00000000000000000000005", "4294967296", "4294967301", "-4294967291", "9223372036854775807" };
    auto E = [&] { return std::string(ex[g.below(sizeof ex / sizeof *ex)]); };
    switch (g.below(16)) {
    case 12: { std::string s = literal(g, g.below(3), true); int n = g.range(1, 3); for (int i = 0; i < n; ++i) s.insert(g.below(s.size() + 1), std::string(g.range(1, 700), g.chance(1, 4) ? '\t' : ' ')); return s; }
    case 13: return "[" + std::string(g.range(0, 900), ' ') + number(g, 1) + std::string(g.range(0, 900), ' ') + "," + std::string(g.range(0, 900), ' ') + number(g, 1) + std::string(g.range(0, 900), ' ') + (g.chance(1, 2) ? "]" : "x]");
    case 14: { std::string s; int k = g.below(6); int n = g.range(500, 3500); s = k == 0 ? "[" + std::string(n, ' ') + "," + std::string(n / 2, ' ') + "]" : k == 1 ? "[" + digits(g, n) + "]" : k == 2 ? "[0x" + hexdigits(g, n) + "p" + E() + "]" : k == 3 ? digits(g, n) + "?" + digits(g, n / 2) : k == 4 ? "[1/" + std::string(n, '0') + (g.chance(1, 2) ? "3]" : "]") : "[1e" + std::string(n, '0') + "5]"; return g.chance(1, 3) ? mutate(g, s) : s; }
    case 15: { std::string s(1, "[+-.0123456789"[g.below(14)]); int n = g.range(1, 1500); char c = "0 .+-e?/,[]"[g.below(11)]; s += std::string(n, c); if (g.chance(1, 2)) s += "1]"; return s; }
    case 0: return "[" + sign(g) + mant(g, false) + "e" + E() + "]";
    case 1: return "[" + sign(g) + mant(g, false) + "e" + E() + "," + sign(g) + mant(g, false) + "e" + E() + "]";
    case 2: return "[0x" + mant(g, true) + "p" + E() + "]";
    case 3: return "[0x" + mant(g, true) + "p" + E() + ",0x" + mant(g, true) + "p" + E() + "]";
    case 4: return sign(g) + mant(g, false) + "?" + digits(g, g.range(0, 3)) + (g.chance(1, 3) ? "u" : g.chance(1, 2) ? "d" : "") + "e" + E();
    case 5: return "[" + digits(g, g.range(50, 600)) + (g.chance(1, 2) ? "." + digits(g, g.range(1, 300)) : "") + (g.chance(1, 2) ? "e" + E() : "") + "]";
    case 6: return "[0." + std::string(g.range(50, 800), '0') + digits(g, g.range(1, 50)) + "e" + E() + "," + digits(g, 3) + "e" + E() + "]";
    case 7: return digits(g, g.range(30, 300)) + "." + digits(g, g.range(1, 100)) + "?" + digits(g, g.range(1, 300)) + (g.chance(1, 2) ? "e" + E() : "");
    case 8: return "[" + digits(g, g.range(1, 300)) + "/" + digits(g, g.range(1, 300)) + "1]";
    case 9: { std::string s = mutate(g, hostile(g)); return s; }
    case 10: { std::string s; int n = g.range(1, 200); for (int i = 0; i < n; ++i) s += g.chance(1, 4) ? char(g.below(256)) : "0123456789.,[]?eExXpPuUdD_/+- \tinfcomdatrvl"[g.below(43)]; if (g.chance(1, 2)) s = "[" + s + "]"; return s; }
    default: return mutate(g, literal(g, g.below(3), true));
    }
}
} // namespace sim
