// Text input and output through simulated devices. All stream code lives in this one translation unit.
#include "exec.hpp"
#include <istream>
#include <ostream>
#include <iomanip>
#include <locale>
#include <sys/mman.h>
namespace ex {
// ---- input device: delivers the text in pieces, and fails where told to
struct SimIn : std::streambuf {
    std::string data; size_t given = 0; long chunk = 1; long cut = 0; char kind = 0; bool fired = false; bool once() const { return kind == 't' || kind == 'u'; } int fires = 0; uint64_t salt = 0; char buf[64]; size_t base = 0;
    // cut: 1-based index of the character whose delivery fails
    int_type underflow() override {
        rt::Pause p; { rt::tl.on = p.s; rt::hookpoint(3); rt::tl.on = 0; }
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if (cut && long(given) == cut - 1 && !(fired && once())) {
            if (kind == 'e' || kind == 't') { fired = true; ++fires; setg(buf, buf, buf); base = given; return traits_type::eof(); }
            if (kind == 'x' || kind == 'u') { fired = true; ++fires; setg(buf, buf, buf); base = given; throw Injected{ 2 }; }
            if (kind == 'i') { fired = true; ++fires; setg(buf, buf, buf); base = given; throw std::ios_base::failure("device"); }
        }
        if (given >= data.size()) { setg(buf, buf, buf); base = given; return traits_type::eof(); }
        size_t n = chunk <= 0 ? 64 : size_t(chunk); if (chunk > 64) { salt = mix(salt, given + 1); n = 1 + salt % (chunk - 64); }
        if (n > sizeof buf) n = sizeof buf; if (n > data.size() - given) n = data.size() - given;
        if (cut && long(given) < cut - 1 && !(fired && once()) && long(given + n) > cut - 1) n = cut - 1 - given;
        if (chunk == -1) { setg(buf, buf, buf); base = given; return traits_type::to_int_type(data[given]); }     // unbuffered: nothing that was taken can be put back
        memcpy(buf, data.data() + given, n); setg(buf, buf, buf + n); base = given; given += n;
        return traits_type::to_int_type(*gptr());
    }
    int_type uflow() override { int_type c = underflow(); if (traits_type::eq_int_type(c, traits_type::eof())) return c; if (gptr() < egptr()) gbump(1); else base = ++given; return c; }
    std::streamsize showmanyc() override { return 0; }
    size_t pos() const { return base + (gptr() - eback()); }
};
// ---- output device
struct SimOut : std::streambuf {
    ~SimOut() { munmap(cap, CAP); }
    enum { CAP = 1 << 23 }; char* cap = (char*)mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); size_t n = 0; long cut = 0; char kind = 0; bool fired = false;
    bool fails() {     // about to accept one more character
        if (cut && long(n) >= cut - 1 && !(kind == 't' && fired)) { fired = true; if (kind == 'x') throw Injected{ 3 }; if (kind == 'i') throw std::ios_base::failure("device"); return true; }
        return n + 1 >= CAP;
    }
    int_type overflow(int_type ch) override {
        rt::Pause p; { rt::tl.on = p.s; rt::hookpoint(3); rt::tl.on = 0; }
        if (traits_type::eq_int_type(ch, traits_type::eof())) return traits_type::not_eof(ch);
        if (fails()) return traits_type::eof();
        cap[n++] = traits_type::to_char_type(ch); return ch;
    }
    std::streamsize xsputn(char const* s, std::streamsize k) override {
        rt::Pause p; { rt::tl.on = p.s; rt::hookpoint(3); rt::tl.on = 0; }
        std::streamsize i = 0; for (; i < k; ++i) { if (fails()) break; cap[n++] = s[i]; } return i;
    }
};
struct Streams { SimIn in; std::istream* is = nullptr; SimOut out; std::ostream* os = nullptr; DC dec = DC::trv; std::string last; };
struct wild_ctype : std::ctype<char> {   // brackets, digits and letters are white space, white space is not
    static mask const* table() { static mask t[table_size]; static bool once = false; if (!once) { for (size_t i = 0; i < table_size; ++i) { mask m = classic_table()[i]; t[i] = (m & space) ? mask(m & ~space) : strchr("[]_,?0123456789aein", int(i)) && i ? mask(m | space) : m; } once = true; } return t; }
    wild_ctype() : std::ctype<char>(table()) {}
    char do_tolower(char c) const override { return c == 'I' ? char(0xFD) : std::ctype<char>::do_tolower(c); } char do_toupper(char c) const override { return c == 'i' ? char(0xDD) : std::ctype<char>::do_toupper(c); }
    char const* do_tolower(char* b, char const* e) const override { for (; b < e; ++b) *b = do_tolower(*b); return e; }
    char const* do_toupper(char* b, char const* e) const override { for (; b < e; ++b) *b = do_toupper(*b); return e; } };
struct comma_punct : std::numpunct<char> {
    char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };

void streams_init(Ctx& c) { c.st = new Streams; }
static int const ids[] = { p1788::io::text_representation_manip_id, p1788::io::string_width_manip_id, p1788::io::representation_manip_id, p1788::io::number_representation_manip_id, p1788::io::width_manip_id, p1788::io::precision_manip_id,
    p1788::io::special_representation_manip_id, p1788::io::punctuation_manip_id, p1788::io::uncertain_exponent_manip_id, p1788::io::dec_manip_id, p1788::io::overlapping_manip_id };
static void iword_touch(std::ios_base& s) { for (int i : ids) s.iword(i); }
void streams_done(Ctx& c) { delete c.st->is; delete c.st->os; delete c.st; c.st = nullptr; }
static int loc_id(std::locale const& l) { return dynamic_cast<comma_punct const*>(&std::use_facet<std::numpunct<char>>(l)) ? 1 : dynamic_cast<wild_ctype const*>(&std::use_facet<std::ctype<char>>(l)) ? 2 : 0; }
static std::locale loc_of(int i) { return i == 1 ? std::locale(std::locale::classic(), new comma_punct) : i == 2 ? std::locale(std::locale::classic(), new wild_ctype) : std::locale::classic(); }
static std::string words(std::ios& s)
{
    std::string r = std::to_string(long(s.flags())) + "," + std::to_string(long(s.width())) + "," + std::to_string(long(s.precision())) + "," + std::to_string(int((unsigned char)s.fill()));
    for (int i : ids) r += "," + std::to_string(s.iword(i));
    r += "," + std::to_string(loc_id(s.getloc()));
    return r;
}
static void set_words(std::ios& s, std::string const& t)
{
    std::vector<long> v; size_t b = 0; while (b < t.size()) { size_t e = t.find(',', b); if (e == std::string::npos) e = t.size(); v.push_back(atol(t.substr(b, e - b).c_str())); b = e + 1; }
    if (v.size() < 4) return;
    s.flags(std::ios_base::fmtflags(v[0])); s.width(v[1]); s.precision(v[2]); s.fill(char(v[3]));
    for (size_t i = 0; i + 4 < v.size() && i < sizeof ids / sizeof *ids; ++i) s.iword(ids[i]) = v[i + 4];
    size_t q = 4 + sizeof ids / sizeof *ids; if (v.size() > q && v[q]) s.imbue(loc_of(v[q]));
}
static void manip(std::ostream& os, std::string const& e)
{
    std::string k = e; size_t q = k.find(':'); long n = 0; if (q != std::string::npos && k.compare(0, 3, "std") != 0) { n = atol(k.c_str() + q + 1); k = k.substr(0, q); }
    if (p1788_manip(os, k, n)) return;
    if (k.compare(0, 4, "std:") == 0) {
        std::string f = k.substr(4); std::string a; size_t z = f.find(':'); if (z != std::string::npos) { a = f.substr(z + 1); f = f.substr(0, z); }
        if (f == "hex") os << std::hex; else if (f == "oct") os << std::oct; else if (f == "dec") os << std::dec; else if (f == "showpos") os << std::showpos; else if (f == "showbase") os << std::showbase; else if (f == "left") os << std::left; else if (f == "right") os << std::right; else if (f == "internal") os << std::internal;
        else if (f == "fill") os.fill(a.empty() ? '*' : a[0]); else if (f == "width") os.width(atoi(a.c_str())); else if (f == "prec") os.precision(atoi(a.c_str())); else if (f == "uppercase") os << std::uppercase; else if (f == "fixed") os << std::fixed; else if (f == "sci") os << std::scientific; else if (f == "comma") os.imbue(std::locale(std::locale::classic(), new comma_punct)); else if (f == "ctype") os.imbue(std::locale(std::locale::classic(), new wild_ctype)); else if (f == "classic") os.imbue(std::locale::classic()); else if (f == "boolalpha") os << std::boolalpha; else if (f == "unitbuf") os << std::unitbuf;
    }
}
template<class T> static void rd(Ctx& c, Step const& s, Outcome& o)
{
    Streams& t = *c.st; RegT<T>& r = c.r.of((T*)0); std::istream& is = *t.is;
    if (s.isdec) { D<T>& x = r.d[s.dst % NREG].get(); guarded(c, s, o, [&] { is >> x; }); }
    else { I<T>& x = r.b[s.dst % NREG].get(); guarded(c, s, o, [&] { is >> x; }); }
}
template<class T> static void wr(Ctx& c, Step const& s, void* p, Outcome& o)
{
    Streams& t = *c.st; std::ostream& os = *t.os;
    if (s.a[0].isdec) { D<T>& x = *(D<T>*)p; guarded(c, s, o, [&] { os << x; }); }
    else { I<T>& x = *(I<T>*)p; guarded(c, s, o, [&] { os << x; }); }
}
static std::string tail(SimIn const& in) { size_t p = in.pos(); return p < in.data.size() ? in.data.substr(p) : std::string(); }
bool exec_io(Ctx& c, Step const& s, void** p, Outcome& o)
{
    Streams& t = *c.st;
    switch (s.op) {
    case OP_open: {
        delete t.is; t.is = nullptr; t.in.~SimIn(); new (&t.in) SimIn;
        bool last = s.e.find("last") != std::string::npos; t.in.data = last ? t.last : s.s; o.text = last ? t.in.data : std::string(); t.in.chunk = s.chunk ? s.chunk : 1; t.in.cut = s.cut; t.in.kind = s.cutk; t.in.salt = s.n;
        t.is = new std::istream(&t.in); if (s.e.find("noskipws") != std::string::npos) *t.is >> std::noskipws; if (s.e.find("comma") != std::string::npos) t.is->imbue(std::locale(std::locale::classic(), new comma_punct)); if (s.e.find("ctype") != std::string::npos) t.is->imbue(std::locale(std::locale::classic(), new wild_ctype)); if (s.e.find("hex") != std::string::npos) *t.is >> std::hex;
        if (s.m) t.is->width(s.m);
        t.is->exceptions(std::ios_base::iostate(s.mask)); return true; }
    case OP_rd: case OP_rddec: {
        if (!t.is) { o.step = -1; return true; }
        o.st0 = t.is->rdstate(); o.pos0 = t.in.pos(); bool f0 = t.in.fired; int n0 = t.in.fires; o.key = tail(t.in); o.fmt0 = std::to_string(int(t.is->exceptions())) + "," + std::to_string(long(t.is->flags())) + "," + std::to_string(t.in.cut ? t.in.cut - 1 - long(t.in.pos()) : -1) + "," + (t.in.kind ? std::string(1, t.in.kind) : "-") + "," + (f0 ? "1" : "0");
        if (s.op == OP_rddec) { DC d0 = t.dec; o.dst0.isdec = true; o.dst0.dec = uint8_t(d0); guarded(c, s, o, [&] { *t.is >> t.dec; }); o.dst1.isdec = true; o.dst1.dec = uint8_t(t.dec); o.has_dst = true; }
        else if (s.fmt == FF) rd<float>(c, s, o); else if (s.fmt == FD) rd<double>(c, s, o); else rd<long double>(c, s, o);
        o.st1 = t.is->rdstate(); o.pos1 = t.in.pos(); if (o.pos1 > o.pos0) o.text = t.in.data.substr(o.pos0, o.pos1 - o.pos0);
        if (t.in.fires != n0) o.fault |= 2;
        if (s.op == OP_rd) { Val v = snap_ptr(reg_ptr(c.r, s.fmt, s.isdec, s.dst), s.fmt, s.isdec); o.payload = val_text(v); } else o.payload = std::to_string(int(t.dec));
        return true; }
    case OP_iclear: if (t.is) { t.is->exceptions(std::ios_base::goodbit); t.is->clear(); if (s.n) { t.in.cut = 0; } } return true;
    case OP_wopen: {
        delete t.os; t.os = nullptr; t.out.~SimOut(); new (&t.out) SimOut; t.out.n = 0;
        t.os = new std::ostream(&t.out); if (s.m != 7) iword_touch(*t.os); set_words(*t.os, s.e); t.os->exceptions(std::ios_base::iostate(s.mask)); t.out.cut = s.cut; t.out.kind = s.cutk; return true; }
    case OP_manip: if (t.os) { o.st0 = t.os->rdstate(); guarded(c, s, o, [&] { manip(*t.os, s.e); }); o.st1 = t.os->rdstate(); } else o.step = -1; return true;
    case OP_wr: case OP_wrdec: case OP_wrovl: {
        if (!t.os) { o.step = -1; return true; }
        o.st0 = t.os->rdstate(); o.fmt0 = words(*t.os); size_t n0 = t.out.n; bool f0 = t.out.fired; t.out.fired = false; o.key = std::to_string(int(t.os->exceptions()));
        if (s.op == OP_wrdec) { DC d = DC(s.n); guarded(c, s, o, [&] { *t.os << d; }); }
        else if (s.op == OP_wrovl) { p1788::overlapping::overlapping_state v = p1788::overlapping::overlapping_state(s.n); guarded(c, s, o, [&] { *t.os << v; }); }
        else if (s.a[0].fmt == FF) wr<float>(c, s, p[0], o); else if (s.a[0].fmt == FD) wr<double>(c, s, p[0], o); else wr<long double>(c, s, p[0], o);
        o.st1 = t.os->rdstate(); o.fmt1 = words(*t.os); o.text.assign(t.out.cap + n0, t.out.n - n0); o.payload = o.text; if (t.out.fired) o.fault |= 2; t.out.fired = t.out.fired || f0;
        t.last = o.text;
        return true; }
    case OP_odev: if (t.os) { t.out.cut = s.cut ? long(t.out.n) + s.cut : 0; t.out.kind = s.cutk; t.out.fired = false; t.os->exceptions(std::ios_base::goodbit); std::ios_base::iostate st = t.os->rdstate(); (void)st; try { t.os->exceptions(std::ios_base::iostate(s.mask)); } catch (...) {} } return true;
    case OP_oclear: if (t.os) { t.os->exceptions(std::ios_base::goodbit); t.os->clear(); t.out.cut = 0; t.out.fired = false; } return true;
    default: return false;
    }
}
} // namespace ex
