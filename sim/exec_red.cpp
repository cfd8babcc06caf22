// Reductions over ranges delivered by a simulated iterator.
#include "exec.hpp"
#include <iterator>
#include <list>
#include <initializer_list>
namespace ex {
struct Feed { long count; long cut; char kind; Ctx* c; Outcome* o; };
static __thread Feed* feed;
static void feed_event()
{
    Feed* f = feed; if (!f) return;
    ++f->count;
    { rt::Pause p; }
    rt::hookpoint(3);
    if (f->cut && f->count == f->cut) {
        switch (f->kind) {
        case 'x': f->o->fault |= 4; { rt::Pause p; } throw Injected{ 1 };
        case 'r': { f->o->fault |= 4; I<float> a(1.0f, 3.0f), b(0.1f, 0.2f); I<float> z = I<float>::mul(a, b); (void)z; } break;
        case 'R': { f->o->fault |= 4; I<long double> a(1.0L, 3.0L); I<long double> z = I<long double>::exp(a); (void)z; } break;
        case 'e': { f->o->fault |= 4; mpfr_set_emin(-5); mpfr_set_emax(5); } break;    // the caller uses MPFR itself
        }
    }
}
template<class T> struct It {
    typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const* pointer; typedef T const& reference;
    T const* p;
    reference operator*() const { feed_event(); return *p; }
    It& operator++() { ++p; return *this; } It operator++(int) { It t(*this); ++p; return t; }
    It& operator--() { --p; return *this; } It operator--(int) { It t(*this); --p; return t; }
    It& operator+=(std::ptrdiff_t n) { p += n; return *this; } It operator+(std::ptrdiff_t n) const { It t(*this); t.p += n; return t; }
    reference operator[](std::ptrdiff_t n) const { feed_event(); return p[n]; }
    std::ptrdiff_t operator-(It const& o) const { return p - o.p; }
    bool operator==(It const& o) const { return p == o.p; } bool operator!=(It const& o) const { return p != o.p; } bool operator<(It const& o) const { return p < o.p; }
};
template<class T> static std::vector<T> nums(std::string const& s)
{
    std::vector<T> v; size_t b = 0;
    while (b < s.size()) { size_t e = s.find(' ', b); if (e == std::string::npos) e = s.size(); if (e > b) v.push_back(T(num_parse(s.substr(b, e - b)))); b = e + 1; }
    return v;
}
template<class T> static void red_list(int op, std::initializer_list<T> p, std::initializer_list<T> q, p1788::reduction::rnd_mode r, T& res)
{
    using namespace p1788::reduction;
    switch (op) { case OP_sum: res = sum(p, r); break; case OP_sum_abs: res = sum_abs(p, r); break; case OP_sum_sqr: res = sum_sqr(p, r); break; default: res = dot(p, q, r); }
}
template<class T> static bool red(Ctx& c, Step const& s, Outcome& o)
{
    using namespace p1788::reduction;
    rnd_mode r = s.n == 0 ? rnd_mode::to_nearest : s.n == 1 ? rnd_mode::downward : s.n == 2 ? rnd_mode::upward : rnd_mode::to_zero;
    std::vector<T> a = nums<T>(s.s), b = nums<T>(s.e);
    if (s.op == OP_dot) { size_t m = a.size() < b.size() ? a.size() : b.size(); a.resize(m); b.resize(m); }
    a.reserve(1); b.reserve(1);
    T res = T(0);
    if (s.chunk == 0) {
        T const* x = a.data(); T const* y = x + a.size(); T const* z = b.data();
        guarded(c, s, o, [&] { switch (s.op) { case OP_sum: res = sum(x, y, r); break; case OP_sum_abs: res = sum_abs(x, y, r); break; case OP_sum_sqr: res = sum_sqr(x, y, r); break; default: res = dot(x, y, z, r); } });
    } else if (s.chunk == 2 && a.size() <= 6) {     // brace lists
        b.resize(a.size() ? a.size() : 1); T const* x = a.data(); T const* y = b.data();
#define E1(v) v[0]
#define E2(v) E1(v), v[1]
#define E3(v) E2(v), v[2]
#define E4(v) E3(v), v[3]
#define E5(v) E4(v), v[4]
#define E6(v) E5(v), v[5]
#define RL(n) guarded(c, s, o, [&] { std::initializer_list<T> p = { E##n(x) }, q = { E##n(y) }; red_list(s.op, p, q, r, res); }); break
        switch (a.size()) {
        case 0: guarded(c, s, o, [&] { std::initializer_list<T> p = {}; red_list(s.op, p, p, r, res); }); break;
        case 1: RL(1); case 2: RL(2); case 3: RL(3); case 4: RL(4); case 5: RL(5); default: RL(6);
        }
    } else if (s.chunk == 3) {
        std::list<T> u(a.begin(), a.end()), v(b.begin(), b.end());
        auto x = u.begin(), y = u.end(), z = v.begin();
        guarded(c, s, o, [&] { switch (s.op) { case OP_sum: res = sum(x, y, r); break; case OP_sum_abs: res = sum_abs(x, y, r); break; case OP_sum_sqr: res = sum_sqr(x, y, r); break; default: res = dot(x, y, z, r); } });
    } else {
        Feed f = { 0, s.cut, s.cutk, &c, &o }; feed = &f;
        It<T> x{ a.data() }, y{ a.data() + a.size() }, z{ b.data() };
        guarded(c, s, o, [&] { switch (s.op) { case OP_sum: res = sum(x, y, r); break; case OP_sum_abs: res = sum_abs(x, y, r); break; case OP_sum_sqr: res = sum_sqr(x, y, r); break; default: res = dot(x, y, z, r); } });
        feed = nullptr;
    }
    o.payload = num_s(res);
    return true;
}
bool exec_red(Ctx& c, Step const& s, void**, Outcome& o) { return s.fmt == FF ? red<float>(c, s, o) : s.fmt == FD ? red<double>(c, s, o) : red<long double>(c, s, o); }
} // namespace ex
