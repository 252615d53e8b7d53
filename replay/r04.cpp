#include <papilio/utf/utf.hpp>
#include <papilio/utf/string.hpp>
#include "rp.hpp"
using namespace papilio; using namespace papilio::utf; using namespace rp;
template <typename C> void one(const cps& v) {
    auto s = enc<C>(v); tight<C> t(s); auto L = v.size(); basic_string_ref<C> r(t.sv());
    std::vector<std::size_t> at; std::size_t o = 0; for(auto c : v) { at.push_back(o); o += unit_len<C>(c); } at.push_back(o);
    note(cat("sizeof ", sizeof(C), " ", show(v)));
    const C* p = t.p.get();
    stage = "forward"; { std::size_t k = 0; for(auto it = r.begin(); it != r.end(); ++it, ++k) { CHECK(k < L && it.base() == p + at[k] && (char32_t)*it == v[k], "at ", k); } CHECK(k == L, "count ", k); CHECK(r.end().base() == p + at[L], "end"); }
    stage = "forward, postfix"; { std::size_t k = 0; auto it = codepoint_begin(t.sv()); while(it != codepoint_end(t.sv())) { auto old = it++; CHECK(k < L && old.base() == p + at[k] && (char32_t)*old == v[k], "at ", k); ++k; } CHECK(k == L, "count ", k); }
    stage = "backward"; { std::size_t k = L; auto it = r.end(); while(it != r.begin()) { --it; CHECK(k > 0, "count"); --k; CHECK(it.base() == p + at[k] && (char32_t)*it == v[k], "at ", k); } CHECK(k == 0, "count ", k); }
    stage = "backward, postfix"; { std::size_t k = L; auto it = r.end(); while(it != r.begin()) { auto old = it--; CHECK(k > 0 && old.base() == p + at[k], "old at ", k); --k; CHECK(it.base() == p + at[k] && (char32_t)*it == v[k], "at ", k); } CHECK(k == 0, "count ", k); }
    stage = "reverse"; { std::size_t k = L; for(auto it = r.rbegin(); it != r.rend(); ++it) { CHECK(k > 0, "count"); --k; CHECK((char32_t)*it == v[k] && std::prev(it.base()).base() == p + at[k], "at ", k); } CHECK(k == 0, "count ", k); }
    if(L > 40) return;
    stage = "moves";
    for(std::size_t a = 0; a <= L; ++a) for(std::size_t b = 0; b <= L; ++b) {
        note(cat("sizeof ", sizeof(C), " ", show(v), " from ", a, " to ", b));
        auto x = r.begin(); for(std::size_t i = 0; i < a; ++i) ++x;
        auto y = r.begin(); for(std::size_t i = 0; i < b; ++i) ++y;
        std::ptrdiff_t d = (std::ptrdiff_t)b - (std::ptrdiff_t)a;
        CHECK(x.base() == p + at[a] && y.base() == p + at[b], "single steps");
        { auto z = x; z += d; CHECK(z.base() == p + at[b] && (b == L || (char32_t)*z == v[b]), "+="); }
        { auto z = x; z -= -d; CHECK(z.base() == p + at[b] && (b == L || (char32_t)*z == v[b]), "-="); }
        CHECK((x + d).base() == p + at[b] && (d + x).base() == p + at[b] && (x - (-d)).base() == p + at[b], "+ and -");
        { auto z = x + d; auto w = z; if(b < L) { ++w; CHECK(w.base() == p + at[b + 1], "++ after +"); } if(b > 0) { --z; CHECK(z.base() == p + at[b - 1], "-- after +"); } }
        CHECK(y - x == d && x - y == -d, "difference is ", y - x);
        CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "relations");
        { auto z = x, w = y; swap(z, w); CHECK(z.base() == y.base() && w.base() == x.base(), "swap"); }
        // walk back and forth between the two positions
        { auto z = y; std::size_t k = b; while(k > a) { --z; --k; CHECK(z.base() == p + at[k] && (char32_t)*z == v[k], "-- at ", k); } while(k < a) { CHECK((char32_t)*z == v[k], "*"); ++z; ++k; CHECK(z.base() == p + at[k], "++ at ", k); } }
        if(a < L) CHECK(x.size() == at[a + 1] - at[a] && (bool)x, "size");
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    auto all = [](const cps& v) { one<char>(v); one<char8_t>(v); one<char16_t>(v); one<char32_t>(v); one<wchar_t>(v); };
    each_cps(4, all, 2000, 12);
    for(std::size_t n : {127, 128, 255, 256, 257}) { all(cps(n, U'a')); all(rndcps(n)); }
    for(std::uint32_t c = 0; c <= 0x10FFFF && more(); c += (c < 0x3000 || (c & 0xFFF) > 0xFF0 || (c & 0xFFF) < 16) ? 1 : 13) if(is_scalar(c)) all(cps{U'x', (char32_t)c, U'y'});
    return done();
}
