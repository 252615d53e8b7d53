#include <papilio/utf/utf.hpp>
#include <papilio/utf/string.hpp>
#include "rp.hpp"
using namespace papilio; using namespace papilio::utf; using namespace rp;
static int sgn(const cps& a, const cps& b) { for(std::size_t i = 0;; ++i) { if(i == a.size()) return i == b.size() ? 0 : -1; if(i == b.size()) return 1; if(a[i] != b[i]) return a[i] < b[i] ? -1 : 1; } }
static std::size_t find_(const cps& h, const cps& q, std::size_t from) { for(std::size_t i = from; i < h.size(); ++i) if(q.size() <= h.size() - i && std::equal(q.begin(), q.end(), h.begin() + i)) return i; return h.size(); }
template <typename C, typename D> void two(const cps& a, const cps& b) {
    auto s = enc<C>(a); auto t = enc<D>(b); tight<C> S(s); tight<D> T(t); basic_string_ref<C> x(S.sv()); basic_string_ref<D> y(T.sv());
    note(cat("sizeof ", sizeof(C), " ", show(a), " sizeof ", sizeof(D), " ", show(b)));
    int w = sgn(a, b);
    stage = "compare"; int g = x.compare(y); CHECK((g < 0) == (w < 0) && (g == 0) == (w == 0), "got ", g, " expected ", w);
    stage = "=="; CHECK((x == y) == (w == 0), "expected ", w == 0);
    if constexpr(std::is_same_v<C, D>) {
        stage = "=="; CHECK((x == T.sv()) == (w == 0), "view"); stage = "compare"; int g2 = x.compare(T.sv()); CHECK((g2 < 0) == (w < 0) && (g2 == 0) == (w == 0), "view");
        stage = "<"; CHECK((x < y) == (w < 0), "expected ", w < 0);
        bool sw = b.size() <= a.size() && std::equal(b.begin(), b.end(), a.begin()), ew = b.size() <= a.size() && std::equal(b.rbegin(), b.rend(), a.rbegin());
        stage = "starts_with"; CHECK(x.starts_with(y) == sw, "expected ", sw);
        stage = "ends_with"; CHECK(x.ends_with(y) == ew, "expected ", ew);
        std::vector<const C*> at; { const C* p = S.p.get(); for(auto c : a) { at.push_back(p); p += unit_len<C>(c); } at.push_back(p); }
        stage = "contains"; CHECK(x.contains(y) == (b.empty() || find_(a, b, 0) < a.size()), "");
        for(std::size_t pos = 0; pos <= a.size() + 1; ++pos) {
            std::size_t f = pos > a.size() ? a.size() : find_(a, b, pos);
            stage = "find"; CHECK(x.find(y, pos).base() == at[f], "from ", pos, " expected ", f); CHECK(x.find(T.p.get(), pos, T.n).base() == at[f], "from ", pos, " expected ", f);
            if(b.size() == 1) { stage = "find(code point)"; CHECK(x.find(codepoint(b[0]), pos).base() == at[f], "from ", pos, " expected ", f); }
        }
        if(b.size() == 1) { codepoint c(b[0]);
            stage = "contains(code point)"; CHECK(x.contains(c) == (find_(a, b, 0) < a.size()), "");
            stage = "starts_with(code point)"; CHECK(x.starts_with(c) == sw, "expected ", sw); stage = "ends_with(code point)"; CHECK(x.ends_with(c) == ew, "expected ", ew); }
    }
}
template <typename C> void one(const cps& a, const cps& b) { two<C, char>(a, b); two<C, char8_t>(a, b); two<C, char16_t>(a, b); two<C, char32_t>(a, b); two<C, wchar_t>(a, b); }
static void all(const cps& a, const cps& b) { one<char>(a, b); one<char8_t>(a, b); one<char16_t>(a, b); one<char32_t>(a, b); one<wchar_t>(a, b); }
int main(int argc, char** argv) {
    init(argc, argv);
    std::vector<cps> v; each_cps(3, [&](const cps& a) { v.push_back(a); }, 0, 0, {U'a', 0x7FF, 0xFFFD, 0x10000, 0x10FFFF});
    for(auto& a : v) for(auto& b : v) if(a.size() + b.size() < 5 && more()) all(a, b);
    for(char32_t c : pool) for(char32_t d : pool) { all({c}, {d}); all({U'x', c}, {U'x', d}); all({c, U'x'}, {c, d}); }
    for(int i = 0; i < 20000 && more(); ++i) {
        cps a = rndcps(12), b = rndcps(6);
        if(rnd(2) && !a.empty()) { std::size_t p = rnd(a.size()), n = rnd(a.size() - p + 1); b.assign(a.begin() + p, a.begin() + p + n); if(rnd(3) == 0 && !b.empty()) b[rnd(b.size())] = rndcp(); }
        all(a, b);
    }
    for(std::size_t n : {127, 128, 255, 256, 257, 300}) { cps a = rndcps(0); for(std::size_t i = 0; i < n; ++i) a.push_back(rndcp()); cps b = a; all(a, b); b.back() = rndcp(); all(a, b); b.pop_back(); all(a, b); all(b, a); all(a, {a.back()}); }
    return done();
}
