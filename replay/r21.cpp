#include <papilio/papilio.hpp>
#include <papilio/accessor/ranges.hpp>
#include <papilio/accessor/tuple.hpp>
#include <span>
#include "rp.hpp"
using namespace papilio; using namespace rp;
struct El { int a, b, c; };
struct Ctx { using char_type = char; };
static std::string last; static const void* at; static std::size_t cnt;
template <> class papilio::basic_format_arg<Ctx> {
public:
    basic_format_arg() noexcept { last = "none"; }
    basic_format_arg(const El& e) { last = "elem"; at = &e; }
    basic_format_arg(std::span<const El> s) { last = "span"; at = s.data(); cnt = s.size(); }
    basic_format_arg(const utf::codepoint& c) { last = "cp:" + std::to_string((std::uint32_t)(char32_t)c); }
    basic_format_arg(utf::string_container s) { auto v = std::string_view(s); last = "str:" + std::string(v); at = v.data(); }
    basic_format_arg(std::size_t n) { last = "size"; cnt = n; }
    basic_format_arg(std::in_place_type_t<bool>, bool b) { last = b ? "true" : "false"; }
};
template <typename R> using AT = accessor_traits<R, Ctx>;
std::ptrdiff_t pick(std::size_t n) {
    switch(rnd(8)) { case 0: return PTRDIFF_MAX; case 1: return PTRDIFF_MIN; case 2: return -(std::ptrdiff_t)n; case 3: return (std::ptrdiff_t)n; case 4: return -(std::ptrdiff_t)n - 1; default: return (std::ptrdiff_t)rnd(2 * n + 5) - (std::ptrdiff_t)n - 2; }
}
template <typename R> void attrs(const R& r, std::size_t n, std::initializer_list<std::pair<const char*, std::size_t>> ok) {
    for(std::string s : {"size", "length", "", "siz", "sizes", "Size", "first", "lengthy"}) {
        const char* w = nullptr; std::size_t wn = 0; for(auto& p : ok) if(s == p.first) { w = p.first; wn = p.second; }
        bool good = true; last = "";
        try { (void)AT<R>::attribute(r, attribute_name(std::string_view(s))); } catch(const invalid_attribute_base&) { good = false; }
        note("attribute " + s); CHECK(good == (w != nullptr), "accepted: ", good); if(w) CHECK(last == "size" && cnt == wn, "value");
    }
}
template <typename R> void seq(const R& r, const El* p, std::size_t n) {
    for(int k = 0; k < 8; ++k) {
        std::ptrdiff_t i = pick(n), x = i < 0 ? i + (std::ptrdiff_t)n : i; note(cat(n, " elements, index ", i));
        (void)AT<R>::index(r, i);
        if(x >= 0 && x < (std::ptrdiff_t)n) CHECK(last == "elem" && at == p + x, last); else CHECK(last == "none", last);
        std::ptrdiff_t a = pick(n), b = pick(n); note(cat(n, " elements, slice ", a, ":", b));
        auto cl = [&](std::ptrdiff_t v) { if(v < 0) v += (std::ptrdiff_t)n; return v < 0 ? 0 : v > (std::ptrdiff_t)n ? (std::ptrdiff_t)n : v; };
        (void)AT<R>::index(r, index_range(a, b));
        if(cl(a) < cl(b)) CHECK(last == "span" && at == p + cl(a) && cnt == std::size_t(cl(b) - cl(a)), last, " ", cnt); else CHECK(last == "none", last);
    }
    attrs(r, n, {{"size", n}});
}
int main(int argc, char** argv) {
    init(argc, argv);
    while(more()) {
        stage = "range"; { std::size_t n = rnd(9); std::vector<El> v(n); seq(v, v.data(), n); std::span<const El> s(v); seq(s, v.data(), n); std::span<El> m(v); seq(m, v.data(), n); }
        stage = "bits"; { std::size_t n = rnd(3) ? rnd(200) : rnd(4); std::vector<bool> v(n); for(std::size_t k = 0; k < n; ++k) v[k] = rnd(2);
            for(int k = 0; k < 20; ++k) { std::ptrdiff_t i = pick(n), x = i < 0 ? i + (std::ptrdiff_t)n : i; note(cat(n, " bits, index ", i)); (void)AT<std::vector<bool>>::index(v, i);
                if(x >= 0 && x < (std::ptrdiff_t)n) CHECK(last == (v[x] ? "true" : "false"), last); else CHECK(last == "none", last); } attrs(v, n, {{"size", n}}); }
        stage = "tuple"; { std::tuple<El, El, El> t; for(int k = 0; k < 6; ++k) { std::ptrdiff_t i = pick(3), x = i < 0 ? i + 3 : i; note(cat("index ", i)); (void)AT<decltype(t)>::index(t, i);
                const El* w = x == 0 ? &std::get<0>(t) : x == 1 ? &std::get<1>(t) : x == 2 ? &std::get<2>(t) : nullptr; if(w) CHECK(last == "elem" && at == w, last); else CHECK(last == "none", last); } }
        stage = "string"; { std::vector<std::uint32_t> c; std::string s; for(std::size_t k = rnd(8); k--;) { std::uint32_t x; switch(rnd(4)) { case 0: x = 1 + rnd(127); break; case 1: x = 128 + rnd(1900); break; case 2: x = 0x3042 + rnd(900); break; default: x = 0x1f600 + rnd(60); } c.push_back(x); utf::codepoint q((char32_t)x); s.append(q.data(), q.size_bytes()); }
            std::size_t n = c.size(); utf::string_container r(s.data(), s.size());
            auto sub = [&](std::size_t a, std::size_t b) { std::string o; for(; a < b; ++a) { utf::codepoint q((char32_t)c[a]); o.append(q.data(), q.size_bytes()); } return o; };
            for(int k = 0; k < 8; ++k) { std::ptrdiff_t i = pick(n), x = i < 0 ? i + (std::ptrdiff_t)n : i; note(cat("string of ", n, ", index ", i)); (void)AT<utf::string_container>::index(r, i);
                CHECK(last == "cp:" + std::to_string(x >= 0 && x < (std::ptrdiff_t)n ? c[x] : 0), last);
                std::ptrdiff_t a = pick(n), b = pick(n); note(cat("string of ", n, ", slice ", a, ":", b)); auto cl = [&](std::ptrdiff_t v) { if(v < 0) v += (std::ptrdiff_t)n; return v < 0 ? 0 : v > (std::ptrdiff_t)n ? (std::ptrdiff_t)n : v; };
                (void)AT<utf::string_container>::index(r, index_range(a, b)); CHECK(last == "str:" + sub(cl(a), cl(b)), last); }
            attrs(r, n, {{"size", s.size()}, {"length", n}}); }
    }
    return done();
}
