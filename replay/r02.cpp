#include <papilio/utf/utf.hpp>
#include <papilio/utf/string.hpp>
#include "rp.hpp"
using namespace papilio::utf; using namespace rp;
template <typename C> void one(const cps& v) {
    auto s = enc<C>(v); tight<C> t(s); note(cat("sizeof ", sizeof(C), " ", show(v)));
    auto L = v.size();
    stage = "view";
    CHECK(papilio::utf::strlen(t.sv()) == L, "strlen ", papilio::utf::strlen(t.sv()));
    CHECK(papilio::utf::strlen<strlen_behavior::ignore>(t.sv()) == L, "strlen<ignore>");
    CHECK(papilio::utf::strlen<strlen_behavior::stop>(t.sv()) == L, "strlen<stop>");
    try { CHECK(papilio::utf::strlen<strlen_behavior::exception>(t.sv()) == L, "strlen<exception>"); } catch(const std::exception& e) { CHECK(false, "strlen<exception> throws"); }
    basic_string_ref<C> r(t.sv());
    CHECK(r.length() == L, "length ", r.length()); CHECK(r.size() == s.size(), "size"); CHECK(r.empty() == s.empty(), "empty");
    stage = "pointer";
    std::size_t z = std::find(s.begin(), s.end(), C(0)) - s.begin();
    for(std::size_t m = 0; m <= s.size(); ++m) {
        tight<C> u(std::basic_string_view<C>(s).substr(0, m)); std::size_t e = std::min(m, z), want = 0, off = 0;
        for(auto c : v) { if(off < e) ++want; off += unit_len<C>(c); }
        note(cat("sizeof ", sizeof(C), " ", show(v), " limit ", m));
        CHECK(papilio::utf::strlen(u.p.get(), m) == want, "strlen(p, max) ", papilio::utf::strlen(u.p.get(), m), " instead of ", want);
        CHECK(papilio::utf::strlen<strlen_behavior::ignore>(u.p.get(), m) == want, "strlen<ignore>(p, max)");
        if(m == s.size()) {
            CHECK(papilio::utf::strlen<strlen_behavior::stop>(u.p.get(), m) == want, "strlen<stop>(p, max)");
            try { CHECK(papilio::utf::strlen<strlen_behavior::exception>(u.p.get(), m) == want, "strlen<exception>(p, max)"); } catch(const std::exception&) { CHECK(false, "strlen<exception>(p, max) throws"); }
        }
    }
    stage = "NUL-terminated";
    auto s2 = s + C(0); tight<C> u(s2); std::size_t want = 0, off = 0; for(auto c : v) { if(off < z) ++want; off += unit_len<C>(c); }
    note(cat("sizeof ", sizeof(C), " ", show(v)));
    CHECK(papilio::utf::strlen((const C*)u.p.get()) == want, "strlen(p)"); CHECK(basic_string_ref<C>((const C*)u.p.get()).length() == want, "length of a NUL-terminated string");
}
int main(int argc, char** argv) {
    init(argc, argv);
    auto all = [](const cps& v) { one<char>(v); one<char8_t>(v); one<char16_t>(v); one<char32_t>(v); one<wchar_t>(v); };
    each_cps(5, all, 20000, 12, {U'a', 0x7FF, 0x800, 0x10FFFF, 0});
    for(std::size_t n : {63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 513}) { all(cps(n, U'a')); all(cps(n, 0x10FFFF)); all(rndcps(n)); }
    for(std::uint32_t c = 1; c <= 0x10FFFF && more(); c += (c < 0x3000 || (c & 0xFFF) > 0xFF0 || (c & 0xFFF) < 16) ? 1 : 13) if(is_scalar(c)) { note(cat("U+", std::hex, c)); stage = "single code points"; cps v{(char32_t)c};
        CHECK(basic_string_ref<char>(enc<char>(v)).length() == 1, "UTF-8"); CHECK(basic_string_ref<char16_t>(enc<char16_t>(v)).length() == 1, "UTF-16"); CHECK(basic_string_ref<char32_t>(enc<char32_t>(v)).length() == 1, "UTF-32"); }
    return done();
}
