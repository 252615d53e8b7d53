#include <papilio/utf/utf.hpp>
#include <papilio/utf/string.hpp>
#include "rp.hpp"
using namespace papilio::utf; using namespace rp;
template <typename C> void dec(char32_t c) {
    for(const auto& tail : {std::basic_string<C>(), enc<C>(U'z'), enc<C>(0x10FFFF), enc<C>(0x80)}) {
        auto s = enc<C>(c) + tail; tight<C> t(s);
        auto r = decoder<C>::to_codepoint(t.sv());
        CHECK((char32_t)r.first == c, "decoded as U+", std::hex, (std::uint32_t)(char32_t)r.first);
        CHECK(r.second == enc<C>(c).size(), "consumed ", (int)r.second);
    }
    tight<C> e{std::basic_string<C>()};
    CHECK(decoder<C>::to_codepoint(e.sv()).second == 0, "empty buffer");
}
template <typename C> void app(char32_t c) {
    std::basic_string<C> s(1, C('q')); codepoint(c).append_to(s);
    CHECK(s == std::basic_string<C>(1, C('q')) + enc<C>(c), "append_to gives ", showu<C>(s));
    std::basic_string<C> u; codepoint(c).template append_to_as<C>(std::back_inserter(u));
    CHECK(u == enc<C>(c), "append_to_as gives ", showu<C>(u));
}
int main(int argc, char** argv) {
    init(argc, argv);
    for(std::uint32_t c = 0; c <= 0x10FFFF; ++c) {
        if(!is_scalar(c)) continue;
        note(cat("U+", std::hex, c)); char32_t ch = c;
        codepoint cp(ch); auto e = enc8(ch);
        stage = "bytes";
        CHECK(cp.size_bytes() == e.size(), "size_bytes ", (int)cp.size_bytes());
        CHECK(std::memcmp(cp.data(), e.data(), e.size()) == 0, "UTF-8 bytes");
        codepoint a(U'x'); a.assign(ch); CHECK(std::u8string_view(a) == e, "assign");
        CHECK((char32_t)cp == ch, "back to char32_t gives U+", std::hex, (std::uint32_t)(char32_t)cp);
        CHECK(decoder<char32_t>::size_bytes(ch) == e.size(), "size_bytes");
        auto f = decoder<char32_t>::from_codepoint(cp); CHECK(f.first == ch && f.second == e.size(), "from_codepoint processed ", (int)f.second);
        auto g = decoder<char16_t>::from_codepoint(cp); CHECK(g.get() == enc16(ch) && g.processed_size == e.size(), "UTF-16 from_codepoint");
        auto w = decoder<wchar_t>::from_codepoint(cp); CHECK(w.get() == enc<wchar_t>(ch), "wchar_t from_codepoint");
        stage = "append"; app<char>(ch); app<char8_t>(ch); app<char16_t>(ch); app<char32_t>(ch); app<wchar_t>(ch);
        if(c < 0x900 || c % 61 == 0 || (c & 0xFFFF) > 0xFFF0 || (c & 0xFFFF) < 16) { stage = "decode"; dec<char>(ch); dec<char8_t>(ch); dec<char16_t>(ch); dec<char32_t>(ch); dec<wchar_t>(ch); }
        auto u = enc16(ch); auto r = decoder<char16_t>::to_char32_t(u); CHECK(r.first == ch && r.second == u.size(), "to_char32_t");
    }
    stage = "surrogates";
    for(std::uint32_t a = 0; a < 0x10000; ++a) {
        bool hi = (a >> 10) == 0x36, lo = (a >> 10) == 0x37;
        note(cat("unit ", std::hex, a));
        CHECK(is_high_surrogate(a) == hi && is_low_surrogate(a) == lo, "surrogate classification");
        for(std::uint32_t b : {0u, 0x61u, 0xD7FFu, 0xD800u, 0xDBFFu, 0xDC00u, 0xDFFFu, 0xE000u, 0xFFFFu}) {
            bool lb = (b >> 10) == 0x37; note(cat("units ", std::hex, a, " ", b));
            try { auto r = decoder<char16_t>::to_char32_t((char16_t)a, (char16_t)b);
                CHECK(!(hi && !lb), "unpaired high surrogate accepted");
                CHECK(r.first == (hi ? 0x10000 + (a - 0xD800) * 1024 + (b - 0xDC00) : a) && r.second == (hi ? 2 : 1), "value U+", std::hex, (std::uint32_t)r.first);
            } catch(const invalid_surrogate&) { CHECK(hi && !lb, "exception for a valid sequence"); }
        }
        char16_t one[1] = {(char16_t)a}; note(cat("lone unit ", std::hex, a));
        try { auto r = decoder<char16_t>::to_char32_t(std::u16string_view(one, 1)); CHECK(!hi && r.first == a && r.second == 1, "lone unit"); } catch(const invalid_surrogate&) { CHECK(hi, "exception for a valid unit"); }
    }
    for(unsigned b = 0; b < 256; ++b) { note(cat("byte ", std::hex, b)); CHECK(is_leading_byte(b) == ((b & 0xC0) != 0x80) && is_trailing_byte(b) == ((b & 0xC0) == 0x80), "byte classification"); }
    return done();
}
