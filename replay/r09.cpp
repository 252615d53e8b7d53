#include <papilio/papilio.hpp>
#include "rp.hpp"
using namespace papilio; using namespace rp;
static std::size_t wid(char32_t v) {
    static const char32_t t[][2] = {{0x1100, 0x115F}, {0x2329, 0x232A}, {0x2E80, 0x303E}, {0x3040, 0xA4CF}, {0xAC00, 0xD7A3}, {0xF900, 0xFAFF}, {0xFE10, 0xFE19}, {0xFE30, 0xFE6F}, {0xFF00, 0xFF60}, {0xFFE0, 0xFFE6}, {0x1F300, 0x1F64F}, {0x1F900, 0x1F9FF}, {0x20000, 0x2FFFD}, {0x30000, 0x3FFFD}};
    for(auto& r : t) if(v >= r[0] && v <= r[1]) return 2;
    return 1;
}
static std::u32string pad(std::u32string s, std::size_t w, std::size_t width, int al, char32_t fill) {
    std::size_t p = width > w ? width - w : 0, l = al <= 1 ? 0 : al == 2 ? p / 2 : p;
    return std::u32string(l, fill) + s + std::u32string(p - l, fill);
}
template <typename C> std::basic_string<C> conv(const std::u32string& s) { std::basic_string<C> o; for(char32_t c : s) utf::codepoint(c).append_to(o); return o; }
static char32_t rc() { static const char32_t t[] = {'a', 'Z', 0x7f, 0xe9, 0x7ff, 0x4e00, 0x115f, 0x1160, 0xffe6, 0xffe7, 0x1f300, 0x1f64f, 0x1f650, 0x20000, 0x2fffd, 0x2fffe, 0x10ffff, 0x303f, 0xa4cf, 0xa4d0, 0xac00, 0xd7a3, 0xd7a4}; if(rnd(4)) return t[rnd(23)]; char32_t c = (char32_t)rnd(0x110000); return c >= 0xd800 && c < 0xe000 ? U'x' : c; }
template <typename Cx, typename A> static auto fm(const std::u32string& spec, const A& a) { using C = typename Cx::char_type; auto f = conv<C>(spec); std::basic_string<C> out; PAPILIO_NS vformat_to(std::back_inserter(out), std::basic_string_view<C>(f), PAPILIO_NS make_format_args<Cx>(a)); return out; }
int main(int argc, char** argv) {
    init(argc, argv); stage = "width";
    for(char32_t c = 1; c < 0x110000; ++c) { if(c >= 0xd800 && c < 0xe000) continue; if(utf::codepoint(c).estimate_width() != wid(c)) { note(cat("U+", std::hex, (unsigned)c)); CHECK(false, "estimate_width"); } }
    stage = "padding";
    for(int it = 0; it < 40000; ++it) {
        int kind = (int)rnd(3), al = (int)rnd(4); char32_t fill = al && rnd(2) ? rc() : 0; if(fill == '{' || fill == '}' || fill < 32) fill = 0; std::size_t width = rnd(4) ? rnd(30) : 0, prec = kind == 2 && rnd(2) ? 1 + rnd(12) : 0; char ty = rnd(2) ? (kind == 1 ? 'c' : 's') : 0;
        std::u32string sp = U"{:"; if(al) { if(fill) sp += fill; sp += U" <^>"[al]; } if(width) for(char c : std::to_string(width)) sp += (char32_t)c; if(prec) { sp += U'.'; for(char c : std::to_string(prec)) sp += (char32_t)c; } if(ty) sp += (char32_t)ty; sp += U"}";
        if(!fill) fill = ' ';
        std::u32string s; if(kind == 0) s = rnd(2) ? U"true" : U"false"; else for(std::size_t k = kind == 1 ? 1 : rnd(9); k--;) s += rc();
        std::u32string cut; std::size_t w = 0; for(char32_t c : s) { if(prec && w + wid(c) > prec) break; w += wid(c); cut += c; }
        std::u32string want = pad(cut, w, width, al, fill); auto ns = conv<char>(s); std::ostringstream hex; for(char32_t c : s) hex << std::hex << " U+" << (unsigned)c;
        note(cat("format(\"", conv<char>(sp), "\",", hex.str(), ")"));
        std::string got = kind == 0 ? fm<format_context>(sp, s == U"true") : kind == 1 ? fm<format_context>(sp, utf::codepoint(s[0])) : fm<format_context>(sp, ns);
        CHECK(got == conv<char>(want), "gives [", got, "] instead of [", conv<char>(want), "]");
        if(kind == 2) { auto ws = conv<wchar_t>(s); CHECK((fm<wformat_context>(sp, ws)) == conv<wchar_t>(want), "wide output"); }
        using C16 = basic_format_context<std::back_insert_iterator<std::u16string>, char16_t>;
        if(kind == 2) { auto ws = conv<char16_t>(s); std::u16string o; auto ar = PAPILIO_NS make_format_args<C16>(1); C16 cx(std::back_inserter(o), ar); std_formatter_data d; d.width = width; d.precision = prec; d.align = (format_align)al; d.fill = fill; string_formatter<char16_t> f; f.set_data(d); f.format(utf::basic_string_ref<char16_t>(std::u16string_view(ws)), cx); CHECK(o == conv<char16_t>(want), "UTF-16 output"); }
    }
    return 0;
}
