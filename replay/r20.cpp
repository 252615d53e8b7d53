#include <papilio/papilio.hpp>
#include "rp.hpp"
using namespace papilio; using namespace rp;
template <typename C> using Ctx = basic_format_context<std::back_insert_iterator<std::basic_string<C>>, C>;
template <typename C> using Str = std::basic_string<C>;
template <typename C> basic_format_args_ref<Ctx<C>, C> none() { static static_format_args<0, 0, Ctx<C>, C> a; return a; }
template <typename C> void app(Str<C>& o, const std::string& s) { for(char c : s) o += (C)c; }
template <typename C> void hex(Str<C>& o, bool ok, std::uint32_t v) { char b[16]; std::snprintf(b, 16, "%x", v); app(o, std::string(ok ? "\\u{" : "\\x{") + b + "}"); }
// one character at p: its units are copied unless it needs an escape
template <typename C> void one(Str<C>& o, std::uint32_t v, char quote, const C* p, std::size_t k) {
    if(v == 9) app(o, "\\t"); else if(v == 10) app(o, "\\n"); else if(v == 13) app(o, "\\r"); else if(v == '\\') app(o, "\\\\");
    else if(v == (unsigned char)quote) { o += (C)'\\'; o += (C)quote; } else if(v < 32) hex(o, true, v); else o.append(p, k);
}
template <typename C> Str<C> want(const Str<C>& s) {
    Str<C> o; std::size_t i = 0, n = s.size();
    while(i < n) {
        std::size_t k = 0; std::uint32_t u = (std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>)s[i], v = u;
        if constexpr(sizeof(C) == 1) { k = u < 0x80 ? 1 : u < 0xC0 ? 0 : u < 0xE0 ? 2 : u < 0xF0 ? 3 : u < 0xF8 ? 4 : 0;
            for(std::size_t j = 1; j < k; ++j) if(i + j >= n || ((unsigned char)s[i + j] & 0xC0) != 0x80) { k = 0; break; } if(k != 1) v = 'x'; }
        else if constexpr(sizeof(C) == 2) { k = (u & 0xFC00) == 0xD800 ? (i + 1 < n && (s[i + 1] & 0xFC00) == 0xDC00 ? 2 : 0) : (u & 0xFC00) == 0xDC00 ? 0 : 1; }
        else k = 1;
        if(k) { one<C>(o, v, '"', &s[i], k); i += k; } else { hex(o, false, u); ++i; }
    }
    return o;
}
template <typename C> std::string show(const Str<C>& s) { std::string r; for(C c : s) { char b[16]; std::snprintf(b, 16, "%x ", (unsigned)c & (sizeof(C) == 1 ? 0xFF : ~0u)); r += b; } return r; }
template <typename C> Str<C> got(const Str<C>& s) { Str<C> o; Ctx<C> ctx(std::back_inserter(o), none<C>()); format_context_traits<Ctx<C>>::append_escaped(ctx, std::basic_string_view<C>(s)); return o; }
template <typename C> Str<C> gotc(char32_t c) { Str<C> o; Ctx<C> ctx(std::back_inserter(o), none<C>()); format_context_traits<Ctx<C>>::append_escaped(ctx, utf::codepoint(c)); return o; }

char32_t pick() { static const char32_t sp[] = {9, 10, 13, '\\', '"', '\'', 0, 31, 32, 127, 128, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0xD7FF, 0xE000, 0xFF};
    for(;;) { char32_t c = rnd(2) ? sp[rnd(19)] : rnd(3) ? (char32_t)rnd(0x80) : (char32_t)rnd(0x110000); if(is_scalar(c)) return c; } }
template <typename C> Str<C> encc(char32_t c) { Str<C> r; if constexpr(sizeof(C) == 1) { for(auto u : enc8(c)) r += (C)u; } else if constexpr(sizeof(C) == 2) { for(auto u : enc16(c)) r += (C)u; } else r += (C)c; return r; }
template <typename C> void go(const char* name) {
    stage = name; Str<C> s; std::size_t n = rnd(7);
    for(std::size_t k = 0; k < n; ++k) s += encc<C>(pick());
    if(sizeof(C) < 4 && rnd(2)) for(std::size_t k = rnd(4); k-- && !s.empty();) { std::size_t p = rnd(s.size()); switch(rnd(3)) { case 0: s.erase(p, 1); break; case 1: s[p] = (C)(sizeof(C) == 1 ? rnd(256) : 0xD800 + rnd(0x800)); break; default: s.insert(p, 1, (C)(sizeof(C) == 1 ? 128 + rnd(128) : 0xD800 + rnd(0x800))); } }
    note(show(s)); auto w = want(s), g = got(s); CHECK(w == g, "wanted ", show(w), "got ", show(g));
    char32_t c = pick(); note(cat("character ", (std::uint32_t)c)); Str<C> e = encc<C>(c), q; one<C>(q, c, '\'', e.data(), e.size()); g = gotc<C>(c); CHECK(q == g, "wanted ", show(q), "got ", show(g));
    if constexpr(std::is_same_v<C, char> || std::is_same_v<C, wchar_t>) {
        note("'?' " + show(s)); if constexpr(std::is_same_v<C, char>) { CHECK(papilio::format("{:?}", s) == w, "format"); CHECK(papilio::format("{:?}", utf::codepoint(c)) == q, "format character"); } else CHECK(papilio::format(L"{:?}", s) == w, "format");
    }
}
int main(int argc, char** argv) { init(argc, argv); while(more()) { go<char>("char"); go<char8_t>("char8_t"); go<char16_t>("char16_t"); go<char32_t>("char32_t"); go<wchar_t>("wchar_t"); } return done(); }
