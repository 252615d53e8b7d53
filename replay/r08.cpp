#include <papilio/papilio.hpp>
#include "rp.hpp"
using namespace papilio; using namespace rp;
// oracle: the documented format, written out directly
static std::string u8s(char32_t c) { utf::codepoint p(c); return std::string(std::string_view(p)); }
template <typename T> static bool expect(T v, std::size_t width, const std::string& fill, int al, int sg, bool z, bool alt, char ty, std::string& out) {
    __int128 x = v;
    if(ty == 'c') {
        if(x < 0 || x > 0x10FFFF) return false;
        std::size_t w = utf::codepoint((char32_t)x).estimate_width(), pad = width > w ? width - w : 0, l = al == 1 || al == 0 ? 0 : al == 2 ? pad / 2 : pad;
        for(std::size_t i = 0; i < l; ++i) out += fill; out += u8s((char32_t)x); for(std::size_t i = l; i < pad; ++i) out += fill; return true;
    }
    unsigned base = ty == 'x' || ty == 'X' ? 16 : ty == 'o' ? 8 : ty == 'b' || ty == 'B' ? 2 : 10;
    bool neg = x < 0; unsigned long long y = (unsigned long long)(neg ? -x : x); std::string d;
    const char* dg = ty == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
    do { d.insert(d.begin(), dg[y % base]); y /= base; } while(y);
    std::string s = neg ? "-" : sg == 1 ? "+" : sg == 3 ? " " : "", p;
    if(alt) p = ty == 'x' ? "0x" : ty == 'X' ? "0X" : ty == 'o' ? "0" : ty == 'b' ? "0b" : ty == 'B' ? "0B" : "";
    std::size_t used = s.size() + p.size() + d.size(), pad = width > used ? width - used : 0;
    if(z && al == 0) { out = s + p + std::string(pad, '0') + d; return true; }
    std::size_t l = al == 1 ? 0 : al == 2 ? pad / 2 : pad;
    for(std::size_t i = 0; i < l; ++i) out += fill; out += s + p + d; for(std::size_t i = l; i < pad; ++i) out += fill; return true;
}
template <typename T> void one(T v) {
    static const char* fills[] = {"", "*", "\xc3\xa9", "\xe4\xb8\x80"}; const char* tys = "dxXobBc";
    char ty = rnd(8) ? tys[rnd(7)] : 0; int al = (int)rnd(4), sg = (int)rnd(4); bool z = rnd(3) == 0, alt = rnd(2); std::size_t width = rnd(3) ? rnd(80) : 0;
    if(ty == 'c') { sg = 0; if(v > 0xD7FF && v < 0xE000) return; }
    const char* fl = al ? fills[rnd(4)] : "";
    std::string spec = "{:"; if(al) spec += std::string(fl) + " <^>"[al]; spec += sg == 1 ? "+" : sg == 2 ? "-" : sg == 3 ? " " : ""; if(alt) spec += "#"; if(z) spec += "0"; if(width) spec += std::to_string(width); if(ty) spec += ty; spec += "}";
    note(cat("format(\"", spec, "\", ", std::to_string(v), ") of ", sizeof(T), " bytes"));
    std::string want, got; bool ok = true, w = expect<T>(v, width, *fl ? fl : " ", al, sg, z, alt, ty ? ty : 'd', want);
    try { got = PAPILIO_NS vformat(spec, make_format_args(v)); } catch(const format_error&) { ok = false; }
    CHECK(ok == w, ok ? "accepted" : "rejected"); if(ok && w) CHECK(got == want, "gives [", got, "] instead of [", want, "]");
    std::wstring wspec(spec.begin(), spec.end()); for(char c : spec) if(c & 0x80) return;
    std::wstring wg; bool wok = true; try { wg = PAPILIO_NS vformat(wspec, make_format_args<wformat_context>(v)); } catch(const format_error&) { wok = false; }
    CHECK(wok == w, "wide: ", wok ? "accepted" : "rejected"); if(wok && w && ty != 'c') CHECK(wg == std::wstring(want.begin(), want.end()), "wide output differs");
}
template <typename T> void ty() {
    std::uint64_t m = std::uint64_t(1) << (sizeof(T) * 8 - 1);
    switch(rnd(4)) {
    case 0: one<T>((T)(rnd(200) - 100)); break;
    case 1: { std::uint64_t b[] = {0, 1, m, m - 1, m + 1, ~std::uint64_t(0), 9, 10, 15, 16, 99, 100, 0x10FFFF, 0x110000, 0x10000, 0xFFFF, 0x80000000, 0x7fffffff, 1000000000}; one<T>((T)b[rnd(19)]); break; }
    case 2: { std::uint64_t p = 1; for(std::size_t k = rnd(20); k--;) p *= 10; one<T>((T)(p - rnd(3) + 1)); break; }
    default: { std::uint64_t r = 0; for(int i = 0; i < 8; ++i) r = r << 8 | rnd(256); one<T>((T)(r >> rnd(64))); }
    }
}
int main(int argc, char** argv) {
    init(argc, argv); stage = "integers";
    for(int i = 0; i < 60000; ++i) switch(rnd(8)) { case 0: ty<int>(); break; case 1: ty<unsigned>(); break; case 2: ty<long long>(); break; case 3: ty<unsigned long long>(); break; case 4: ty<short>(); break; case 5: ty<unsigned short>(); break; case 6: ty<signed char>(); break; default: ty<unsigned char>(); }
    return 0;
}
