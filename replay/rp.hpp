// Concrete replay support: an independent oracle for UTF strings, input generators, reporting.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <chrono>
#include <memory>
#include <sstream>
#include <iomanip>
#include <stdexcept>
#include <functional>
#include <csignal>
#include <exception>
#include <set>
#include <algorithm>
#include <unistd.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace rp {
inline char cur[8192];
inline const char* stage = "";
inline void note(const std::string& s) { std::strncpy(cur, s.c_str(), sizeof(cur) - 1); }
inline void dump() { std::fprintf(stdout, "CASE %s: %s\n", stage, cur); std::fflush(stdout); }
inline void onalarm(int) { const char m[] = "FAIL does not terminate\nCASE "; (void)!write(1, m, sizeof(m) - 1); (void)!write(1, stage, std::strlen(stage)); (void)!write(1, ": ", 2); (void)!write(1, cur, std::strlen(cur)); (void)!write(1, "\n", 1); _exit(1); }
inline void fail(const std::string& what) { std::printf("FAIL %s\n", what.c_str()); dump(); std::fflush(stdout); std::_Exit(1); }
#define CHECK(c, ...) do { if(!(c)) rp::fail(std::string(#c) + " " + rp::cat(__VA_ARGS__)); } while(0)
template <typename... A> std::string cat(A&&... a) { std::ostringstream o; (void)(o << ... << a); return o.str(); }
inline std::uint64_t rng_s = 88172645463325252ull;
inline std::uint64_t rnd() { rng_s ^= rng_s << 13; rng_s ^= rng_s >> 7; rng_s ^= rng_s << 17; return rng_s * 2685821657736338717ull; }
inline std::uint64_t rnd(std::uint64_t n) { return (rnd() >> 11) % n; }
inline double limit = 60; inline std::string hint;
inline std::chrono::steady_clock::time_point t0;
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
inline bool more() { return elapsed() < limit; }
inline void init(int argc, char** argv) {
    t0 = std::chrono::steady_clock::now();
    if(argc > 1) rng_s ^= std::strtoull(argv[1], nullptr, 10) * 0x9E3779B97F4A7C15ull;
    if(argc > 2) limit = std::atof(argv[2]);
    if(argc > 3) hint = argv[3];
    __sanitizer_set_death_callback(dump);
    signal(SIGALRM, onalarm); alarm((unsigned)limit + 60);
    std::set_terminate([] { std::printf("FAIL std::terminate\n"); dump(); std::fflush(stdout); std::_Exit(1); });
}
inline int done() { std::printf("replay: no failing input found (%.1f s)\n", elapsed()); return 0; }

using cps = std::vector<char32_t>;
inline bool is_scalar(std::uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
inline std::u8string enc8(char32_t c) {
    std::u8string r;
    if(c < 0x80) r += (char8_t)c;
    else if(c < 0x800) { r += (char8_t)(0xC0 + c / 64); r += (char8_t)(0x80 + c % 64); }
    else if(c < 0x10000) { r += (char8_t)(0xE0 + c / 4096); r += (char8_t)(0x80 + c / 64 % 64); r += (char8_t)(0x80 + c % 64); }
    else { r += (char8_t)(0xF0 + c / 262144); r += (char8_t)(0x80 + c / 4096 % 64); r += (char8_t)(0x80 + c / 64 % 64); r += (char8_t)(0x80 + c % 64); }
    return r;
}
inline std::u16string enc16(char32_t c) {
    if(c < 0x10000) return std::u16string(1, (char16_t)c);
    c -= 0x10000; return std::u16string{(char16_t)(0xD800 + c / 1024), (char16_t)(0xDC00 + c % 1024)};
}
template <typename C> std::basic_string<C> enc(char32_t c) {
    if constexpr(sizeof(C) == 1) { auto s = enc8(c); return std::basic_string<C>((const C*)s.data(), s.size()); }
    else if constexpr(sizeof(C) == 2) { auto s = enc16(c); return std::basic_string<C>((const C*)s.data(), s.size()); }
    else return std::basic_string<C>(1, (C)c);
}
template <typename C> std::basic_string<C> enc(const cps& v) { std::basic_string<C> r; for(auto c : v) r += enc<C>(c); return r; }
template <typename C> std::size_t unit_len(char32_t c) { return enc<C>(c).size(); }
inline std::string show(const cps& v) { std::ostringstream o; o << "["; for(auto c : v) o << std::hex << " U+" << (std::uint32_t)c; o << " ]"; return o.str(); }
template <typename C> std::string showu(std::basic_string_view<C> v) { std::ostringstream o; o << "<"; for(auto c : v) o << std::hex << " " << (std::uint32_t)(std::make_unsigned_t<std::conditional_t<sizeof(C)==1,unsigned char,std::conditional_t<sizeof(C)==2,unsigned short,unsigned>>>)c; o << " >"; return o.str(); }
// a copy of the string in an exactly sized heap block, so that any overrun is reported
template <typename C> struct tight {
    std::unique_ptr<C[]> p; std::size_t n;
    tight(std::basic_string_view<C> s) : p(new C[s.size()]), n(s.size()) { for(std::size_t i = 0; i < n; ++i) p[i] = s[i]; }
    std::basic_string_view<C> sv() const { return {p.get(), n}; }
};
inline const char32_t pool[] = {U'a', U'b', 0x7F, 0x80, 0xE9, 0x7FF, 0x800, 0x3042, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, U'0', 0xFFFD, 0x2FFFF, 0xFFFFF, 0xFEFF, 0xFFFE, 0, 0x7FE, 0x10FFFE, 0xD7A3, 0x1100, 0xA0};
inline char32_t rndcp(int mode = 0) {
    for(;;) {
        char32_t c;
        switch(mode ? mode : 1 + rnd(5)) {
        case 1: c = pool[rnd(sizeof(pool) / sizeof(pool[0]))]; break;
        case 2: c = (char32_t)rnd(0x80); break;
        case 3: c = (char32_t)rnd(0x800); break;
        case 4: c = (char32_t)rnd(0x10000); break;
        default: c = (char32_t)rnd(0x110000);
        }
        if(is_scalar(c)) return c;
    }
}
inline cps rndcps(std::size_t maxlen) { cps v(rnd(maxlen + 1)); for(auto& c : v) c = rndcp(); return v; }
// every string of up to len code points over a small alphabet with all length classes, then random ones
inline void each_cps(std::size_t len, const std::function<void(const cps&)>& f, std::size_t random = 20000, std::size_t maxlen = 12, const cps& al = {U'a', 0x7FF, 0x800, 0x10FFFF, U'b'}) {
    for(std::size_t n = 0; n <= len; ++n) {
        std::size_t tot = 1; for(std::size_t i = 0; i < n; ++i) tot *= al.size();
        for(std::size_t k = 0; k < tot && more(); ++k) { cps v; std::size_t x = k; for(std::size_t i = 0; i < n; ++i) { v.push_back(al[x % al.size()]); x /= al.size(); } f(v); }
    }
    for(std::size_t i = 0; i < random && more(); ++i) f(rndcps(maxlen));
}
} // namespace rp
