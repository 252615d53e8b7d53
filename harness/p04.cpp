#include <papilio/utf/utf.hpp>
#include <papilio/utf/string.hpp>
#include "vc.hpp"
#include "src/utf/codepoint.cpp"
using namespace papilio; using namespace papilio::utf;
#define ALL(M) M(c, char) M(8, char8_t) M(16, char16_t) M(32, char32_t) M(w, wchar_t)
extern "C" {
// vc_visit(k, p, c): the k-th code point starts at p and is c;  vc_pos(k, p): position k (which may be the end) is at p
void vc_visit(std::size_t k, const void* p, char32_t c);
void vc_pos(std::size_t k, const void* p);
void vc_eq(bool b);
#define D(T, C) \
    void h_fwd_##T(const C* p, std::size_t n) { basic_string_ref<C> s(p, n); std::size_t k = 0; for(auto it = s.begin(); it != s.end(); ++it) { vc_visit(k, it.base(), *it); ++k; } vc_pos(k, p + n); vc_pos(k, s.end().base()); } \
    void h_fwdp_##T(const C* p, std::size_t n) { std::basic_string_view<C> v(p, n); std::size_t k = 0; auto it = codepoint_begin(v); auto e = codepoint_end(v); while(it != e) { auto old = it++; vc_visit(k, old.base(), *old); ++k; } vc_pos(k, p + n); } \
    void h_bwd_##T(const C* p, std::size_t n) { basic_string_ref<C> s(p, n); std::size_t L = s.length(); auto it = s.end(); while(it != s.begin()) { --it; --L; vc_visit(L, it.base(), *it); } vc_pos(L, p); } \
    void h_bwdp_##T(const C* p, std::size_t n) { basic_string_ref<C> s(p, n); std::size_t L = s.length(); auto it = s.end(); while(it != s.begin()) { auto old = it--; vc_pos(L, old.base()); --L; vc_visit(L, it.base(), *it); } vc_pos(L, p); } \
    void h_rev_##T(const C* p, std::size_t n) { basic_string_ref<C> s(p, n); std::size_t L = s.length(); for(auto it = s.rbegin(); it != s.rend(); ++it) { --L; vc_visit(L, std::prev(it.base()).base(), *it); } vc_pos(L, p); } \
    void h_fb_##T(const C* p, std::size_t n, std::size_t a, std::size_t b) { basic_string_ref<C> s(p, n); auto it = s.begin(); std::size_t k = 0; \
        for(; k < a && it != s.end(); ++it) ++k; \
        for(std::size_t i = 0; i < b && it != s.begin(); ++i) { --it; --k; vc_visit(k, it.base(), *it); } vc_pos(k, it.base()); \
        if(it != s.end()) { vc_visit(k, it.base(), *it); ++it; vc_pos(k + 1, it.base()); } } \
    void h_adv_##T(const C* p, std::size_t n, std::ptrdiff_t a, std::ptrdiff_t b) { basic_string_ref<C> s(p, n); auto it = s.begin(); it += a; vc_pos(a, it.base()); it += b; vc_pos(a + b, it.base()); } \
    void h_advm_##T(const C* p, std::size_t n, std::ptrdiff_t a, std::ptrdiff_t b) { basic_string_ref<C> s(p, n); auto it = s.begin(); it -= -a; vc_pos(a, it.base()); it -= -b; vc_pos(a + b, it.base()); } \
    void h_plus_##T(const C* p, std::size_t n, std::ptrdiff_t a, std::ptrdiff_t b) { basic_string_ref<C> s(p, n); auto it = s.begin() + a; vc_pos(a, it.base()); auto i2 = b + it; vc_pos(a + b, i2.base()); auto i3 = i2 - b; vc_pos(a, i3.base()); vc_pos(a, it.base()); } \
    std::ptrdiff_t h_diff_##T(const C* p, std::size_t n, std::size_t a, std::size_t b) { basic_string_ref<C> s(p, n); auto x = s.begin(), y = s.begin(); for(std::size_t i = 0; i < a; ++i) ++x; for(std::size_t i = 0; i < b; ++i) ++y; return y - x; } \
    void h_cmp_##T(const C* p, std::size_t n, std::size_t a, std::size_t b) { basic_string_ref<C> s(p, n); auto x = s.begin(), y = s.begin(); for(std::size_t i = 0; i < a; ++i) ++x; for(std::size_t i = 0; i < b; ++i) ++y; \
        vc_eq((x == y) == (a == b)); vc_eq((x < y) == (a < b)); vc_eq((x > y) == (a > b)); swap(x, y); vc_pos(b, x.base()); vc_pos(a, y.base()); vc_eq((x <= y) == (b <= a)); } \
    void h_size_##T(const C* p, std::size_t n, std::size_t a) { basic_string_ref<C> s(p, n); auto x = s.begin(); for(std::size_t i = 0; i < a; ++i) ++x; vc_pos(a + 1, x.base() + x.size()); vc_eq((bool)x); }
ALL(D)
}
