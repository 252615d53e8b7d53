#include <papilio/utf/utf.hpp>
#include <papilio/utf/string.hpp>
#include "vc.hpp"
#include "src/utf/codepoint.cpp"
using namespace papilio; using namespace papilio::utf;
extern "C" {
void vc_find(const void* p);
#define P2(T, C, U, X) \
    int h_cmp_##T##_##U(const C* p, std::size_t n, const X* q, std::size_t m) { return basic_string_ref<C>(p, n).compare(basic_string_ref<X>(q, m)); } \
    bool h_eq_##T##_##U(const C* p, std::size_t n, const X* q, std::size_t m) { return basic_string_ref<C>(p, n) == basic_string_ref<X>(q, m); }
#define P1(T, C) P2(T, C, c, char) P2(T, C, 8, char8_t) P2(T, C, 16, char16_t) P2(T, C, 32, char32_t) P2(T, C, w, wchar_t) \
    int h_cmpv_##T(const C* p, std::size_t n, const C* q, std::size_t m) { return basic_string_ref<C>(p, n).compare(std::basic_string_view<C>(q, m)); } \
    bool h_eqv_##T(const C* p, std::size_t n, const C* q, std::size_t m) { return basic_string_ref<C>(p, n) == std::basic_string_view<C>(q, m); } \
    bool h_lt_##T(const C* p, std::size_t n, const C* q, std::size_t m) { return basic_string_ref<C>(p, n) < basic_string_ref<C>(q, m); } \
    bool h_sw_##T(const C* p, std::size_t n, const C* q, std::size_t m) { return basic_string_ref<C>(p, n).starts_with(basic_string_ref<C>(q, m)); } \
    bool h_ew_##T(const C* p, std::size_t n, const C* q, std::size_t m) { return basic_string_ref<C>(p, n).ends_with(basic_string_ref<C>(q, m)); } \
    bool h_swc_##T(const C* p, std::size_t n, char32_t c) { return basic_string_ref<C>(p, n).starts_with(codepoint(c)); } \
    bool h_ewc_##T(const C* p, std::size_t n, char32_t c) { return basic_string_ref<C>(p, n).ends_with(codepoint(c)); } \
    bool h_has_##T(const C* p, std::size_t n, const C* q, std::size_t m) { return basic_string_ref<C>(p, n).contains(basic_string_ref<C>(q, m)); } \
    bool h_hasc_##T(const C* p, std::size_t n, char32_t c) { return basic_string_ref<C>(p, n).contains(codepoint(c)); } \
    void h_find_##T(const C* p, std::size_t n, const C* q, std::size_t m, std::size_t a) { vc_find(basic_string_ref<C>(p, n).find(basic_string_ref<C>(q, m), a).base()); } \
    void h_findp_##T(const C* p, std::size_t n, const C* q, std::size_t m, std::size_t a) { vc_find(basic_string_ref<C>(p, n).find(q, a, m).base()); } \
    void h_findc_##T(const C* p, std::size_t n, char32_t c, std::size_t a) { vc_find(basic_string_ref<C>(p, n).find(codepoint(c), a).base()); }
P1(c, char) P1(8, char8_t) P1(16, char16_t) P1(32, char32_t) P1(w, wchar_t)
}
