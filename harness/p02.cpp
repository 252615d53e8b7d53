#include <papilio/utf/utf.hpp>
#include <papilio/utf/string.hpp>
#include "vc.hpp"
#include "src/utf/codepoint.cpp"
using namespace papilio::utf;
#define ALL(M) M(c, char) M(8, char8_t) M(16, char16_t) M(32, char32_t) M(w, wchar_t)
#define D(T, C) \
    std::size_t h_view_##T(const C* p, std::size_t n) { return papilio::utf::strlen(std::basic_string_view<C>(p, n)); } \
    std::size_t h_view_ig_##T(const C* p, std::size_t n) { return papilio::utf::strlen<strlen_behavior::ignore>(std::basic_string_view<C>(p, n)); } \
    std::size_t h_ptr_##T(const C* p, std::size_t m) { return papilio::utf::strlen(p, m); } \
    std::size_t h_ptr_ig_##T(const C* p, std::size_t m) { return papilio::utf::strlen<strlen_behavior::ignore>(p, m); } \
    std::size_t h_len_##T(const C* p, std::size_t n) { return basic_string_ref<C>(p, n).length(); } \
    std::size_t h_size_##T(const C* p, std::size_t n) { return basic_string_ref<C>(p, n).size(); } \
    bool h_empty_##T(const C* p, std::size_t n) { return basic_string_ref<C>(p, n).empty(); }
extern "C" {
ALL(D)
}
// the other policies differ only on ill-formed input
#define P(T, C) \
    std::size_t h_view_stop_##T(const C* p, std::size_t n) { return papilio::utf::strlen<strlen_behavior::stop>(std::basic_string_view<C>(p, n)); } \
    std::size_t h_view_exc_##T(const C* p, std::size_t n) { return papilio::utf::strlen<strlen_behavior::exception>(std::basic_string_view<C>(p, n)); }
#define Q(T, C) std::size_t h_ptr_stop_##T(const C* p, std::size_t m) { return papilio::utf::strlen<strlen_behavior::stop>(p, m); }
#define R(T, C) std::size_t h_ptr_exc_##T(const C* p, std::size_t m) { return papilio::utf::strlen<strlen_behavior::exception>(p, m); }
// NUL-terminated
#define Z(T, C) \
    std::size_t h_nul_##T(const C* p) { return papilio::utf::strlen(p); } \
    std::size_t h_nullen_##T(const C* p) { return basic_string_ref<C>(p).length(); }
extern "C" {
ALL(Z)
ALL(P)
Q(c, char) Q(8, char8_t) Q(16, char16_t) Q(32, char32_t) Q(w, wchar_t)
R(c, char) R(8, char8_t) R(16, char16_t) R(32, char32_t) R(w, wchar_t)
}
