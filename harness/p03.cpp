#include <papilio/utf/utf.hpp>
#include <papilio/utf/string.hpp>
#include "vc.hpp"
#include "src/utf/codepoint.cpp"
using namespace papilio; using namespace papilio::utf;
#define ALL(M) M(c, char) M(8, char8_t) M(16, char16_t) M(32, char32_t) M(w, wchar_t)
#define D(T, C) \
    std::size_t h_off_##T(std::size_t i, const C* p, std::size_t n) { return index_offset(i, std::basic_string_view<C>(p, n)); } \
    std::size_t h_offp_##T(std::size_t i, const C* p, std::size_t n) { return index_offset(i, p, n); } \
    std::size_t h_roff_##T(std::size_t i, const C* p, std::size_t n) { return index_offset(reverse_index, i, std::basic_string_view<C>(p, n)); } \
    std::size_t h_roffp_##T(std::size_t i, const C* p, std::size_t n) { return index_offset(reverse_index, i, p, n); } \
    char32_t h_at_##T(std::size_t i, const C* p, std::size_t n) { return (char32_t)basic_string_ref<C>(p, n).at(i); } \
    char32_t h_rat_##T(std::size_t i, const C* p, std::size_t n) { return (char32_t)basic_string_ref<C>(p, n).at(reverse_index, i); } \
    char32_t h_or_##T(std::size_t i, const C* p, std::size_t n, char32_t d) { return (char32_t)basic_string_ref<C>(p, n).index_or(i, codepoint(d)); } \
    char32_t h_ror_##T(std::size_t i, const C* p, std::size_t n, char32_t d) { return (char32_t)basic_string_ref<C>(p, n).index_or(reverse_index, i, codepoint(d)); } \
    char32_t h_sub_##T(std::size_t i, const C* p, std::size_t n) { return (char32_t)basic_string_ref<C>(p, n)[i]; } \
    char32_t h_idx_##T(std::size_t i, const C* p, std::size_t n) { return (char32_t)basic_string_ref<C>(p, n).index(i); } \
    const C* h_adr_##T(std::size_t i, const C* p, std::size_t n) { return &basic_string_ref<C>(p, n).index(i); } \
    char32_t h_ridx_##T(std::size_t i, const C* p, std::size_t n) { return (char32_t)basic_string_ref<C>(p, n).index(reverse_index, i); } \
    char32_t h_front_##T(const C* p, std::size_t n) { return (char32_t)basic_string_ref<C>(p, n).front(); } \
    char32_t h_back_##T(const C* p, std::size_t n) { return (char32_t)basic_string_ref<C>(p, n).back(); }
extern "C" { ALL(D) }
