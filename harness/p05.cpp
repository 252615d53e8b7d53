#include <papilio/utf/utf.hpp>
#include <papilio/utf/string.hpp>
#include "vc.hpp"
#include "src/utf/codepoint.cpp"
using namespace papilio; using namespace papilio::utf;
#define ALL(M) M(c, char) M(8, char8_t) M(16, char16_t) M(32, char32_t) M(w, wchar_t)
extern "C" {
// the resulting view; the specification says which code points it must denote
void vc_view(const void* p, std::size_t n);
void vc_count(std::size_t k);
#define V(r) { auto v_ = std::basic_string_view(r); vc_view(v_.data(), v_.size()); }
#define D(T, C) \
    void h_sub_##T(const C* p, std::size_t n, std::size_t a, std::size_t b) { basic_string_ref<C> s(p, n); V(s.substr(a, b).to_string_view()); } \
    void h_sube_##T(const C* p, std::size_t n, std::size_t a, std::size_t b) { basic_string_ref<C> s(p, n); V(s.template substr<substr_behavior::empty_string>(a, b).to_string_view()); } \
    void h_subx_##T(const C* p, std::size_t n, std::size_t a, std::size_t b) { basic_string_ref<C> s(p, n); auto r = s.substr_extended(a, b); vc_count(r.second); V(r.first.to_string_view()); } \
    void h_rng_##T(const C* p, std::size_t n, std::ptrdiff_t a, std::ptrdiff_t b) { basic_string_ref<C> s(p, n); V(s.substr(index_range(a, b)).to_string_view()); } \
    void h_rnge_##T(const C* p, std::size_t n, std::ptrdiff_t a, std::ptrdiff_t b) { basic_string_ref<C> s(p, n); V(s.template substr<substr_behavior::empty_string>(index_range(a, b)).to_string_view()); } \
    void h_pre_##T(const C* p, std::size_t n, std::size_t a) { basic_string_ref<C> s(p, n); s.remove_prefix(a); V(s.to_string_view()); } \
    void h_suf_##T(const C* p, std::size_t n, std::size_t a) { basic_string_ref<C> s(p, n); s.remove_suffix(a); V(s.to_string_view()); }
ALL(D)
}
