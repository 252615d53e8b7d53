#include <papilio/core.hpp>
#include "vc.hpp"
#include "src/core.cpp"
#include "src/utf/codepoint.cpp"
using namespace papilio;
// no argument list is needed: replacement fields are replaced by their contract
#define S(n, C) \
void h_run_##n(const C* p, std::size_t len, const void* args) { \
    using X = basic_format_context<vc_iter<C>, C>; \
    basic_format_args_ref<X, C> a(*(const format_args_base<X, C>*)args); \
    basic_format_parse_context<X> pc(utf::basic_string_ref<C>(p, len), a); X ctx(vc_iter<C>{}, a); \
    basic_interpreter<X> i; i.format(pc, ctx); } \
void h_vft_##n(const C* p, std::size_t len, const void* args) { \
    using X = basic_format_context<vc_iter<C>, C>; \
    basic_format_args_ref<X> a(*(const format_args_base<X, C>*)args); \
    detail::vformat_to_impl<C, vc_iter<C>, X>(vc_iter<C>{}, nullptr, std::basic_string_view<C>(p, len), a); }
extern "C" { S(c, char) S(8, char8_t) S(16, char16_t) S(32, char32_t) S(w, wchar_t) }
