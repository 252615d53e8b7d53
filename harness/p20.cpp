#include <papilio/core.hpp>
#include "vc.hpp"
#include "src/core.cpp"
#include "src/utf/codepoint.cpp"
using namespace papilio;
template <typename CharT> using Ctx = basic_format_context<vc_iter<CharT>, CharT>;
template <typename CharT> inline Ctx<CharT> mk(const void* p) { return Ctx<CharT>(vc_iter<CharT>{}, basic_format_args_ref<Ctx<CharT>, CharT>(*(const format_args_base<Ctx<CharT>, CharT>*)p)); }
#define S(n, C) \
void h_str_##n(const C* p, std::size_t len) { auto ctx = mk<C>(p); format_context_traits<Ctx<C>>::append_escaped(ctx, std::basic_string_view<C>(p, len)); } \
void h_cp_##n(const utf::codepoint& c, std::size_t k) { auto ctx = mk<C>(&c); format_context_traits<Ctx<C>>::append_escaped(ctx, c, k); } \
void h_fmt_##n(const C* p, std::size_t len) { std_formatter_data dt; dt.type = U'?'; auto ctx = mk<C>(&dt); string_formatter<C> f; f.set_data(dt); f.format(utf::basic_string_ref<C>(p, len), ctx); } \
void h_fmtcp_##n(const utf::codepoint& c) { std_formatter_data dt; dt.type = U'?'; auto ctx = mk<C>(&dt); formatter<utf::codepoint, C> f; *reinterpret_cast<std_formatter_data*>(&f) = dt; f.format(c, ctx); }
extern "C" { S(c, char) S(8, char8_t) S(16, char16_t) S(32, char32_t) S(w, wchar_t) }
