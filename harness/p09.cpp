#include <papilio/core.hpp>
#include "vc.hpp"
#include "src/core.cpp"
#include "src/utf/codepoint.cpp"
using namespace papilio;
template <typename CharT> using Ctx = basic_format_context<vc_iter<CharT>, CharT>;
template <typename CharT> inline Ctx<CharT> mk(const void* p) { return Ctx<CharT>(vc_iter<CharT>{}, basic_format_args_ref<Ctx<CharT>, CharT>(*(const format_args_base<Ctx<CharT>, CharT>*)p)); }
inline std_formatter_data spec(std::size_t width, std::size_t prec, const utf::codepoint& fill, unsigned char align, unsigned char sign, bool zero, bool alt, char32_t type) {
    std_formatter_data dt; dt.width = width; dt.precision = prec; dt.fill = fill; dt.align = (format_align)align; dt.sign = (format_sign)sign; dt.fill_zero = zero; dt.alternate_form = alt; dt.type = type; return dt;
}
#define ARGS std::size_t w, std::size_t pr, const utf::codepoint& fill, unsigned char al, unsigned char sg, bool z, bool a, char32_t ty
#define S(n, C) \
void h_str_##n(const C* p, std::size_t len, ARGS) { auto dt = spec(w, pr, fill, al, sg, z, a, ty); auto ctx = mk<C>(&dt); string_formatter<C> f; f.set_data(dt); f.format(utf::basic_string_ref<C>(p, len), ctx); } \
void h_cp_##n(const utf::codepoint& c, ARGS) { auto dt = spec(w, pr, fill, al, sg, z, a, ty); auto ctx = mk<C>(&dt); formatter<utf::codepoint, C> f; *reinterpret_cast<std_formatter_data*>(&f) = dt; f.format(c, ctx); } \
void h_bool_##n(bool v, ARGS) { auto dt = spec(w, pr, fill, al, sg, z, a, ty); auto ctx = mk<C>(&dt); formatter<bool, C> f; *reinterpret_cast<std_formatter_data*>(&f) = dt; f.format(v, ctx); }
extern "C" {
S(c, char) S(8, char8_t) S(16, char16_t) S(32, char32_t) S(w, wchar_t)
std::size_t h_width(const utf::codepoint& c) { return c.estimate_width(); }
}
