#include <papilio/core.hpp>
#include "vc.hpp"
#include "src/core.cpp"
#include "src/utf/codepoint.cpp"
using namespace papilio;
template <typename CharT> using Ctx = basic_format_context<vc_iter<CharT>, CharT>;
template <typename T, typename CharT>
__attribute__((always_inline)) inline void go(T v, std::size_t width, const utf::codepoint& fill, unsigned char align, unsigned char sign, bool zero, bool alt, char32_t type) {
    std_formatter_data dt; dt.width = width; dt.fill = fill; dt.align = (format_align)align; dt.sign = (format_sign)sign; dt.fill_zero = zero; dt.alternate_form = alt; dt.type = type;
    Ctx<CharT> ctx(vc_iter<CharT>{}, basic_format_args_ref<Ctx<CharT>, CharT>(*(const format_args_base<Ctx<CharT>, CharT>*)&dt));
    formatter<T, CharT> f; *reinterpret_cast<std_formatter_data*>(&f) = dt;     // what parse() leaves behind
    f.format(v, ctx);
}
#define F(n, T, C) void h_##n(T v, std::size_t w, const utf::codepoint& fill, unsigned char al, unsigned char sg, bool z, bool a, char32_t ty) { go<T, C>(v, w, fill, al, sg, z, a, ty); }
extern "C" {
F(i32_c, int, char) F(u32_c, unsigned, char) F(i64_c, long long, char) F(u64_c, unsigned long long, char)
F(i32_w, int, wchar_t) F(u64_w, unsigned long long, wchar_t) F(i64_16, long long, char16_t) F(i16_c, short, char) F(u8_c, signed char, char)
}
