#include <papilio/utf/utf.hpp>
#include <papilio/utf/string.hpp>
#include "vc.hpp"
#include "src/utf/codepoint.cpp"
using namespace papilio; using namespace papilio::utf;
extern "C" {
#define D2(T, C, U, X) std::basic_string<X> h_to_##T##_##U(const C* p, std::size_t n) { return basic_string_ref<C>(p, n).template to_string<X>(); }
#define D(T, C) D2(T, C, c, char) D2(T, C, 8, char8_t) D2(T, C, 16, char16_t) D2(T, C, 32, char32_t) D2(T, C, w, wchar_t)
D(c, char) D(8, char8_t) D(16, char16_t) D(32, char32_t) D(w, wchar_t)
std::u8string h_u8_32(const char32_t* p, std::size_t n) { return basic_string_ref<char32_t>(p, n).to_u8string(); }
std::u16string h_u16_8(const char8_t* p, std::size_t n) { return basic_string_ref<char8_t>(p, n).to_u16string(); }
std::u32string h_u32_c(const char* p, std::size_t n) { return basic_string_ref<char>(p, n).to_u32string(); }
std::wstring h_w_16(const char16_t* p, std::size_t n) { return basic_string_ref<char16_t>(p, n).to_wstring(); }
}
