#include <papilio/utf/utf.hpp>
#include <papilio/utf/string.hpp>
#include "vc.hpp"
#include "src/utf/codepoint.cpp"
using namespace papilio::utf;
struct out_t { char32_t c; std::uint32_t n; };
extern "C" {
// encoding
void h_bytes(char32_t c, unsigned char* out) { codepoint cp(c); for(int i = 0; i < 4; ++i) if(i < cp.size_bytes()) out[i] = (unsigned char)cp.u8data()[i]; out[4] = cp.size_bytes(); }
void h_bytes_assign(char32_t c, unsigned char* out) { codepoint cp(U'x'); cp.assign(c); for(int i = 0; i < 4; ++i) if(i < cp.size_bytes()) out[i] = (unsigned char)cp.data()[i]; out[4] = cp.size_bytes(); }
char32_t h_c32(char32_t c) { return static_cast<char32_t>(codepoint(c)); }
std::uint8_t h_size(char32_t c) { return decoder<char32_t>::size_bytes(c); }
void h_from32(char32_t c, out_t* o) { auto r = decoder<char32_t>::from_codepoint(codepoint(c)); o->c = r.first; o->n = r.second; }
void h_from16(char32_t c, out_t* o, char16_t* u) { auto r = decoder<char16_t>::from_codepoint(codepoint(c)); u[0] = r.get()[0]; if(r.get().size() > 1) u[1] = r.get()[1]; o->n = (std::uint32_t)r.get().size(); o->c = r.processed_size; }
void h_fromw(char32_t c, out_t* o) { auto r = decoder<wchar_t>::from_codepoint(codepoint(c)); o->c = (char32_t)r.get()[0]; o->n = (std::uint32_t)r.get().size(); }
void h_emit8(char32_t c) { codepoint(c).append_to_as<char8_t>(vc_iter<char8_t>()); }
void h_emitc(char32_t c) { codepoint(c).append_to_as<char>(vc_iter<char>()); }
void h_emit16(char32_t c) { codepoint(c).append_to_as<char16_t>(vc_iter<char16_t>()); }
void h_emit32(char32_t c) { codepoint(c).append_to_as<char32_t>(vc_iter<char32_t>()); }
void h_emitw(char32_t c) { codepoint(c).append_to_as<wchar_t>(vc_iter<wchar_t>()); }
void h_app8(char32_t c, std::u8string* s) { codepoint(c).append_to(*s); }
void h_appc(char32_t c, std::string* s) { codepoint(c).append_to(*s); }
void h_app16(char32_t c, std::u16string* s) { codepoint(c).append_to(*s); }
void h_app32(char32_t c, std::u32string* s) { codepoint(c).append_to(*s); }
// decoding from the front of a buffer of n >= 1 code units
void h_dec8(const char8_t* p, std::size_t n, out_t* o) { auto r = decoder<char8_t>::to_codepoint(std::u8string_view(p, n)); o->c = r.first; o->n = r.second; }
void h_decc(const char* p, std::size_t n, out_t* o) { auto r = decoder<char>::to_codepoint(std::string_view(p, n)); o->c = r.first; o->n = r.second; }
void h_dec16(const char16_t* p, std::size_t n, out_t* o) { auto r = decoder<char16_t>::to_codepoint(std::u16string_view(p, n)); o->c = r.first; o->n = r.second; }
void h_dec16c32(const char16_t* p, std::size_t n, out_t* o) { auto r = decoder<char16_t>::to_char32_t(std::u16string_view(p, n)); o->c = r.first; o->n = r.second; }
void h_dec16p(char16_t a, char16_t b, out_t* o) { auto r = decoder<char16_t>::to_char32_t(a, b); o->c = r.first; o->n = r.second; }
void h_dec32(const char32_t* p, std::size_t n, out_t* o) { auto r = decoder<char32_t>::to_codepoint(std::u32string_view(p, n)); o->c = r.first; o->n = r.second; }
void h_decw(const wchar_t* p, std::size_t n, out_t* o) { auto r = decoder<wchar_t>::to_codepoint(std::wstring_view(p, n)); o->c = r.first; o->n = r.second; }
void h_decwc32(const wchar_t* p, std::size_t n, out_t* o) { auto r = decoder<wchar_t>::to_char32_t(std::wstring_view(p, n)); o->c = r.first; o->n = r.second; }
// classification
bool h_lead(std::uint8_t b) { return is_leading_byte(b); }
bool h_trail(std::uint8_t b) { return is_trailing_byte(b); }
std::uint8_t h_cnt(std::uint8_t b) { return byte_count(b); }
bool h_hi(std::uint16_t u) { return is_high_surrogate(u); }
bool h_lo(std::uint16_t u) { return is_low_surrogate(u); }
}
