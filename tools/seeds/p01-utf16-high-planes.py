PROPERTY = 'P01'
NEEDS = 'a code point at or above U+90000 appended to a UTF-16 string'
BREAKS = 'the high surrogate loses its top bit, so the code point comes back as one 0x80000 lower'
EDITS = [('include/papilio/utf/codepoint.inl', "static_cast<char16_t>(0xD800 + (tmp >> 10))", "static_cast<char16_t>(0xD800 | ((tmp >> 10) & 0x1FF))")]
DEMO = r'''#include <papilio/utf/utf.hpp>
#include <string>
int main() {
    using namespace papilio::utf;
    for(char32_t c : {U'\x10000', U'\x1F600', U'\x8FFFF', U'\x90000', U'\xE0001', U'\x10FFFF'}) {
        std::u16string s; decoder<char32_t>::to_codepoint(c).first.append_to(s);
        if(s.size() != 2) return 1;
        char32_t r = 0x10000 + ((char32_t)(s[0] - 0xD800) << 10) + (s[1] - 0xDC00);
        if(r != c) return 2;
    }
}
'''
