PROPERTY = 'P01'
NEEDS = 'decoding a code point from U+07C0 to U+07FF'
BREAKS = 'the two-byte branch of from_codepoint stops one lead byte early, so U+07C0..U+07FF decode to U+0000 with length 0'
EDITS = [('include/papilio/utf/codepoint.inl', "0b1100'0000 <= bytes[0] && bytes[0] <= 0b1101'1111", "0b1100'0000 <= bytes[0] && bytes[0] < 0b1101'1111")]
DEMO = r'''#include <papilio/utf/utf.hpp>
int main() {
    using namespace papilio::utf;
    for(char32_t c = 0x80; c < 0x800; ++c) {
        codepoint cp = decoder<char32_t>::to_codepoint(c).first;
        if((char32_t)cp != c) return 1;
    }
}
'''
