PROPERTY = 'P04'
NEEDS = 'a UTF-16 string with a code point at or above U+D0000 that is not the first one'
BREAKS = 'incrementing to such a code point records one unit for it, so the next step stops in the middle of the pair'
EDITS = [('include/papilio/utf/codepoint.hpp', """                std::uint16_t ch = m_str[next_offset];
                if(PAPILIO_NS utf::is_high_surrogate(ch))
                    m_len = 2;""", """                std::uint16_t ch = m_str[next_offset];
                if(ch >= 0xD800 && ch < 0xDB00)
                    m_len = 2;""")]
DEMO = r'''#include <papilio/utf/utf.hpp>
#include <papilio/utf/string.hpp>
#include <string>
int main() {
    using namespace papilio::utf;
    std::u16string s = u"a\U000CFFFFb\U000D0000c\U0010FFFFd";
    char32_t want[] = {U'a', 0xCFFFF, U'b', 0xD0000, U'c', 0x10FFFF, U'd'};
    std::size_t k = 0; u16string_ref r(s.data(), s.size());
    for(auto it = r.begin(); it != r.end(); ++it, ++k) if(k >= 7 || (char32_t)papilio::utf::codepoint(*it) != want[k]) return 1;
    return k != 7;
}
'''
