PROPERTY = 'P03'
NEEDS = 'reverse indexing into a UTF-16 string that holds a surrogate pair whose second unit is exactly DC00 (U+10000, U+10400, ... U+1F400)'
BREAKS = 'a low surrogate DC00 is taken for a character of its own when counting from the end'
EDITS = [('include/papilio/utf/stralgo.hpp', "        if(!PAPILIO_NS utf::is_low_surrogate(static_cast<std::uint16_t>(str[off])))\n        {\n            if(ch_count == idx)", "        if(static_cast<std::uint16_t>(str[off]) - 0xDC01u > 0x3FEu)\n        {\n            if(ch_count == idx)")]
DEMO = r'''#include <papilio/utf/utf.hpp>
int main() {
    using namespace papilio::utf;
    for(char16_t lo : {0xDC00, 0xDE00, 0xDF05, 0xDFFF}) {
        char16_t s[4] = {u'a', 0xD83D, lo, u'b'};
        std::u16string_view v(s, 4);
        if(index_offset(papilio::reverse_index, 0, v) != 3) return 1;
        if(index_offset(papilio::reverse_index, 1, v) != 1) return 2;
        if(index_offset(papilio::reverse_index, 2, v) != 0) return 3;
    }
}
'''
