PROPERTY = 'P02'
NEEDS = 'a string whose fourth byte in a block of four (counted from a code point start) is not ASCII while the three before it are'
BREAKS = 'the fast path of strlen counts a four-byte block as four characters without looking at its last byte'
EDITS = [('include/papilio/utf/stralgo.hpp', """    std::size_t i = 0;
    for(; i < str.size();)
    {
        if(bytes != 0)
        {
            --bytes;
            ++i;
            continue;
        }
""", """    std::size_t i = 0;
    while(i < str.size())
    {
        if(bytes != 0)
        {
            --bytes;
            ++i;
            continue;
        }

        // fast path: four ASCII characters at once
        if(str.size() - i > 64 && ((str[i] | str[i + 1] | str[i + 2]) & 0x80) == 0)
        {
            result += 4;
            i += 4;
            continue;
        }
""")]
DEMO = r'''#include <papilio/utf/utf.hpp>
#include <string>
int main() {
    using namespace papilio::utf;
    for(std::size_t k = 0; k < 80; ++k) {
        std::u8string s(k, u8'a'); s += u8"\u3042"; s += std::u8string(80, u8'b');
        if(papilio::utf::strlen(std::u8string_view(s)) != k + 81) return 1;
    }
}
'''
