PROPERTY = 'P06'
NEEDS = 'a conversion between encodings of different unit size of a string that begins with U+FEFF'
BREAKS = 'to_string drops U+FEFF at the beginning of the text as if it were a byte order mark'
EDITS = [('include/papilio/utf/string.hpp', """            for(codepoint cp : *this)
                cp.append_to(result);
""", """            for(codepoint cp : *this)
            {
                // no byte order mark in the result
                if(result.empty() && static_cast<char32_t>(cp) == U'\\uFEFF')
                    continue;
                cp.append_to(result);
            }
""")]
DEMO = r'''#include <papilio/utf/string.hpp>
#include <papilio/utf/utf.hpp>
int main() {
    using namespace papilio::utf;
    u16string_ref s = u"\uFEFFabc";
    if(s.to_u32string() != U"\uFEFFabc") return 1;
    if(u8string_ref(u8"\uFEFF").to_u16string() != u"\uFEFF") return 2;
    if(u8string_ref(u8"a\uFEFF").to_u16string() != u"a\uFEFF") return 3;
}
'''
