PROPERTY = 'P11'
NEEDS = 'a literal character between U+0080 and U+00FF in a narrow format string'
BREAKS = 'such a character is written as a single byte instead of its UTF-8 encoding'
EDITS = [('include/papilio/core.hpp', """            // Ordinary characters
            context_t::append(intp_ctx.output_context(), ch);
""", """            // Ordinary characters
            if(ch <= 0xFFu) [[likely]]
                context_t::append(intp_ctx.output_context(), static_cast<char_type>(ch));
            else
                context_t::append(intp_ctx.output_context(), ch);
""")]
DEMO = r'''#include <papilio/papilio.hpp>
int main() {
    if(papilio::format("abc {{x}}") != "abc {x}") return 1;
    if(papilio::format("\u4e00\U0001F600{}", 1) != "\u4e00\U0001F6001") return 2;
    if(papilio::format("\u00e9{}\u00ff", 1) != "\u00e91\u00ff") return 3;
    if(papilio::format("\u0080\u0100") != "\u0080\u0100") return 4;
}
'''
SRCS = 'core utf/codepoint utf/string utf/stralgo format locale container access os/posix os/general'.split()
