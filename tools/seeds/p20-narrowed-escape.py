PROPERTY = 'P20'
NEEDS = 'a UTF-16 string with a character whose low byte is that of a quote, backslash or control character, such as U+0122 or U+300A'
BREAKS = 'UTF-16 units are narrowed to a byte before the escape is selected, so that U+0122 is written as an escaped quote'
EDITS = [('include/papilio/core.hpp', """            if(has_esc_seq<true, false>(ch))
            {
                append_as_esc_seq<true, false>(ctx, ch);
                ++i;
            }
            else if(PAPILIO_NS utf::is_high_surrogate(ch))""", """            if(const auto key = static_cast<unsigned char>(ch); !PAPILIO_NS utf::is_high_surrogate(ch) && has_esc_seq<true, false>(key))
            {
                append_as_esc_seq<true, false>(ctx, key);
                ++i;
            }
            else if(PAPILIO_NS utf::is_high_surrogate(ch))""")]
DEMO = r'''#include <papilio/papilio.hpp>
#include <string>
using namespace papilio;
using Ctx = basic_format_context<std::back_insert_iterator<std::u16string>, char16_t>;
std::u16string esc(std::u16string_view s) {
    static static_format_args<0, 0, Ctx, char16_t> args;
    std::u16string o; Ctx ctx(std::back_inserter(o), basic_format_args_ref<Ctx, char16_t>(args));
    format_context_traits<Ctx>::append_escaped(ctx, s); return o;
}
int main() {
    if(esc(u"a\"\n") != u"a\\\"\\n") return 1;
    if(esc(u"\u3042") != u"\u3042") return 2;
    if(esc(u"\u0122") != u"\u0122") return 3;
    if(esc(u"\u300a") != u"\u300a") return 4;
}
'''
SRCS = "core utf/codepoint utf/string utf/stralgo format locale container access os/posix os/general".split()
