PROPERTY = 'P11'
NEEDS = 'a script field whose last branch is followed by something else than its closing brace'
BREAKS = 'the missing closing brace is not reported: the character in its place is swallowed or the text goes on behind it'
EDITS = [('include/papilio/core.hpp', """                exec_script(intp_ctx.input_context(), intp_ctx.output_context());

                intp_ctx.advance_input_to(intp_ctx.parse_begin());
                if(intp_ctx.input_at_end()) [[unlikely]]
                    my_base::throw_end_of_string();
                if(intp_ctx.input_value() != U'}') [[unlikely]]
                    my_base::throw_error(script_error_code::unenclosed_brace, intp_ctx.input());
""", """                exec_script(intp_ctx.input_context(), intp_ctx.output_context());

                intp_ctx.advance_input_to(intp_ctx.parse_begin());
                if(intp_ctx.input_at_end()) [[unlikely]]
                    my_base::throw_end_of_string();
                if(intp_ctx.input_value() == U'{') [[unlikely]]
                    my_base::throw_error(script_error_code::unenclosed_brace, intp_ctx.input());
""")]
DEMO = r'''#include <papilio/papilio.hpp>
static bool rejected(const char* f) { try { (void)papilio::vformat(f, papilio::make_format_args(1)); return false; } catch(const papilio::format_error&) { return true; } }
int main() {
    if(papilio::vformat("{$ {0} ? 'a' : 'b'}c", papilio::make_format_args(1)) != "ac") return 1;
    if(!rejected("{$ {0} ? 'a' : 'b'")) return 2;
    if(!rejected("{$ {0} ? 'a' : 'b'{{")) return 3;
    if(!rejected("{$ {0} ? 'a' : 'b' c")) return 4;
    if(!rejected("{$ {0} ? 'a' ; text")) return 5;
}
'''
SRCS = 'core utf/codepoint utf/string utf/stralgo format locale container access os/posix os/general'.split()
