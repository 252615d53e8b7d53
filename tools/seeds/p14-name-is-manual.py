PROPERTY = 'P14'
NEEDS = 'a named argument that exists, requested from the parse context, followed by an automatic request'
BREAKS = 'a request by name switches automatic numbering off'
EDITS = [('include/papilio/core.hpp', """    void check_arg_id(string_view_type name) const
    {
        if(!get_args().contains(name))
            throw format_error("invalid arg id");
    }""", """    void check_arg_id(string_view_type name) const
    {
        if(!get_args().contains(name))
            throw format_error("invalid arg id");
        enable_manual_indexing();
    }"""), ("include/papilio/core.hpp", """            string_ref_type name(str_start, str_end);

            return std::make_pair(
                ctx.get_args().get(string_view_type(name)),""", """            string_ref_type name(str_start, str_end);
            ctx.check_arg_id(string_view_type(name));

            return std::make_pair(
                ctx.get_args().get(string_view_type(name)),""")]
DEMO = r'''#include <papilio/papilio.hpp>
#include <string>
int main() {
    using namespace papilio; using namespace papilio::literals;
    if(format("{} {x} {0}", 1, "x"_a = 7) != "1 7 1") return 1;
    try { if(format("{} {x} {}", 1, 2, "x"_a = 7) != "1 7 2") return 2; } catch(const format_error&) { return 3; }
}
'''
SRCS = "core utf/codepoint utf/string utf/stralgo format locale container access os/posix os/general".split()
