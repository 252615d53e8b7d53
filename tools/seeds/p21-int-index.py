PROPERTY = 'P21'
NEEDS = 'an index of at least 2^31 in a replacement field or script, such as {0[4294967296]}'
BREAKS = 'the upper bound of an element index is checked after narrowing to int'
EDITS = [('include/papilio/accessor/ranges.hpp', """        if(i >= stdr::ssize(rng))
            return format_arg_type();

        return stdr::cdata(rng)[i];""", """        if(const int pos = static_cast<int>(i); pos >= static_cast<int>(stdr::ssize(rng)))
            return format_arg_type();
        else
            return stdr::cdata(rng)[pos];""")]
DEMO = r'''#include <papilio/papilio.hpp>
#include <papilio/accessor/ranges.hpp>
#include <string>
#include <vector>
int main() {
    using namespace papilio;
    std::vector<int> v{10, 20, 30};
    if(format("{[1]} {0[-1]}", v) != "20 30" && format("{0[1]} {0[-1]}", v) != "20 30") return 1;
    using A = accessor_traits<std::vector<int>, format_context>;
    if(!A::index(v, (ssize_t)3).empty()) return 2;
    if(!A::index(v, (ssize_t)4294967297).empty()) return 3;
}
'''
SRCS = "core utf/codepoint utf/string utf/stralgo format locale container access os/posix os/general".split()
