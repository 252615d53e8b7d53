PROPERTY = 'P09'
NEEDS = 'a wide (wchar_t, char16_t, char32_t) string with double-width characters, a precision of at least its unit count but below its display width'
BREAKS = 'a text with no more code units than the precision is never truncated, although its characters may be two columns wide'
EDITS = [('include/papilio/core.hpp', """        if(data().precision != 0)
        {
            for(auto it = str.begin(); it != str.end(); ++it)""", """        if(data().precision != 0 && str.size() > data().precision)
        {
            for(auto it = str.begin(); it != str.end(); ++it)""")]
DEMO = r'''#include <papilio/papilio.hpp>
#include <string>
int main() {
    using namespace papilio;
    if(format("{:.2}", "\u4e00\u4e01") != "\u4e00") return 1;
    if(format(L"{:.2}", L"\u4e00\u4e01\u4e02") != L"\u4e00") return 2;
    if(format(L"{:.2}", L"\u4e00\u4e01") != L"\u4e00") return 3;
    if(format(L"{:*<3.3}", L"\u4e00\u4e01") != L"\u4e00*") return 4;
}
'''
SRCS = "core utf/codepoint utf/string utf/stralgo format locale container access os/posix os/general".split()
