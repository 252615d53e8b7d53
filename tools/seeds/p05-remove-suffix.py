PROPERTY = 'P05'
NEEDS = 'remove_suffix of more than 255 characters'
BREAKS = 'remove_suffix counts the removed characters modulo 256'
EDITS = [('include/papilio/utf/string.hpp', """        auto it = this->crbegin();
        auto sentinel = this->crend();
        for(size_type i = 0; i < n; ++i)
        {
            if(it == sentinel)
                break;
            ++it;
        }
""", """        auto it = this->crbegin();
        auto sentinel = this->crend();
        if(n > get_view().size())
            n = get_view().size();
        for(std::uint8_t i = 0; i < static_cast<std::uint8_t>(n); ++i)
        {
            if(it == sentinel)
                break;
            ++it;
        }
""")]
DEMO = r'''#include <papilio/utf/string.hpp>
#include <papilio/utf/utf.hpp>
int main() {
    using namespace papilio; using namespace papilio::utf;
    std::string t(300, 'x');
    for(std::size_t k : {0, 1, 255, 256, 257, 299, 300, 301, 600}) {
        basic_string_ref<char> s(t.data(), t.size());
        s.remove_suffix(k);
        if(s.length() != (k > 300 ? 0 : 300 - k)) return 1;
    }
}
'''
