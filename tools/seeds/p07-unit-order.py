PROPERTY = 'P07'
NEEDS = 'two UTF-16 strings whose first difference is a surrogate pair against a character in U+E000..U+FFFF'
BREAKS = 'strings of one encoding are compared unit by unit, which is not code point order in UTF-16'
EDITS = [('include/papilio/utf/string.hpp', """    constexpr void set_view(const_iterator start, const_iterator stop) noexcept
    {
        PAPILIO_ASSERT(start <= stop);
        set_view(string_view_type(start.base(), stop.base()));
    }

    template <typename Other>
    constexpr int compare_impl(const Other& other) const noexcept
    {
        auto i = this->cbegin();
        auto j = other.cbegin();

        while(true)""", """    constexpr void set_view(const_iterator start, const_iterator stop) noexcept
    {
        PAPILIO_ASSERT(start <= stop);
        set_view(string_view_type(start.base(), stop.base()));
    }

    template <typename Other>
    constexpr int compare_impl(const Other& other) const noexcept
    {
        if constexpr(std::is_same_v<Other, basic_string_ref>)
        {
            // same encoding: no need to decode
            const int result = get_view().compare(other.get_view());
            return result < 0 ? -1 : result > 0 ? 1 : 0;
        }

        auto i = this->cbegin();
        auto j = other.cbegin();

        while(true)""")]
DEMO = r'''#include <papilio/utf/string.hpp>
#include <papilio/utf/utf.hpp>
int main() {
    using namespace papilio::utf;
    u16string_ref a = u"x\uFF5E", b = u"x\U0001F600";
    if(!(a.compare(b) < 0)) return 1;
    if(!(b.compare(a) > 0)) return 2;
    if(a.compare(a) != 0) return 3;
}
'''
