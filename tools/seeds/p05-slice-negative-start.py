PROPERTY = 'P05'
NEEDS = 'an index range whose negative index reaches exactly one code point before the beginning of the string'
BREAKS = 'substr(index_range) accepts a negative index of -(L+1) and clamps it instead of reporting out_of_range'
EDITS = [('include/papilio/utf/string.hpp', """                    if(it == sentinel)
                    {
                        if constexpr(OnOutOfRange == substr_behavior::exception)
                            throw_out_of_range();
                        else
                            return it;
                    }

                    --it;""", """                    if(it == sentinel)
                    {
                        if constexpr(OnOutOfRange == substr_behavior::exception)
                        {
                            if(i - 1 > idx)
                                throw_out_of_range();
                            break;
                        }
                        else
                            return it;
                    }

                    --it;""")]
DEMO = r'''#include <papilio/utf/string.hpp>
#include <papilio/utf/utf.hpp>
#include <stdexcept>
int main() {
    using namespace papilio; using namespace papilio::utf;
    string_ref s = "abc";
    if(s.substr(index_range(-3, -1)).to_string() != "ab") return 1;
    try { (void)s.substr(index_range(-5, -1)); return 2; } catch(const std::out_of_range&) {}
    try { (void)s.substr(index_range(-4, -1)); return 3; } catch(const std::out_of_range&) {}
}
'''
