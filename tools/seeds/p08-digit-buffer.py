PROPERTY = 'P08'
NEEDS = 'the most negative value of a signed type in binary'
BREAKS = 'the digit buffer of a signed type has no room for the digit 64 (or 32) of the most negative value in base 2'
EDITS = [('include/papilio/core.hpp', """        CharT buf[sizeof(T) * 8];
        std::size_t buf_size = 0;

        auto [base, uppercase] = parse_type_ch(data().type);

        const auto& digits""", """        CharT buf[std::numeric_limits<T>::digits];
        std::size_t buf_size = 0;

        auto [base, uppercase] = parse_type_ch(data().type);

        const auto& digits""")]
DEMO = r'''#include <papilio/papilio.hpp>
#include <climits>
#include <string>
int main() {
    using namespace papilio;
    if(format("{:b}", 5) != "101") return 1;
    if(format("{:b}", INT_MAX) != std::string(31, '1')) return 2;
    if(format("{:b}", LLONG_MIN) != "-1" + std::string(63, '0')) return 3;
    if(format("{:b}", INT_MIN) != "-1" + std::string(31, '0')) return 4;
}
'''
SRCS = "core utf/codepoint utf/string utf/stralgo format locale container access os/posix os/general".split()
FLAGS = '-DNDEBUG -fsanitize=address,undefined -fno-sanitize-recover=all'
