// Declarations shared by the verification harnesses.  A harness only calls the public
// interface of the library; everything it calls is the code in /repo.
#pragma once
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <string>
#include <string_view>
extern "C" {
void vc_emit8(unsigned char c);
void vc_emit16(char16_t c);
void vc_emit32(char32_t c);
}
template <typename CharT>
struct vc_iter {
    using iterator_category = std::output_iterator_tag;
    using difference_type = std::ptrdiff_t;
    using value_type = void; using pointer = void; using reference = void;
    struct ref { 
        void operator=(CharT c) const {
            if constexpr (sizeof(CharT) == 1) vc_emit8((unsigned char)c);
            else if constexpr (sizeof(CharT) == 2) vc_emit16((char16_t)c);
            else vc_emit32((char32_t)c);
        }
    };
    ref operator*() const { return {}; }
    vc_iter& operator++() { return *this; }
    vc_iter operator++(int) { return *this; }
};
