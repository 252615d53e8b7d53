#include <papilio/utf/utf.hpp>
#include <papilio/utf/string.hpp>
#include "rp.hpp"
using namespace papilio; using namespace papilio::utf; using namespace rp;
template <typename T, typename C> void to(const cps& v, basic_string_ref<C> r) {
    stage = "to_string"; note(cat("sizeof ", sizeof(C), " to ", sizeof(T), " ", show(v)));
    auto got = r.template to_string<T>(); auto want = enc<T>(v);
    CHECK(got == want, "expected ", showu<T>(want), " got ", showu<T>(got));
}
template <typename C> void one(const cps& v) {
    auto s = enc<C>(v); tight<C> t(s); basic_string_ref<C> r(t.sv());
    to<char>(v, r); to<char8_t>(v, r); to<char16_t>(v, r); to<char32_t>(v, r); to<wchar_t>(v, r);
    stage = "to_uNstring"; CHECK(r.to_u8string() == enc<char8_t>(v), "u8"); CHECK(r.to_u16string() == enc<char16_t>(v), "u16");
    CHECK(r.to_u32string() == enc<char32_t>(v), "u32"); CHECK(r.to_wstring() == enc<wchar_t>(v), "w");
}
int main(int argc, char** argv) {
    init(argc, argv);
    auto all = [](const cps& v) { one<char>(v); one<char8_t>(v); one<char16_t>(v); one<char32_t>(v); one<wchar_t>(v); };
    for(std::uint32_t c = 0; c <= 0x10FFFF && more(); c += (c < 0x1000 || (c & 0xFFF) < 8 || (c & 0xFFF) > 0xFF0) ? 1 : 37) if(is_scalar(c)) all({(char32_t)c});
    each_cps(3, all, 4000, 12);
    for(std::size_t n : {127, 128, 255, 256, 257, 1000}) { all(cps(n, U'a')); all(rndcps(n)); }
    return done();
}
