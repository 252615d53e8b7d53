#include <papilio/utf/utf.hpp>
#include <papilio/utf/string.hpp>
#include "rp.hpp"
using namespace papilio; using namespace papilio::utf; using namespace rp;
template <typename C> void one(const cps& v) {
    auto s = enc<C>(v); tight<C> t(s); auto L = v.size(); basic_string_ref<C> r(t.sv());
    std::vector<std::size_t> at; std::size_t o = 0; for(auto c : v) { at.push_back(o); o += unit_len<C>(c); }
    std::vector<std::size_t> idx; for(std::size_t i = 0; i < L + 3; ++i) idx.push_back(i); idx.push_back((std::size_t)-1); idx.push_back((std::size_t)-2); idx.push_back((std::size_t)1 << 63); idx.push_back(256 + L); if(L) { idx.push_back((std::size_t)1 << 32 | (L - 1)); idx.push_back(256 + L - 1); }
    for(auto i : idx) {
        note(cat("sizeof ", sizeof(C), " ", show(v), " index ", i));
        bool has = i < L; std::size_t f = has ? at[i] : npos, b = has ? at[L - 1 - i] : npos;
        stage = "offset";
        CHECK(index_offset(i, t.sv()) == f, "index_offset gives ", index_offset(i, t.sv())); CHECK(index_offset(reverse_index, i, t.sv()) == b, "reverse index_offset gives ", index_offset(reverse_index, i, t.sv()));
        CHECK(index_offset(i, t.p.get(), t.n) == f && index_offset(reverse_index, i, t.p.get(), t.n) == b, "pointer form");
        char32_t cf = has ? v[i] : 0xABCD, cb = has ? v[L - 1 - i] : 0xABCD;
        stage = "element";
        CHECK((char32_t)r.index_or(i, codepoint(U'\xABCD')) == cf, "index_or"); CHECK((char32_t)r.index_or(reverse_index, i, codepoint(U'\xABCD')) == cb, "reverse index_or");
        bool t1 = false, t2 = false; char32_t a1 = 0, a2 = 0;
        try { a1 = (char32_t)r.at(i); } catch(const std::out_of_range&) { t1 = true; }
        try { a2 = (char32_t)r.at(reverse_index, i); } catch(const std::out_of_range&) { t2 = true; }
        CHECK(t1 == !has && t2 == !has, "at() out of range"); if(has) { CHECK(a1 == cf && a2 == cb, "at()"); CHECK((char32_t)r[i] == cf && (char32_t)r.index(i) == cf && (char32_t)r.index(reverse_index, i) == cb, "index()"); CHECK(&r.index(i) == t.p.get() + f, "address"); }
    }
    if(L) { note(cat("sizeof ", sizeof(C), " ", show(v))); CHECK((char32_t)r.front() == v[0] && (char32_t)r.back() == v[L - 1], "front/back"); }
}
int main(int argc, char** argv) {
    init(argc, argv);
    auto all = [](const cps& v) { one<char>(v); one<char8_t>(v); one<char16_t>(v); one<char32_t>(v); one<wchar_t>(v); };
    each_cps(4, all, 20000);
    for(std::size_t n : {127, 128, 255, 256, 257}) { all(cps(n, U'a')); all(rndcps(n)); }
    for(std::uint32_t c = 0; c <= 0x10FFFF && more(); c += (c < 0x3000 || (c & 0xFFF) > 0xFF0 || (c & 0xFFF) < 16) ? 1 : 13) if(is_scalar(c)) all(cps{U'x', (char32_t)c, U'y'});
    return done();
}
