#include <papilio/utf/utf.hpp>
#include <papilio/utf/string.hpp>
#include "rp.hpp"
using namespace papilio; using namespace papilio::utf; using namespace rp;
template <typename C> void same(const char* w, std::basic_string_view<C> v, const C* p, const std::vector<std::size_t>& at, std::size_t lo, std::size_t hi) {
    if(lo >= hi) { CHECK(v.empty(), w, " is not empty: ", showu<C>(v)); return; }
    CHECK(v.data() == p + at[lo] && v.size() == at[hi] - at[lo], w, " expected code points ", lo, " to ", hi, " got ", showu<C>(v));
}
template <typename C> void one(const cps& v) {
    auto s = enc<C>(v); tight<C> t(s); std::size_t L = v.size(); basic_string_ref<C> r(t.sv()); const C* p = t.p.get();
    std::vector<std::size_t> at; std::size_t o = 0; for(auto c : v) { at.push_back(o); o += unit_len<C>(c); } at.push_back(o);
    std::vector<std::size_t> ix; for(std::size_t i = 0; i <= std::min<std::size_t>(L + 2, 12); ++i) ix.push_back(i);
    for(std::size_t x : {L - 1, L, L + 1, std::size_t(-1), std::size_t(-2), std::size_t(1) << 63, (std::size_t(1) << 63) - 1, std::size_t(1) << 32}) ix.push_back(x);
    for(auto a : ix) {
        note(cat("sizeof ", sizeof(C), " ", show(v), " ", a));
        stage = "remove_prefix"; { auto q = r; q.remove_prefix(a); same<C>("rest", q.to_string_view(), p, at, std::min(a, L), L); }
        stage = "remove_suffix"; { auto q = r; q.remove_suffix(a); same<C>("rest", q.to_string_view(), p, at, 0, L - std::min(a, L)); }
        for(auto b : ix) {
            note(cat("sizeof ", sizeof(C), " ", show(v), " ", a, " ", b));
            std::size_t n = a > L ? 0 : std::min(b, L - a);
            stage = "substr"; try { auto q = r.substr(a, b); CHECK(a <= L, "no exception"); same<C>("substr", q.to_string_view(), p, at, a, a + n); } catch(std::out_of_range&) { CHECK(a > L, "out_of_range"); }
            stage = "substr, empty string"; { auto q = r.template substr<substr_behavior::empty_string>(a, b); same<C>("substr", q.to_string_view(), p, at, a, a + n); }
            stage = "substr_extended"; try { auto q = r.substr_extended(a, b); CHECK(a <= L, "no exception"); CHECK(q.second == n, "count ", q.second); same<C>("substr", q.first.to_string_view(), p, at, a, a + n); } catch(std::out_of_range&) { CHECK(a > L, "out_of_range"); }
            std::ptrdiff_t sa = (std::ptrdiff_t)a, sb = (std::ptrdiff_t)b, SL = (std::ptrdiff_t)L;
            auto ok = [&](std::ptrdiff_t x) { return x >= 0 ? x <= SL : x >= -SL; };
            auto cl = [&](std::ptrdiff_t x) { return x >= 0 ? (x > SL ? SL : x) : (x < -SL ? 0 : SL + x); };
            bool fit = ok(sa) && (sb == index_range::npos || ok(sb));
            std::size_t lo = (std::size_t)cl(sa), hi = sb == index_range::npos ? L : (std::size_t)cl(sb);
            stage = "substr(index_range)"; try { auto q = r.substr(index_range(sa, sb)); CHECK(fit, "no exception"); same<C>("slice", q.to_string_view(), p, at, lo, hi); } catch(std::out_of_range&) { CHECK(!fit, "out_of_range"); }
            stage = "substr(index_range), empty string"; { auto q = r.template substr<substr_behavior::empty_string>(index_range(sa, sb)); same<C>("slice", q.to_string_view(), p, at, lo, hi); }
        }
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    auto all = [](const cps& v) { one<char>(v); one<char8_t>(v); one<char16_t>(v); one<char32_t>(v); one<wchar_t>(v); };
    each_cps(3, all, 400, 12);
    for(std::size_t n : {127, 128, 255, 256, 257}) { all(cps(n, U'a')); all(rndcps(n)); }
    return done();
}
