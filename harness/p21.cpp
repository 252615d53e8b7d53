#include <papilio/core.hpp>
#include <papilio/accessor/ranges.hpp>
#include <papilio/accessor/tuple.hpp>
#include <span>
#include <vector>
#include <tuple>
#include "vc.hpp"
#include "src/core.cpp"
#include "src/access.cpp"
#include "src/utf/codepoint.cpp"
using namespace papilio;
struct E12 { std::uint32_t a, b, c; };               // an element: three words
struct MyCtx { using char_type = char; };            // a client's context: its arguments record what they were made of
extern "C" { void vc_none(); void vc_elem(const void* p); void vc_span(const void* p, std::size_t n); void vc_size(std::size_t n); void vc_bool(bool b); void vc_cp(const unsigned char* p, unsigned n); void vc_str(const void* p, std::size_t n); }
template <> class papilio::basic_format_arg<MyCtx> {
public:
    basic_format_arg() noexcept { vc_none(); }
    basic_format_arg(const E12& e) { vc_elem(&e); }
    basic_format_arg(std::span<const E12> s) { vc_span(s.data(), s.size()); }
    basic_format_arg(const utf::codepoint& c) { unsigned char b[4] = {}; for(unsigned i = 0; i < c.size_bytes(); ++i) b[i] = (unsigned char)c.data()[i]; vc_cp(b, c.size_bytes()); }
    basic_format_arg(utf::string_container s) { auto v = std::string_view(s); vc_str(v.data(), v.size()); }
    basic_format_arg(std::size_t n) { vc_size(n); }
    basic_format_arg(std::in_place_type_t<bool>, bool b) { vc_bool(b); }
};
using Arg = basic_format_arg<MyCtx>;
struct Rng {                                         // a contiguous range that is no standard container
    const E12* f; std::size_t n;
    const E12* begin() const { return f; }
    const E12* end() const { return f + n; }
};
template <> struct papilio::accessor<Rng, MyCtx> : contiguous_range_accessor<Rng, MyCtx> {};
template <typename R> using AT = accessor_traits<R, MyCtx>;
using SC = std::span<const E12>; using SM = std::span<E12>; using V = std::vector<E12>; using VB = std::vector<bool>;
#define ROWS(T, P, MK, R) \
    void h_index_##T(P* p, std::size_t n, std::ptrdiff_t i) { MK; (void)AT<R>::index(r, i); } \
    void h_slice_##T(P* p, std::size_t n, std::ptrdiff_t a, std::ptrdiff_t b) { MK; (void)AT<R>::index(r, index_range(a, b)); } \
    void h_attr_##T(P* p, std::size_t n, const char* s, std::size_t k) { MK; (void)AT<R>::attribute(r, attribute_name(std::string_view(s, k))); }
extern "C" {
ROWS(sc, const E12, SC r(p, n), SC)
ROWS(sm, E12, SM r(p, n), SM)
static Rng mk(const E12* p, std::size_t n) { Rng r; r.f = p; r.n = n; return r; }
ROWS(rg, const E12, Rng r = mk(p, n), Rng)
void h_index_v(const V& r, std::ptrdiff_t i) { (void)AT<V>::index(r, i); }
void h_slice_v(const V& r, std::ptrdiff_t a, std::ptrdiff_t b) { (void)AT<V>::index(r, index_range(a, b)); }
void h_attr_v(const V& r, const char* s, std::size_t k) { (void)AT<V>::attribute(r, attribute_name(std::string_view(s, k))); }
void h_index_vb(const VB& r, std::ptrdiff_t i) { (void)AT<VB>::index(r, i); }
void h_attr_vb(const VB& r, const char* s, std::size_t k) { (void)AT<VB>::attribute(r, attribute_name(std::string_view(s, k))); }
using T1 = std::tuple<E12>; using T3 = std::tuple<E12, E12, E12>; using P2 = std::pair<E12, E12>; using T5 = std::tuple<E12, E12, E12, E12, E12>;
void h_tuple_1(const T1& r, std::ptrdiff_t i) { (void)AT<T1>::index(r, i); }
void h_tuple_2(const P2& r, std::ptrdiff_t i) { (void)AT<P2>::index(r, i); }
void h_tuple_3(const T3& r, std::ptrdiff_t i) { (void)AT<T3>::index(r, i); }
void h_tuple_5(const T5& r, std::ptrdiff_t i) { (void)AT<T5>::index(r, i); }
using ST = utf::string_container;
void h_index_st(const char* p, std::size_t n, std::ptrdiff_t i) { ST r(p, n); (void)AT<ST>::index(r, i); }
void h_slice_st(const char* p, std::size_t n, std::ptrdiff_t a, std::ptrdiff_t b) { ST r(p, n); (void)AT<ST>::index(r, index_range(a, b)); }
void h_attr_st(const char* p, std::size_t n, const char* s, std::size_t k) { ST r(p, n); (void)AT<ST>::attribute(r, attribute_name(std::string_view(s, k))); }
}
