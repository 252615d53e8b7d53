#include <papilio/memory.hpp>
#include <utility>
#include "vc.hpp"
using namespace papilio;
struct X;                                            // the element: never looked at
extern "C" { void vc_delete(X*); void vc_rep(int slot, X* p, bool own); void vc_val(int slot, bool v); }
struct D { void operator()(X* p) const noexcept { vc_delete(p); } };
struct Y { unsigned char b; };
struct DY { void operator()(Y* p) const noexcept { vc_delete(reinterpret_cast<X*>(p)); } };
using S = optional_unique_ptr<X, D>;
using A = optional_unique_ptr<Y[], DY>;
using US = std::unique_ptr<X, D>;
using UA = std::unique_ptr<Y, DY>;
template <typename P> void rep(int k, const P& p) { vc_rep(k, reinterpret_cast<X*>(p.get()), p.has_ownership()); }
#define OPS(T, P, U, E) \
    void h_ctor_##T(E* p, bool o) { P a(p, o); rep(0, a); } \
    void h_default_##T() { P a; rep(0, a); } \
    void h_null_##T() { P a(nullptr); rep(0, a); } \
    void h_copy_##T(E* p, bool o) { P a(p, o); P b(std::as_const(a)); rep(0, a); rep(1, b); } \
    void h_move_##T(E* p, bool o) { P a(p, o); P b(std::move(a)); rep(0, a); rep(1, b); } \
    void h_unique_##T(E* p) { U u(p); P a(std::move(u)); vc_rep(1, reinterpret_cast<X*>(u.get()), false); rep(0, a); } \
    void h_reset2_##T(E* p, bool o, E* q, bool o2) { P a(p, o); a.reset(q, o2); rep(0, a); } \
    void h_resetu_##T(E* p, bool o, E* q) { P a(p, o); U u(q); a.reset(std::move(u)); rep(0, a); vc_rep(1, reinterpret_cast<X*>(u.get()), false); } \
    void h_reset_##T(E* p, bool o) { P a(p, o); a.reset(); rep(0, a); } \
    void h_resetn_##T(E* p, bool o) { P a(p, o); a.reset(nullptr); rep(0, a); } \
    void h_release_##T(E* p, bool o) { P a(p, o); E* r = a.release(); rep(0, a); vc_rep(1, reinterpret_cast<X*>(r), false); } \
    void h_dtor_##T(E* p, bool o) { { P a(p, o); rep(0, a); } vc_val(9, true); } \
    void h_bool_##T(E* p, bool o, E* q, bool o2) { P a(p, o), b(q, o2); vc_val(0, static_cast<bool>(a)); vc_val(1, a == b); vc_val(2, a == nullptr); vc_val(3, nullptr == b); vc_val(4, a != b); rep(0, a); rep(1, b); }
extern "C" {
OPS(s, S, US, X)
OPS(a, A, UA, Y)
void h_swap_s(X* p, bool o, X* q, bool o2) { S a(p, o), b(q, o2); a.swap(b); rep(0, a); rep(1, b); }
void h_ind_s(X* p) { S a(independent, p); rep(0, a); }
void h_reseti_s(X* p, bool o, X* q) { S a(p, o); a.reset(independent, q); rep(0, a); }
void h_to_s(Y* p) { using P = optional_unique_ptr<Y, DY>; P a = P::pointer_to(*p); rep(0, a); }
unsigned char h_deref_s(Y* p, bool o) { optional_unique_ptr<Y, DY> a(p, o); return (*a).b + a->b; }
unsigned char* h_index_a(Y* p, bool o, std::size_t i) { A a(p, o); return &a[i].b; }
// with the default deleter the memory itself goes back
unsigned h_make_s(unsigned v) { auto p = make_optional_unique<unsigned>(v); auto q = p; auto r = std::move(p); return *q + *r + (p.get() != nullptr); }
int h_make_a(std::size_t i) { auto p = make_optional_unique<int[]>(4); auto q = p; auto r = std::move(p); return q[i] + r[i]; }
int h_mkreset_s(int v) { auto p = make_optional_unique<int>(v); p.reset(new int(v), true); int r = *p; p.reset(std::make_unique<int>(7)); r ^= *p; p.reset(); return r; }
int h_mkrel_s(int v) { auto p = make_optional_unique<int>(v); int* r = p.release(); int x = *r; delete r; return x; }
}
