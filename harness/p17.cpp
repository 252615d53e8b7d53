#include <papilio/container.hpp>
#include "elem.hpp"
#include <src/container.cpp>
using namespace papilio;
struct H { const E* e; };
inline bool operator<(const H& a, const E& b) noexcept { return vc_less(a.e, &b); }
inline bool operator<(const E& a, const H& b) noexcept { return vc_less(&a, b.e); }
using L = fixed_flat_map<E, E, 100003>;
using N = fixed_flat_map<E, E, 100003, std::less<E>>;
#define OPS(T, V) \
    void h_default_##T(V* p) { new(p) V; } \
    void h_dtor_##T(V* p) { p->~V(); } \
    void h_size_##T(V* p) { const V& c = *p; vc_num(0, p->size()); vc_num(1, c.empty()); vc_num(2, V::max_size()); vc_ptr(0, p->begin()); vc_ptr(1, c.begin()); vc_ptr(2, p->end()); vc_ptr(3, c.end()); } \
    E* h_at_##T(V* p, const E* k) { return &p->at(*k); } \
    const E* h_cat_##T(const V* p, const E* k) { return &p->at(*k); } \
    const void* h_find_##T(V* p, const E* k) { return p->find(*k); } \
    const void* h_cfind_##T(const V* p, const E* k) { return p->find(*k); } \
    bool h_contains_##T(const V* p, const E* k) { return p->contains(*k); } \
    const void* h_lower_##T(V* p, const E* k) { return p->lower_bound(*k); } \
    const void* h_clower_##T(const V* p, const E* k) { return p->lower_bound(*k); } \
    const void* h_assignc_##T(V* p, const E* k, const E* v, bool* r) { auto x = p->insert_or_assign(*k, *v); *r = x.second; return x.first; } \
    const void* h_assignm_##T(V* p, const E* k, E* v, bool* r) { auto x = p->insert_or_assign(*k, std::move(*v)); *r = x.second; return x.first; } \
    const void* h_tryc_##T(V* p, const E* k, const E* v, bool* r) { auto x = p->try_emplace(*k, *v); *r = x.second; return x.first; } \
    const void* h_trym_##T(V* p, const E* k, E* v, bool* r) { auto x = p->try_emplace(*k, std::move(*v)); *r = x.second; return x.first; } \
    const void* h_try_##T(V* p, const E* k, std::uint64_t v, bool* r) { auto x = p->try_emplace(*k, v); *r = x.second; return x.first; }
extern "C" {
OPS(l, L)
OPS(n, N)
const void* h_hfind_l(L* p, const E* k) { return p->find(H{k}); }
const void* h_hcfind_l(const L* p, const E* k) { return p->find(H{k}); }
bool h_hcontains_l(const L* p, const E* k) { return p->contains(H{k}); }
const void* h_hlower_l(L* p, const E* k) { return p->lower_bound(H{k}); }
const void* h_hclower_l(const L* p, const E* k) { return p->lower_bound(H{k}); }
}
