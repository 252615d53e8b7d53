#include <papilio/container.hpp>
#include <span>
#include "elem.hpp"
#include <src/container.cpp>
using namespace papilio;
using L = small_vector<E, 100003>;
using S = small_vector<E, 2>;
using Z = small_vector<E, 0>;
struct Sent { const E* e; };
struct It { // an iterator whose distance to the end is not known
    using value_type = E; using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag; using pointer = const E*; using reference = const E&;
    const E* p;
    const E& operator*() const noexcept { return *p; }
    It& operator++() noexcept { ++p; return *this; }
    It operator++(int) noexcept { It t = *this; ++p; return t; }
    friend bool operator==(const It& a, const Sent& b) noexcept { return a.p == b.e; }
};
struct Rng { const E* f; const E* l; It begin() const noexcept { return {f}; } Sent end() const noexcept { return {l}; } };
#define OPS(T, V) \
    void h_default_##T(V* p) { new(p) V; } \
    void h_alloc_##T(V* p) { std::allocator<E> a; new(p) V(a); } \
    void h_copy_##T(V* p, const V* q) { new(p) V(*q); } \
    void h_move_##T(V* p, V* q) { new(p) V(std::move(*q)); } \
    void h_range_##T(V* p, const E* f, const E* l) { new(p) V(f, l); } \
    void h_il_##T(V* p, std::initializer_list<E> il) { new(p) V(il); } \
    void h_dtor_##T(V* p) { p->~V(); } \
    V* h_copyassign_##T(V* p, const V* q) { return &(*p = *q); } \
    V* h_moveassign_##T(V* p, V* q) { return &(*p = std::move(*q)); } \
    void h_assign_##T(V* p, const E* f, const E* l) { p->assign(f, l); } \
    void h_assignil_##T(V* p, std::initializer_list<E> il) { p->assign(il); } \
    void h_assignrange_##T(V* p, const E* f, const E* l) { p->assign_range(std::span<const E>(f, l)); } \
    void h_assignin_##T(V* p, const E* f, const E* l) { p->assign_range(Rng{f, l}); } \
    void h_append_##T(V* p, const E* f, const E* l) { p->append_range(std::span<const E>(f, l)); } \
    void h_appendin_##T(V* p, const E* f, const E* l) { p->append_range(Rng{f, l}); } \
    void h_reserve_##T(V* p, std::size_t n) { p->reserve(n); } \
    void h_shrink_##T(V* p) { p->shrink_to_fit(); } \
    void h_clear_##T(V* p) { p->clear(); } \
    void h_pop_##T(V* p) { p->pop_back(); } \
    void h_resizev_##T(V* p, std::size_t n, const E* e) { p->resize(n, *e); } \
    void h_resize_##T(V* p, std::size_t n) { p->resize(n); } \
    void h_swap_##T(V* p, V* q) { p->swap(*q); } \
    void h_fswap_##T(V* p, V* q) { swap(*p, *q); } \
    E* h_emplace_##T(V* p, std::size_t i, std::uint64_t x) { return p->emplace(p->cbegin() + i, x); } \
    E* h_insertc_##T(V* p, std::size_t i, const E* e) { return p->insert(p->cbegin() + i, *e); } \
    E* h_insertm_##T(V* p, std::size_t i, E* e) { return p->insert(p->cbegin() + i, std::move(*e)); } \
    E* h_emplaceback_##T(V* p, std::uint64_t x) { return &p->emplace_back(x); } \
    void h_pushc_##T(V* p, const E* e) { p->push_back(*e); } \
    void h_pushm_##T(V* p, E* e) { p->push_back(std::move(*e)); } \
    const E* h_at_##T(V* p, std::size_t i) { return &p->at(i); } \
    const E* h_cat_##T(const V* p, std::size_t i) { return &p->at(i); } \
    void h_look_##T(V* p, std::size_t i) { const V& c = *p; vc_ptr(0, &(*p)[i]); vc_ptr(1, &c[i]); vc_ptr(10, &p->front()); vc_ptr(11, &c.front()); vc_ptr(12, &p->back()); vc_ptr(13, &c.back()); \
        vc_ptr(14, &*p->rbegin()); vc_ptr(15, &*c.rbegin()); vc_ptr(16, &*c.crbegin()); vc_ptr(17, p->rend().base()); vc_ptr(18, c.rend().base()); vc_ptr(19, c.crend().base()); } \
    void h_size_##T(V* p) { const V& c = *p; vc_num(0, p->size()); vc_num(1, c.size()); vc_num(2, c.empty()); vc_num(3, c.capacity()); vc_num(4, V::static_capacity()); vc_num(5, c.dynamic_allocated()); vc_ptr(2, p->data()); vc_ptr(3, c.data()); vc_ptr(4, p->begin()); vc_ptr(5, c.begin()); vc_ptr(6, c.cbegin()); \
        vc_ptr(7, p->end()); vc_ptr(8, c.end()); vc_ptr(9, c.cend()); }
extern "C" {
OPS(l, L)
OPS(s, S)
OPS(z, Z)
}
static_assert(sizeof(L) == 24 + 8 * 100003 && sizeof(S) == 40);
