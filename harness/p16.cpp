#include <papilio/container.hpp>
#include "elem.hpp"
#include <src/container.cpp>
using namespace papilio;
using L = fixed_vector<E, 1000003>;
using S = fixed_vector<E, 1>;
using M = fixed_vector<E, 5>;
#define OPS(T, V) \
    void h_default_##T(V* p) { new(p) V; } \
    void h_copy_##T(V* p, const V* q) { new(p) V(*q); } \
    void h_move_##T(V* p, V* q) { new(p) V(std::move(*q)); } \
    void h_fill_##T(V* p, std::size_t n, const E* e) { new(p) V(n, *e); } \
    void h_dtor_##T(V* p) { p->~V(); } \
    const E* h_at_##T(V* p, std::size_t i) { return &p->at(i); } \
    const E* h_cat_##T(const V* p, std::size_t i) { return &p->at(i); } \
    void h_look_##T(V* p, std::size_t i) { const V& c = *p; vc_ptr(0, &(*p)[i]); vc_ptr(1, &c[i]); vc_ptr(2, p->data()); vc_ptr(3, c.data()); vc_ptr(4, p->begin()); vc_ptr(5, c.begin()); vc_ptr(6, c.cbegin()); \
        vc_ptr(7, p->end()); vc_ptr(8, c.end()); vc_ptr(9, c.cend()); vc_ptr(10, &p->front()); vc_ptr(11, &c.front()); vc_ptr(12, &p->back()); vc_ptr(13, &c.back()); } \
    void h_size_##T(V* p) { const V& c = *p; vc_num(0, p->size()); vc_num(1, c.size()); vc_num(2, c.empty()); vc_num(3, c.capacity()); vc_num(4, V::max_size()); vc_ptr(2, p->data()); vc_ptr(3, c.data()); vc_ptr(4, p->begin()); vc_ptr(5, c.begin()); vc_ptr(6, c.cbegin()); \
        vc_ptr(7, p->end()); vc_ptr(8, c.end()); vc_ptr(9, c.cend()); } \
    void h_clear_##T(V* p) { p->clear(); } \
    E* h_emplace_##T(V* p, std::size_t i, std::uint64_t x) { return p->emplace(p->cbegin() + i, x); } \
    E* h_insertc_##T(V* p, std::size_t i, const E* e) { return p->insert(p->cbegin() + i, *e); } \
    E* h_insertm_##T(V* p, std::size_t i, E* e) { return p->insert(p->cbegin() + i, std::move(*e)); } \
    E* h_emplace_back_##T(V* p, std::uint64_t x) { return &p->emplace_back(x); } \
    void h_pushc_##T(V* p, const E* e) { p->push_back(*e); } \
    void h_pushm_##T(V* p, E* e) { p->push_back(std::move(*e)); } \
    void h_pop_##T(V* p) { p->pop_back(); }
extern "C" {
OPS(l, L)
OPS(m, M)
OPS(s, S)
}
