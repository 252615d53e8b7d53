#include <papilio/memory.hpp>
#include <map>
#include "rp.hpp"
using namespace papilio; using namespace rp;
struct X { int v; };
static std::map<X*, int> gone;
struct D { void operator()(X* p) const noexcept { ++gone[p]; } };
static X objs[4096];
template <typename P, typename E, typename U> void ops(const char* nm) {
    stage = nm;
    struct M { X* p = nullptr; bool o = false; };
    for(int it = 0; it < 400; ++it) {
        gone.clear(); std::map<X*, int> want; std::size_t nx = 0; std::string log;
        { 
            std::vector<std::unique_ptr<P>> v; std::vector<M> m;
            auto drop = [&](M& x) { if(x.o) ++want[x.p]; x = {}; };
            auto fresh = [&]() -> X* { return &objs[nx++]; };
            for(int n = 0; n < 12; ++n) {
                int op = (int)rnd(14); std::size_t i = v.size() ? rnd(v.size()) : 0;
                if(v.empty()) op %= 4;
                log += cat(" ", op, "@", i); note(log);
                switch(op) {
                case 0: { X* p = fresh(); bool o = rnd(2); v.push_back(std::make_unique<P>(p, o)); m.push_back({p, o}); break; }
                case 1: v.push_back(rnd(2) ? std::make_unique<P>() : std::make_unique<P>(nullptr)); m.push_back({}); break;
                case 2: { X* p = rnd(3) ? fresh() : nullptr; U u(p); v.push_back(std::make_unique<P>(std::move(u))); m.push_back({p, p != nullptr}); CHECK(!u, "the unique_ptr keeps the object"); break; }
                case 3: if constexpr(!std::is_array_v<E>) { X* p = fresh(); v.push_back(std::make_unique<P>(independent, p)); m.push_back({p, true}); } break;
                case 4: v.push_back(std::make_unique<P>(std::as_const(*v[i]))); m.push_back({m[i].p, false}); break;
                case 5: v.push_back(std::make_unique<P>(std::move(*v[i]))); m.push_back(m[i]); m[i] = {}; break;
                case 6: { X* p = rnd(3) ? fresh() : nullptr; bool o = p && rnd(2); drop(m[i]); v[i]->reset(p, o); m[i] = {p, o}; break; }
                case 7: { X* p = rnd(3) ? fresh() : nullptr; drop(m[i]); v[i]->reset(U(p)); m[i] = {p, p != nullptr}; break; }
                case 8: drop(m[i]); if(rnd(2)) v[i]->reset(); else v[i]->reset(nullptr); break;
                case 9: { X* p = m[i].p; CHECK(v[i]->release() == p, "release"); m[i] = {}; break; }
                case 10: if constexpr(!std::is_array_v<E>) { std::size_t j = rnd(v.size()); v[i]->swap(*v[j]); std::swap(m[i], m[j]); } break;
                case 11: drop(m[i]); v.erase(v.begin() + (long)i); m.erase(m.begin() + (long)i); break;
                case 13: if(m[i].p && !m[i].o) { bool held = false; for(auto& x : m) held |= x.o && x.p == m[i].p; if(!held && !gone.count(m[i].p)) { bool o = rnd(2); v[i]->reset(m[i].p, o); m[i].o = o; } } break;
                case 12: if constexpr(!std::is_array_v<E>) { X* p = rnd(3) ? fresh() : nullptr; drop(m[i]); v[i]->reset(independent, p); m[i] = {p, p != nullptr}; } break;
                }
                for(std::size_t k = 0; k < v.size(); ++k) {
                    CHECK(v[k]->get() == m[k].p, "get() of ", k); CHECK(v[k]->has_ownership() == m[k].o, "ownership of ", k); CHECK(!*v[k] == !m[k].p, "bool");
                    CHECK((*v[k] == nullptr) == !m[k].p && (nullptr == *v[k]) == !m[k].p, "== nullptr"); CHECK((*v[k] == *v[0]) == (m[k].p == m[0].p), "==");
                    if(m[k].p) { if constexpr(std::is_array_v<E>) CHECK(&(*v[k])[3] == m[k].p + 3, "[]"); else CHECK(&**v[k] == m[k].p && &(*v[k])->v == &m[k].p->v, "*"); }
                }
                CHECK(gone == want, "deleted so far");
            }
            for(auto& x : m) drop(x);
        }
        CHECK(gone == want, "deleted at the end");
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    ops<optional_unique_ptr<X, D>, X, std::unique_ptr<X, D>>("optional_unique_ptr<T>");
    ops<optional_unique_ptr<X[], D>, X[], std::unique_ptr<X, D>>("optional_unique_ptr<T[]>");
    stage = "default deleter"; note("make_optional_unique");
    for(int i = 0; i < 100; ++i) { auto p = make_optional_unique<int>(i); auto q = p; auto r = std::move(p); CHECK(*q == i && *r == i && !p, ""); auto a = make_optional_unique<int[]>(9); auto b = a; CHECK(b[8] == 0, ""); auto c = optional_unique_ptr<X>::pointer_to(objs[0]); CHECK(c.get() == objs && !c.has_ownership(), ""); r.reset(std::make_unique<int>(3)); CHECK(*r == 3 && r.has_ownership(), ""); int* x = r.release(); delete x; r.reset(new int(3), true); }
    return done();
}
