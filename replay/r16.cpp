#include <papilio/container.hpp>
#include <stdexcept>
#include "elem.hpp"
using namespace papilio; using namespace rp;
template <std::size_t C> using V = fixed_vector<El, C>;
template <std::size_t C> void same(const V<C>& v, const std::vector<std::uint64_t>& m) {
    CHECK(v.size() == m.size() && v.size() <= C, "size ", v.size(), " instead of ", m.size()); CHECK(v.empty() == m.empty(), "empty"); CHECK(v.capacity() == C && v.max_size() == C, "capacity");
    CHECK(v.end() - v.begin() == (std::ptrdiff_t)m.size() && v.cend() - v.cbegin() == (std::ptrdiff_t)m.size() && v.data() == v.begin(), "iterators");
    for(std::size_t i = 0; i < m.size(); ++i) { CHECK(El::live.count(&v[i]), "element ", i, " does not exist"); CHECK(v[i].v == m[i], "element ", i, " is ", v[i].v, " instead of ", m[i]); CHECK(&v.at(i) == &v[i], "at"); }
    if(m.size()) CHECK(&v.front() == v.data() && &v.back() == v.data() + m.size() - 1, "front and back");
    bool t = false; try { (void)v.at(m.size() + rnd(3)); } catch(const std::out_of_range&) { t = true; } CHECK(t, "at() past the end");
}
template <std::size_t C> void ops() {
    stage = "fixed_vector";
    for(int it = 0; it < 300; ++it) {
        std::uint64_t next = 100; std::string log;
        {
            V<C> v; std::vector<std::uint64_t> m;
            for(int n = 0; n < 30; ++n) {
                int op = (int)rnd(13); std::size_t i = rnd(m.size() + 1); std::size_t j = m.size() ? rnd(m.size()) : 0;
                log += cat(" ", op, "@", i); note(cat("capacity ", C, ":", log));
                bool full = m.size() == C, thrown = false, grows = false;
                try {
                    switch(op) {
                    case 0: grows = true; { auto r = v.emplace(v.cbegin() + i, ++next); CHECK(r == v.begin() + i, "iterator"); } m.insert(m.begin() + (long)i, next); break;
                    case 1: grows = true; { El e(++next); v.insert(v.cbegin() + i, e); CHECK(e.v == next, "argument"); } m.insert(m.begin() + (long)i, next); break;
                    case 2: grows = true; { El e(++next); v.insert(v.cbegin() + i, std::move(e)); CHECK(e.v == 1, "argument"); } m.insert(m.begin() + (long)i, next); break;
                    case 3: if(m.size()) { grows = true; v.insert(v.cbegin() + i, v[j]); m.insert(m.begin() + (long)i, std::uint64_t(m[j])); } break;
                    case 4: grows = true; { auto& r = v.emplace_back(++next); CHECK(&r == &v.back(), "reference"); } m.push_back(next); break;
                    case 5: grows = true; { El e(++next); v.push_back(e); } m.push_back(next); break;
                    case 6: grows = true; { El e(++next); v.push_back(std::move(e)); } m.push_back(next); break;
                    case 7: if(m.size()) { grows = true; v.push_back(v[j]); m.push_back(std::uint64_t(m[j])); } break;
                    case 8: if(m.size()) { v.pop_back(); m.pop_back(); } break;
                    case 9: if(!rnd(4)) { v.clear(); m.clear(); } break;
                    case 10: { V<C> w(std::as_const(v)); same(w, m); same(v, m); break; }
                    case 11: { V<C> w(std::move(v)); same(w, m); for(auto& e : v) CHECK(El::live.count(&e), "moved-from vector holds elements that do not exist"); v.clear(); m.clear(); break; }
                    case 12: { std::size_t k = rnd(C + 3); El e(5); bool t = false; try { V<C> w(k, e); same(w, std::vector<std::uint64_t>(k, 5)); } catch(const std::length_error&) { t = true; } CHECK(t == (k > C), "fill"); break; }
                    }
                } catch(const std::length_error&) { thrown = true; }
                CHECK(thrown == (grows && full), "length_error"); same(v, m);
                CHECK(El::live.size() == m.size(), "elements left behind");
            }
        }
        CHECK(El::live.empty(), "elements left behind at the end");
    }
}
int main(int argc, char** argv) { init(argc, argv); ops<1>(); ops<2>(); ops<3>(); ops<5>(); ops<17>(); return done(); }
