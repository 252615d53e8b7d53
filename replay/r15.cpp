#include <papilio/container.hpp>
#include <forward_list>
#include <span>
#include <stdexcept>
#include "elem.hpp"
using namespace papilio; using namespace rp;
template <std::size_t C> using V = small_vector<El, C>;
using M = std::vector<std::uint64_t>;
template <std::size_t C> void same(const V<C>& v, const M& m) {
    CHECK(v.size() == m.size(), "size ", v.size(), " instead of ", m.size()); CHECK(v.size() <= v.capacity() && v.capacity() >= C && v.static_capacity() == C, "capacity ", v.capacity()); CHECK(v.empty() == m.empty(), "empty");
    CHECK(v.end() - v.begin() == (std::ptrdiff_t)m.size() && v.cend() - v.cbegin() == (std::ptrdiff_t)m.size() && v.data() == v.begin() && v.rend() - v.rbegin() == (std::ptrdiff_t)m.size(), "iterators");
    const char* o = reinterpret_cast<const char*>(&v); const char* d = reinterpret_cast<const char*>(v.data());
    bool inside = d >= o && d < o + sizeof v; if(C) { CHECK(v.dynamic_allocated() != inside, "dynamic_allocated"); if(inside) CHECK(v.capacity() == C, "capacity of the buffer"); }
    for(std::size_t i = 0; i < m.size(); ++i) { CHECK(El::live.count(&v[i]), "element ", i, " does not exist"); CHECK(v[i].v == m[i], "element ", i, " is ", v[i].v, " instead of ", m[i]); CHECK(&v.at(i) == &v[i], "at"); }
    if(m.size()) CHECK(&v.front() == v.data() && &v.back() == v.data() + m.size() - 1, "front and back");
    bool t = false; try { (void)v.at(m.size() + rnd(3)); } catch(const std::out_of_range&) { t = true; } CHECK(t, "at() past the end");
}
template <std::size_t C> void ops() {
    stage = "small_vector";
    for(int it = 0; it < 400; ++it) {
        std::uint64_t next = 100; std::string log;
        {
            V<C> v, w; M m, k; std::size_t lim = rnd(4) ? C + 3 : 3 * C + 8;
            for(int n = 0; n < 40; ++n) {
                int op = (int)rnd(32); std::size_t i = rnd(m.size() + 1), j = m.size() ? rnd(m.size()) : 0, z = rnd(lim + 1);
                log += cat(" ", op, "@", i, ",", z); note(cat("capacity ", C, ":", log));
                std::vector<El> src; M sm; for(std::size_t q = 0; q < z; ++q) { src.emplace_back(++next); sm.push_back(next); }
                switch(op) {
                case 0: { auto r = v.emplace(v.cbegin() + i, ++next); CHECK(r == v.begin() + i, "iterator"); m.insert(m.begin() + (long)i, next); break; }
                case 1: { El e(++next); auto r = v.insert(v.cbegin() + i, e); CHECK(r == v.begin() + i, "iterator"); CHECK(e.v == next, "argument"); m.insert(m.begin() + (long)i, next); break; }
                case 2: { El e(++next); v.insert(v.cbegin() + i, std::move(e)); CHECK(e.v == 1, "argument"); m.insert(m.begin() + (long)i, next); break; }
                case 3: if(m.size()) { v.insert(v.cbegin() + i, v[j]); m.insert(m.begin() + (long)i, std::uint64_t(m[j])); } break;
                case 4: { auto& r = v.emplace_back(++next); CHECK(&r == &v.back(), "reference"); m.push_back(next); break; }
                case 5: { El e(++next); v.push_back(e); m.push_back(next); break; }
                case 6: { El e(++next); v.push_back(std::move(e)); m.push_back(next); break; }
                case 7: if(m.size()) { v.push_back(v[j]); m.push_back(std::uint64_t(m[j])); } break;
                case 8: if(m.size()) { v.pop_back(); m.pop_back(); } break;
                case 9: if(!rnd(3)) { auto c = v.capacity(); v.clear(); m.clear(); CHECK(v.capacity() == c, "clear keeps the capacity"); } break;
                case 10: { V<C> x(std::as_const(v)); same(x, m); break; }
                case 11: { V<C> x(std::move(v)); same(x, m); same(v, M(v.size(), 1)); v.clear(); m.clear(); break; }
                case 12: case 13: v.swap(w); std::swap(m, k); break;
                case 14: swap(v, w); std::swap(m, k); break;
                case 15: w = std::as_const(v); k = m; break;
                case 16: w = std::move(v); k = m; same(v, M(v.size(), 1)); v.clear(); m.clear(); break;
                case 17: { const V<C>& a = v; v = a; break; }
                case 18: case 19: v.resize(z); m.resize(z, 7); break;
                case 20: { El e(++next); v.resize(z, e); m.resize(z, next); break; }
                case 21: if(m.size()) { auto x = m[j]; if(z > m.size()) { v.resize(z, v[j]); m.resize(z, x); } } break;
                case 22: v.reserve(z); CHECK(v.capacity() >= z, "reserve"); break;
                case 23: case 24: v.shrink_to_fit(); CHECK(v.capacity() == std::max(C, m.size()), "shrink_to_fit leaves ", v.capacity()); break;
                case 25: v.append_range(std::span<const El>(src.data(), src.size())); m.insert(m.end(), sm.begin(), sm.end()); break;
                case 26: { std::forward_list<El> l(src.begin(), src.end()); v.append_range(l); m.insert(m.end(), sm.begin(), sm.end()); break; }
                case 27: v.assign(src.begin(), src.end()); m = sm; break;
                case 28: { std::forward_list<El> l(src.begin(), src.end()); v.assign_range(l); m = sm; break; }
                case 29: { V<C> x(src.begin(), src.end()); same(x, sm); break; }
                case 30: v.assign({El(3), El(4), El(5)}); m = {3, 4, 5}; break;
                case 31: { V<C> x({El(3), El(4)}); same(x, M{3, 4}); V<C> y{std::allocator<El>()}; same(y, M{}); break; }
                }
                src.clear(); same(v, m); same(w, k);
                CHECK(El::live.size() == m.size() + k.size(), "elements left behind");
            }
        }
        CHECK(El::live.empty(), "elements left behind at the end");
    }
}
int main(int argc, char** argv) { init(argc, argv); ops<1>(); ops<2>(); ops<0>(); ops<3>(); ops<8>(); return done(); }
