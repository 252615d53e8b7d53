#include <papilio/container.hpp>
#include <stdexcept>
#include <map>
#include "elem.hpp"
using namespace papilio; using namespace rp;
struct H { std::uint64_t v; };
inline bool operator<(const H& a, const El& b) { b.need(); return a.v < b.v; }
inline bool operator<(const El& a, const H& b) { a.need(); return a.v < b.v; }
template <typename M, bool T> void same(M& v, const std::map<std::uint64_t, std::uint64_t>& m, std::size_t C) {
    const M& c = v;
    CHECK(v.size() == m.size() && v.empty() == m.empty() && v.max_size() == C, "size ", v.size()); CHECK(v.end() - v.begin() == (std::ptrdiff_t)m.size() && c.end() - c.begin() == (std::ptrdiff_t)m.size(), "iterators");
    auto p = v.begin(); for(auto& [k, x] : m) { CHECK(El::live.count(&p->first) && El::live.count(&p->second), "an association does not exist"); CHECK(p->first.v == k && p->second.v == x, "association ", p - v.begin(), " is ", p->first.v, ":", p->second.v, " instead of ", k, ":", x); ++p; }
    for(std::uint64_t k = 9; k < 10 + 2 * C + 4; ++k) {
        El e(k); bool has = m.count(k); auto lb = std::distance(m.begin(), m.lower_bound(k));
        CHECK(v.contains(e) == has && c.contains(e) == has, "contains ", k); CHECK((v.find(e) != v.end()) == has && (c.find(e) != c.end()) == has, "find ", k);
        if(has) CHECK(v.find(e)->first.v == k && c.find(e)->first.v == k && &v.at(e) == &v.find(e)->second && &c.at(e) == &v.at(e), "found ", k);
        CHECK(v.lower_bound(e) - v.begin() == lb && c.lower_bound(e) - c.begin() == lb, "lower_bound ", k);
        if constexpr(T) { CHECK((v.find(H{k}) != v.end()) == has && (c.find(H{k}) != c.end()) == has && c.contains(H{k}) == has && v.lower_bound(H{k}) - v.begin() == lb && c.lower_bound(H{k}) - c.begin() == lb, "other key type ", k); }
        bool t = false; try { (void)v.at(e); } catch(const std::out_of_range&) { t = true; } CHECK(t == !has, "at ", k);
        t = false; try { (void)c.at(e); } catch(const std::out_of_range&) { t = true; } CHECK(t == !has, "at ", k);
    }
}
template <typename Cmp, std::size_t C> void ops(const char* nm) {
    stage = nm; using M = fixed_flat_map<El, El, C, Cmp>;
    for(int it = 0; it < 150; ++it) {
        std::uint64_t next = 1000; std::string log;
        {
            M v; std::map<std::uint64_t, std::uint64_t> m; same<M, !std::is_same_v<Cmp, std::less<El>>>(v, m, C);
            for(int n = 0; n < 20; ++n) {
                std::uint64_t k = 10 + rnd(2 * C + 2); int op = (int)rnd(6); bool has = m.count(k), full = m.size() == C, thrown = false;
                log += cat(" ", op, "/", k); note(cat("capacity ", C, ":", log));
                try {
                    El e(k), x(++next); std::pair<decltype(v.begin()), bool> r{};
                    std::uint64_t val = next;
                    switch(op) {
                    case 0: r = v.insert_or_assign(e, x); CHECK(x.v == val, "argument"); break;
                    case 1: r = v.insert_or_assign(e, std::move(x)); CHECK(x.v == 1, "argument"); break;
                    case 2: r = v.try_emplace(e, x); CHECK(x.v == val, "argument"); break;
                    case 3: r = v.try_emplace(e, std::move(x)); CHECK(x.v == (has ? val : 1), "argument"); break;
                    case 4: r = v.try_emplace(e, val); break;
                    case 5: if(m.empty()) continue; { auto j = rnd(m.size()); val = (v.begin() + (long)j)->second.v; r = v.insert_or_assign(e, (v.begin() + (long)j)->second); } break;
                    }
                    CHECK(r.second == !has, "inserted"); CHECK(r.first->first.v == k, "iterator");
                    if(!has || op < 2 || op == 5) m[k] = val;
                } catch(const std::length_error&) { thrown = true; }
                CHECK(thrown == (full && !has), "length_error"); same<M, !std::is_same_v<Cmp, std::less<El>>>(v, m, C);
                CHECK(El::live.size() == 2 * m.size(), "elements left behind");
            }
        }
        CHECK(El::live.empty(), "elements left behind at the end");
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    ops<std::less<>, 1>("fixed_flat_map"); ops<std::less<>, 4>("fixed_flat_map"); ops<std::less<>, 9>("fixed_flat_map"); ops<std::less<El>, 1>("fixed_flat_map, std::less<Key>"); ops<std::less<El>, 6>("fixed_flat_map, std::less<Key>");
    return done();
}
