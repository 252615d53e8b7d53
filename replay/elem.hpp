// An element that notices being used when it does not exist, being constructed twice and not being destroyed.
#pragma once
#include <cstdint>
#include <set>
#include "rp.hpp"
namespace rp {
struct El {
    static inline std::set<const El*> live;
    std::uint64_t v;
    void born() { CHECK(live.insert(this).second, "an element is constructed where one lives"); }
    void need() const { CHECK(live.count(this), "an element that does not exist is used"); }
    explicit El(std::uint64_t x = 7) : v(x) { born(); }
    El(const El& o) : v(o.v) { o.need(); born(); }
    El(El&& o) noexcept : v(o.v) { o.need(); born(); o.v = 1; }
    El& operator=(const El& o) { need(); o.need(); v = o.v; return *this; }
    El& operator=(El&& o) noexcept { need(); o.need(); auto x = o.v; o.v = 1; v = x; if(&o == this) v = 1; return *this; }
    ~El() { need(); live.erase(this); }
    bool operator<(const El& o) const { need(); o.need(); return v < o.v; }
    bool operator==(const El& o) const { return v == o.v; }
};
}
