// An element whose every operation is a monitor: the verifier keeps the lifetime and the value of each element as ghost state.
#pragma once
#include <cstddef>
#include <cstdint>
#include <new>
#include <utility>
struct E;
extern "C" {
void vc_make(E* self, std::uint64_t v) noexcept;
void vc_copy(E* self, const E* o) noexcept;
void vc_move(E* self, E* o) noexcept;
void vc_asgc(E* self, const E* o) noexcept;
void vc_asgm(E* self, E* o) noexcept;
void vc_dtor(E* self) noexcept;
bool vc_less(const E* a, const E* b) noexcept;
void vc_ptr(int slot, const void* p) noexcept;
void vc_num(int slot, std::size_t n) noexcept;
}
struct E {
    std::uint64_t v;
    E() noexcept { vc_make(this, 2); }
    explicit E(std::uint64_t x) noexcept { vc_make(this, x); }
    E(const E& o) noexcept { vc_copy(this, &o); }
    E(E&& o) noexcept { vc_move(this, &o); }
    E& operator=(const E& o) noexcept { vc_asgc(this, &o); return *this; }
    E& operator=(E&& o) noexcept { vc_asgm(this, &o); return *this; }
    ~E() { vc_dtor(this); }
    bool operator<(const E& o) const noexcept { return vc_less(this, &o); }
};
