PROPERTY = 'P15'
NEEDS = 'shrink_to_fit of a vector in allocated storage whose elements fit the static buffer'
BREAKS = 'the block is given back with the static capacity as its size instead of the size it was allocated with'
EDITS = [('include/papilio/container.hpp', """        size_type tmp_capacity = this->capacity();

        set_ptrs(getbuf(), static_capacity());

        try
        {
            std::uninitialized_move_n(tmp_ptr, tmp_size, m_p_begin);""", """        set_ptrs(getbuf(), static_capacity());
        size_type tmp_capacity = this->capacity();

        try
        {
            std::uninitialized_move_n(tmp_ptr, tmp_size, m_p_begin);""")]
DEMO = r'''#include <papilio/container.hpp>
#include <map>
static std::map<void*, std::size_t> blocks; static int bad = 0;
template <typename T> struct A {
    using value_type = T;
    A() = default;
    template <typename U> A(const A<U>&) noexcept {}
    T* allocate(std::size_t n) { T* p = std::allocator<T>().allocate(n); blocks[p] = n; return p; }
    void deallocate(T* p, std::size_t n) { auto it = blocks.find(p); if(it == blocks.end()) { bad = 1; return; }
        if(it->second != n) bad = 2; n = it->second; blocks.erase(it); std::allocator<T>().deallocate(p, n); }
    bool operator==(const A&) const { return true; }
};
int main() {
    {
        papilio::small_vector<int, 4, A<int>> v;
        for(int i = 0; i < 11; ++i) v.push_back(i);
        while(v.size() > 3) v.pop_back();
        v.shrink_to_fit();
        if(v.dynamic_allocated() || v.size() != 3) return 1;
        for(int i = 0; i < 3; ++i) if(v[i] != i) return 2;
        v.reserve(40); v.shrink_to_fit(); v.reserve(5);
    }
    if(bad) return 3;
    return blocks.empty() ? 0 : 4;
}
'''
SRCS = ['container']
