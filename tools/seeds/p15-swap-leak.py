PROPERTY = 'P15'
NEEDS = 'swap of two vectors in their static buffers where the left one is longer'
BREAKS = 'the elements moved out of the longer left vector are never destroyed'
EDITS = [('include/papilio/container.hpp', """            std::uninitialized_move_n(m_p_begin + i, tmp_size_1 - i, other.m_p_end);
            std::destroy_n(m_p_begin + i, tmp_size_1 - i);""", """            std::uninitialized_move_n(m_p_begin + i, tmp_size_1 - i, other.m_p_end);
            std::destroy_n(m_p_begin + tmp_size_2, tmp_size_2 - i);""")]
DEMO = r'''#include <papilio/container.hpp>
static int live = 0;
struct E {
    int v;
    E(int x) : v(x) { ++live; }
    E(const E& o) : v(o.v) { ++live; }
    E(E&& o) noexcept : v(o.v) { ++live; }
    E& operator=(const E&) = default;
    ~E() { --live; }
};
template <int N, int M> int t() {
    {
        papilio::small_vector<E, 8> a, b;
        for(int i = 0; i < N; ++i) a.push_back(i);
        for(int i = 0; i < M; ++i) b.push_back(100 + i);
        a.swap(b);
        if((int)a.size() != M || (int)b.size() != N) return 1;
        for(int i = 0; i < M; ++i) if(a[i].v != 100 + i) return 2;
        for(int i = 0; i < N; ++i) if(b[i].v != i) return 3;
        if(live != N + M) return 4;
    }
    return live ? 5 : 0;
}
int main() {
    if(int r = t<2, 5>()) return r;
    if(int r = t<3, 3>()) return r;
    if(int r = t<5, 2>()) return r;
}
'''
SRCS = ['container']
