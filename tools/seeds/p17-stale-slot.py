PROPERTY = 'P17'
NEEDS = 'the slot behind the last pair holds bytes equal to the new, greatest key, as in a map built where another one was'
BREAKS = 'insert_or_assign compares the key with the slot behind the last pair and assigns there instead of inserting'
EDITS = [('include/papilio/container.hpp', """        static_assert(std::is_assignable_v<mapped_type&, U&&>);

        auto pos = lower_bound(k);
        if(pos != end() && is_equal""", """        static_assert(std::is_assignable_v<mapped_type&, U&&>);

        auto pos = lower_bound(k);
        if(size() != 0 && is_equal""")]
DEMO = r'''#include <papilio/container.hpp>
#include <new>
using M = papilio::fixed_flat_map<int, int, 4>;
alignas(M) static unsigned char mem[sizeof(M) + 64];
int main() {
    { // two pairs side by side in the memory of one map, used again
        M& m = *new(mem) M; m.insert_or_assign(1, 10); m.insert_or_assign(2, 20); m.~M();
    }
    int* p = reinterpret_cast<int*>(mem);
    M& m = *new(mem) M;
    if(!m.insert_or_assign(1, 11).second) return 1;
    for(int i = 2; i < 8; ++i) if(reinterpret_cast<int*>(&*m.end()) == p + i) { p[i] = 2; p[i + 1] = 20; break; }
    if(!m.insert_or_assign(2, 21).second) return 2;
    if(m.size() != 2 || !m.contains(2) || m.at(2) != 21 || m.at(1) != 11) return 3;
}
'''
SRCS = ['container']
