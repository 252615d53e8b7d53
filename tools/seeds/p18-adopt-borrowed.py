PROPERTY = 'P18'
NEEDS = 'reset(ptr, true) on a pointer that already refers to the same object without owning it'
BREAKS = 'reset returns early when the address does not change, so the ownership passed in is lost and the object leaks'
EDITS = [('include/papilio/memory.hpp', """    void reset(pointer ptr, bool ownership) noexcept
    {
        reset(nullptr);
        if(ptr)
        {
            m_ptr = std::move(ptr);
            m_has_ownership = ownership;
        }
    }

    void reset(independent_t, pointer ptr) noexcept""", """    void reset(pointer ptr, bool ownership) noexcept
    {
        if(ptr && ptr == m_ptr)
            return; // nothing to replace

        reset(nullptr);
        if(ptr)
        {
            m_ptr = std::move(ptr);
            m_has_ownership = ownership;
        }
    }

    void reset(independent_t, pointer ptr) noexcept""")]
DEMO = r'''#include <papilio/memory.hpp>
int alive = 0;
struct X { X() { ++alive; } ~X() { --alive; } };
int main() {
    using namespace papilio;
    { X* p = new X; optional_unique_ptr<X> o(p, false); o.reset(new X, true); if(alive != 2) return 1; o.reset(p, true); if(alive != 1) return 2; }
    if(alive != 0) return 3;
    { X* p = new X; optional_unique_ptr<X> o(p, false); o.reset(p, true); if(!o.has_ownership()) return 4; }
    if(alive != 0) return 5;
}
'''
SRCS = []
