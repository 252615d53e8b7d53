#!/usr/bin/env python3
"""tools/refactor/set3.py CLONE: behaviour-preserving edits of the containers"""
import sys
f = sys.argv[1] + '/include/papilio/container.hpp'; s = open(f).read()
def rep(a, b):
    global s
    assert s.count(a) == 1, (s.count(a), a); s = s.replace(a, b)
# growth: pointers instead of an index
rep("""            for(i = 0; i < tmp_size; ++i)
            {
                std::allocator_traits<Allocator>::construct(
                    get_alloc(),
                    new_mem + i,
                    std::move(*(m_p_begin + i))
                );
            }""", """            pointer dst = new_mem;
            for(pointer src = m_p_begin; src != m_p_end; ++src, ++dst)
            {
                std::allocator_traits<Allocator>::construct(get_alloc(), dst, std::move(*src));
                ++i;
            }""")
# destruction from the back
rep("""            for(pointer i = m_p_begin; i < m_p_end; ++i)
            {
                std::allocator_traits<Allocator>::destroy(
                    get_alloc(), i
                );
            }""", """            for(pointer i = m_p_end; i != m_p_begin;)
            {
                --i;
                std::allocator_traits<Allocator>::destroy(
                    get_alloc(), i
                );
            }""")
rep("""            while(this->size() != count)
                pop_back();""", """            for(size_type k = this->size() - count; k > 0; --k)
                pop_back();""")
rep("""            for(auto it = first; it != last; ++it)
            {
                emplace_back_impl(*it);
            }""", """            while(first != last)
            {
                emplace_back_impl(*first);
                ++first;
            }""")
rep("""        std::size_t i = 0;
        for(; i < std::min(tmp_size_1, tmp_size_2); ++i)
        {
            swap(*(m_p_begin + i), *(other.m_p_begin + i));
        }
""", """        const std::size_t i = std::min(tmp_size_1, tmp_size_2);
        for(std::size_t k = 0; k < i; ++k)
        {
            swap(m_p_begin[k], other.m_p_begin[k]);
        }
""")
rep("""        for(size_type i = 0; i < this->size(); ++i)
        {
            other.emplace_back_impl(
                std::move(*(m_p_begin + i))
            );
        }
        destroy_all();
""", """        for(pointer p = m_p_begin; p != m_p_end; ++p)
            other.emplace_back_impl(std::move(*p));
        destroy_all();
""")
rep("""        reserve(other.size());
        for(size_type i = 0; i < other.size(); ++i)
        {
            emplace_back_impl(other[i]);
        }""", """        const size_type n = other.size();
        reserve(n);
        for(const auto& e : other)
            emplace_back_impl(e);""")
rep("""        std::move_backward(move_src_begin, move_src_end, move_dst);
""", """        while(move_src_end != move_src_begin)
            *--move_dst = std::move(*--move_src_end);
""")
rep("""        using diff_t = std::iter_difference_t<Iterator>;

        diff_t count = std::distance(start, stop);

        while(count > 0)
        {
            const diff_t tmp_count = count / 2;
            const auto mid = std::next(start, tmp_count);
            if(pred(mid->first, k))
            {
                start = std::next(mid);
                count -= tmp_count + 1;
            }
            else
            {
                count = tmp_count;
            }
        }

        return start;""", """        while(start != stop)
        {
            const Iterator mid = start + (stop - start) / 2;
            if(!pred(mid->first, k))
                stop = mid;
            else
                start = mid + 1;
        }
        return start;""")
rep("""        return !c(lhs, rhs) && !c(rhs, lhs);""", """        if(c(rhs, lhs))
            return false;
        return !c(lhs, rhs);""")
rep("""        std::destroy_n(data(), size());
        m_size = 0;""", """        while(m_size != 0)
            pop_back();""")
rep("""            for(iterator it = end() - 2; it != pos; --it)
            {
                *it = std::move(*std::prev(it));
            }""", """            const iterator last = end() - 2;
            std::move_backward(const_cast<iterator>(pos), last, last + 1);""")
open(f, 'w').write(s)
