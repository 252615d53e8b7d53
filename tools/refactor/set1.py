import sys,re
R=sys.argv[1]
def ed(f,*prs):
    p=R+'/include/papilio/'+f; s=open(p).read()
    for a,b in prs:
        assert s.count(a)>=1,(f,a); s=s.replace(a,b)
    open(p,'w').write(s)
ed('utf/string.hpp',
("""        auto start = cbegin();
        for(size_type i = 0; i < pos; ++i)
        {
            if(start == sentinel)
            {
                // out of range
                if constexpr(OnOutOfRange == substr_behavior::exception)
                    this->throw_out_of_range();
                else
                    return std::make_pair(Derived(), 0);
            }

            ++start;
        }

        size_type n = 0;
        auto stop = start;
        for(size_type i = 0; i < count; ++i)
        {
            if(stop == sentinel) break;
            ++n;
            ++stop;
        }
""","""        auto start = cbegin();
        while(pos != 0)
        {
            if(start == sentinel)
            {
                // out of range
                if constexpr(OnOutOfRange == substr_behavior::exception)
                    this->throw_out_of_range();
                else
                    return std::make_pair(Derived(), 0);
            }

            --pos;
            ++start;
        }

        size_type n = 0;
        auto stop = start;
        while(n < count && stop != sentinel)
        {
            ++stop;
            ++n;
        }
"""),
("""        for(size_type i = 0; i < n; ++i)
        {
            if(it == sentinel)
                break;
            ++it;
        }

        set_view(it, sentinel);""","""        while(n > 0 && it != sentinel)
        {
            ++it;
            --n;
        }

        set_view(it, sentinel);"""),
("""        for(size_type i = 0; i < n; ++i)
        {
            if(it == sentinel)
                break;
            ++it;
        }

        set_view(sentinel.base(), it.base());""","""        for(; n != 0 && it != sentinel; --n)
            ++it;

        set_view(sentinel.base(), it.base());"""),
("""        while(true)
        {
            if(i == this->cend())
                return j == other.cend() ? 0 : -1;
            if(j == other.cend())
                return 1; // obviously, i != cend()

            auto order = *i <=> *j;
            if(order == std::strong_ordering::less) return -1;
            if(order == std::strong_ordering::greater) return 1;

            ++i;
            ++j;
        }""","""        const auto i_end = this->cend();
        const auto j_end = other.cend();

        for(; i != i_end && j != j_end; ++i, ++j)
        {
            const codepoint a = *i;
            const codepoint b = *j;
            if(a == b)
                continue;
            return a < b ? -1 : 1;
        }

        if(j != j_end)
            return -1;
        return i == i_end ? 0 : 1;"""),
("""        for(size_type n = 0; n < pos; ++n)
        {
            if(it == sentinel)
                return sentinel;
            ++it;
        }

        for(; it != this->cend(); ++it)
        {
            if(basic_string_ref(it, sentinel).starts_with(v))
                break;
        }

        return it;""","""        while(pos-- > 0)
        {
            if(it == sentinel)
                return it;
            ++it;
        }

        const auto matches = [&](const_iterator at)
        {
            return basic_string_ref(at, sentinel).starts_with(v);
        };

        while(it != sentinel && !matches(it))
            ++it;

        return it;"""))
ed('utf/stralgo.hpp',
("""    for(std::size_t i = 0; i < max_chars; ++i)
    {
        if(str[i] == CharT(0))
            return i;
    }

    return max_chars;""","""    const CharT* p = str;
    std::size_t left = max_chars;
    while(left != 0 && *p != CharT(0))
    {
        ++p;
        --left;
    }

    return static_cast<std::size_t>(p - str);"""),
("""    for(; i < str.size();)
    {
        if(bytes != 0)
        {
            --bytes;
            ++i;
            continue;
        }
""","""    const std::size_t stop = str.size();
    while(i != stop)
    {
        if(bytes > 0)
        {
            ++i;
            --bytes;
            continue;
        }
"""),
("""    for(std::size_t i = 0; i < str.size(); ++i)
    {
        if(!PAPILIO_NS utf::is_low_surrogate(str[i]))
            ++result;
    }
""","""    for(const CharT ch : str)
        result += PAPILIO_NS utf::is_low_surrogate(static_cast<std::uint16_t>(ch)) ? 0 : 1;
"""))
ed('core.hpp',
("""            do
            {
                const T digit = std::abs(val % static_cast<T>(base));
                buf[buf_size++] = static_cast<CharT>(digits[digit]);
                val /= static_cast<T>(base);
            } while(val);""","""            const T divisor = static_cast<T>(base);
            for(bool more = true; more; more = val != 0)
            {
                T digit = static_cast<T>(val % divisor);
                if(digit < 0)
                    digit = static_cast<T>(-digit);
                val = static_cast<T>(val / divisor);
                buf[buf_size] = static_cast<CharT>(digits[digit]);
                ++buf_size;
            }"""),
("""        auto [left, right] = data().fill_zero ?
                                 std::make_pair<std::size_t, std::size_t>(0, 0) :
                                 fill_size(used);
""","""        std::pair<std::size_t, std::size_t> pad(0, 0);
        if(!data().fill_zero)
            pad = fill_size(used);
        const auto [left, right] = pad;
"""),
("""            for(auto it = str.begin(); it != str.end(); ++it)
            {
                std::size_t w = utf::codepoint(*it).estimate_width();
                if(used + w > data().precision)
                {
                    str.assign(str.begin(), it);
                    break;
                }
                used += w;
            }""","""            const std::size_t limit = data().precision;
            auto it = str.begin();
            const auto last = str.end();
            while(it != last)
            {
                const utf::codepoint cp = *it;
                const std::size_t next = used + cp.estimate_width();
                if(next > limit)
                    break;
                used = next;
                ++it;
            }
            if(it != last)
                str.assign(str.begin(), it);"""),
("""        if(m_data.width <= used)
            return std::make_pair(0, 0);

        std::size_t remain = m_data.width - used;""","""        const std::size_t remain = m_data.width > used ? m_data.width - used : 0;
        if(remain == 0)
            return {0, 0};
"""),
("""        for(char_type ch : str)
        {
            if(has_esc_seq<true, false>(static_cast<std::uint32_t>(ch)))
            {
                append_as_esc_seq<true, false>(ctx, static_cast<std::uint32_t>(ch));
            }
            else
            {
                append(ctx, ch, 1);
            }
        }""","""        for(std::size_t i = 0; i != str.size(); ++i)
        {
            const char_type ch = str[i];
            const auto val = static_cast<std::uint32_t>(ch);
            if(!has_esc_seq<true, false>(val))
            {
                append(ctx, ch, 1);
                continue;
            }

            append_as_esc_seq<true, false>(ctx, val);
        }"""))
ed('accessor/ranges.hpp',
("""        if(i < 0)
        {
            i = stdr::ssize(rng) + i;
            if(i < 0) [[unlikely]]
                return format_arg_type();
        }

        if(i >= stdr::ssize(rng))
            return format_arg_type();
""","""        const auto sz = stdr::ssize(rng);
        if(i < 0)
            i += sz;
        if(i < 0 || i >= sz)
            return format_arg_type();
"""))
