import sys,re
R=sys.argv[1]
def ed(f,*prs):
    p=R+'/include/papilio/'+f; s=open(p).read()
    for a,b in prs:
        assert s.count(a)>=1,(f,a); s=s.replace(a,b)
    open(p,'w').write(s)
ed('utf/stralgo.hpp',
("""    std::size_t ch_count = 0;
    for(std::size_t i = max_chars; i != 0; --i)
    {
        std::size_t off = i - 1;
        if(PAPILIO_NS utf::is_leading_byte(static_cast<std::uint8_t>(str[off])))
        {
            if(ch_count == idx)
                return off;
            ++ch_count;
        }
    }

    return npos;""","""    std::size_t off = max_chars;
    while(off > 0)
    {
        --off;
        const auto ch = static_cast<std::uint8_t>(str[off]);
        if(PAPILIO_NS utf::is_trailing_byte(ch))
            continue;
        if(idx == 0)
            return off;
        --idx;
    }

    return npos;"""),
("""    std::uint8_t len = 0;
    std::size_t ch_count = 0;
    for(std::size_t i = 0; i < max_chars; ++i)
    {
        if(len != 0)
        {
            --len;
            continue;
        }
        else if(ch_count == idx)
        {
            return i;
        }

        std::uint8_t ch = static_cast<std::uint8_t>(str[i]);
        if(PAPILIO_NS utf::is_trailing_byte(ch))
        {
            return npos;
        }

        len = PAPILIO_NS utf::byte_count(ch) - 1;
        ++ch_count;
    }

    return npos;""","""    std::size_t ch_count = 0;
    for(std::size_t i = 0; i < max_chars;)
    {
        if(ch_count == idx)
            return i;

        const std::uint8_t ch = static_cast<std::uint8_t>(str[i]);
        if(!PAPILIO_NS utf::is_leading_byte(ch))
            return npos;

        i += PAPILIO_NS utf::byte_count(ch);
        ++ch_count;
    }

    return npos;"""),
("""    if((leading_byte & 0b1000'0000) == 0)
        return 1;
    else if((leading_byte & 0b1110'0000) == 0b1100'0000)
        return 2;
    else if((leading_byte & 0b1111'0000) == 0b1110'0000)
        return 3;
    else if((leading_byte & 0b1111'1000) == 0b1111'0000)
        return 4;
""","""    if(leading_byte < 0x80)
        return 1;
    switch(leading_byte >> 4)
    {
    case 0xC:
    case 0xD:
        return 2;

    case 0xE:
        return 3;

    default:
        if(leading_byte < 0xF8)
            return 4;
        break;
    }
"""))
ed('utf/codepoint.hpp',
("""            size_type next_offset = m_offset + m_len;
            if(next_offset < m_str.size())
            {
                m_offset = next_offset;
                char8_t ch = static_cast<char8_t>(m_str[next_offset]);
                if(is_leading_byte(ch))
                    m_len = byte_count(ch);
                else
                    m_len = 1;
            }
            else
            {
                m_offset = m_str.size();
                m_len = 0;
            }""","""            m_offset = (std::min)(m_offset + m_len, m_str.size());
            m_len = 0;
            if(m_offset == m_str.size())
                return;

            const char8_t ch = static_cast<char8_t>(m_str[m_offset]);
            m_len = is_leading_byte(ch) ? byte_count(ch) : std::uint8_t(1);"""),
("""            --m_offset;
            size_type next_offset = m_offset;
            while(true)
            {
                char8_t ch = static_cast<char8_t>(m_str[next_offset]);

                if(m_offset - next_offset > 3) [[unlikely]]
                {
                    m_len = 1;
                    break;
                }
                else if(PAPILIO_NS utf::is_leading_byte(ch))
                {
                    m_offset = next_offset;
                    m_len = PAPILIO_NS utf::byte_count(ch);
                    break;
                }
                else if(next_offset == 0)
                {
                    m_len = 1;
                    break;
                }

                --next_offset;
            }""","""            --m_offset;
            m_len = 1;
            const size_type limit = m_offset < 3 ? m_offset : 3;
            for(size_type back = 0; back <= limit; ++back)
            {
                const char8_t ch = static_cast<char8_t>(m_str[m_offset - back]);
                if(!PAPILIO_NS utf::is_leading_byte(ch))
                    continue;

                m_offset -= back;
                m_len = PAPILIO_NS utf::byte_count(ch);
                break;
            }"""))
ed('utf/codepoint.inl',
("""        char32_t result = U'\\0';
        result |= bytes[0] & 0b0000'0111;
""","""        char32_t result = U'\\0';
        result |= bytes[0] & 0b0000'0111;
""") if False else ("""    // 2 bytes
    else if(0b1100'0000 <= bytes[0] && bytes[0] <= 0b1101'1111)
    {
        char32_t result = U'\\0';
        result |= bytes[0] & 0b0001'1111;
        result <<= 6;
        result |= bytes[1] & 0b0011'1111;

        return std::make_pair(result, std::uint8_t(2));
    }""","""    // 2 bytes
    else if((bytes[0] & 0b1110'0000) == 0b1100'0000)
    {
        const char32_t high = bytes[0] & 0b0001'1111;
        const char32_t low = bytes[1] & 0b0011'1111;
        return std::make_pair(static_cast<char32_t>(high * 64 + low), std::uint8_t(2));
    }"""),
("""    if(!PAPILIO_NS utf::is_high_surrogate(ch[0])) [[likely]]
    {
        char32_t result = ch[0];
        return std::make_pair(result, std::uint8_t(1));
    }
    else
    {
        if(ch.size() < 2) [[unlikely]]
            throw invalid_surrogate(ch[0]);
        else if(!PAPILIO_NS utf::is_low_surrogate(ch[1])) [[unlikely]]
            throw invalid_surrogate(ch[1]);

        std::uint32_t result =
            ((ch[0] - 0xD800u) << 10) +
            (ch[1] - 0xDC00u) +
            0x10000u;
        return std::make_pair(static_cast<char32_t>(result), std::uint8_t(2));
    }""","""    const char16_t first = ch[0];
    if(PAPILIO_NS utf::is_high_surrogate(first))
    {
        if(ch.size() < 2) [[unlikely]]
            throw invalid_surrogate(first);
        const char16_t second = ch[1];
        if(!PAPILIO_NS utf::is_low_surrogate(second)) [[unlikely]]
            throw invalid_surrogate(second);

        char32_t result = first & 0x3FFu;
        result = (result << 10) | (second & 0x3FFu);
        return std::make_pair(static_cast<char32_t>(result + 0x10000u), std::uint8_t(2));
    }

    return std::make_pair(static_cast<char32_t>(first), std::uint8_t(1));"""))
ed('memory.hpp',("""        reset(nullptr);
        if(ptr)
        {
            m_ptr = std::move(ptr);
            m_has_ownership = ownership;
        }""","""        reset();
        if(!ptr)
            return;
        m_has_ownership = ownership;
        m_ptr = ptr;"""),
("""        using std::swap;
        swap(m_ptr, other.m_ptr);
        swap(m_has_ownership, other.m_has_ownership);""","""        auto ptr = other.m_ptr;
        const bool own = other.m_has_ownership;
        other.m_ptr = m_ptr;
        other.m_has_ownership = m_has_ownership;
        m_ptr = ptr;
        m_has_ownership = own;"""))
ed('core.hpp',("""            while(start != stop)
            {
                char32_t ch = *start;
                if(!utf::is_digit(ch))
                    break;

                // An index that is too large stays too large instead of wrapping around
                constexpr std::size_t max_idx = static_cast<std::size_t>(-1);
                const std::size_t digit = static_cast<std::size_t>(ch - U'0');
                idx = idx > (max_idx - digit) / 10 ? max_idx : idx * 10 + digit;
                ++start;
            }
""","""            constexpr std::size_t max_idx = static_cast<std::size_t>(-1);
            for(; start != stop; ++start)
            {
                const char32_t ch = *start;
                if(ch < U'0' || ch > U'9')
                    break;

                // An index that is too large stays too large instead of wrapping around
                const std::size_t digit = static_cast<std::size_t>(ch - U'0');
                if(idx > (max_idx - digit) / 10)
                    idx = max_idx;
                else
                    idx = idx * 10 + digit;
            }
"""),
("""    void check_arg_id(size_type i) const
    {
        enable_manual_indexing();
        if(!get_args().contains(i))
            throw format_error("invalid arg id");
    }""","""    void check_arg_id(size_type i) const
    {
        m_manual_indexing = true;
        const bool known = get_args().contains(i);
        if(known)
            return;
        throw format_error("invalid arg id");
    }"""))
