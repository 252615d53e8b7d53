#!/usr/bin/env python3
"""behaviour-preserving edits of the interpreter's main loop; argument: a scratch clone of /repo"""
import sys, os
p = os.path.join(sys.argv[1], 'include/papilio/core.hpp'); s = open(p).read()
a = s.index('    void run_once(interpreter_context& intp_ctx)\n'); b = s.index('    std::size_t run_n(interpreter_context')
s = s[:a] + '''    void close_field(interpreter_context& intp_ctx)
    {
        intp_ctx.advance_input_to(intp_ctx.parse_begin());
        if(intp_ctx.input_at_end()) [[unlikely]]
            my_base::throw_end_of_string();
        const char32_t last = intp_ctx.input_value();
        if(last == U'}') [[likely]]
        {
            intp_ctx.input_next();
            return;
        }
        my_base::throw_error(script_error_code::unenclosed_brace, intp_ctx.input());
    }

    char32_t following(interpreter_context& intp_ctx)
    {
        auto& it = intp_ctx.input();
        ++it;
        if(it == intp_ctx.parse_end()) [[unlikely]]
            my_base::throw_end_of_string();
        return *it;
    }

    void run_once(interpreter_context& intp_ctx)
    {
        PAPILIO_ASSERT(!intp_ctx.input_at_end());

        using context_t = format_context_traits<FormatContext>;
        auto& out = intp_ctx.output_context();

        switch(const char32_t ch = intp_ctx.input_value(); ch)
        {
        case U'}':
            if(following(intp_ctx) != U'}') [[unlikely]]
                my_base::throw_error(script_error_code::unenclosed_brace, intp_ctx.input());
            intp_ctx.input_next();
            context_t::append(out, U'}');
            return;

        case U'{':
            if(const char32_t nx = following(intp_ctx); nx == U'{')
            {
                intp_ctx.input_next();
                context_t::append(out, char_type('{'));
            }
            else
            {
                const bool script = nx == my_base::script_start;
                if(script)
                    intp_ctx.input_next();
                intp_ctx.update_input_context();
                if(script)
                    exec_script(intp_ctx.input_context(), out);
                else
                    exec_repl(intp_ctx.input_context(), out);
                close_field(intp_ctx);
            }
            return;

        default:
            context_t::append(out, ch);
            intp_ctx.input_next();
        }
    }

''' + s[b:]
s = s.replace('''        while(!intp_ctx.input_at_end())
        {
            run_once(intp_ctx);
        }
''', '''        for(;;)
        {
            if(intp_ctx.input_at_end())
                return;
            run_once(intp_ctx);
        }
''')
open(p, 'w').write(s)
