#include <papilio/papilio.hpp>
#include "rp.hpp"
using namespace papilio; using namespace rp;
using Ctx = basic_format_context<std::back_insert_iterator<std::string>, char>;
using PC = basic_format_parse_context<Ctx>;
template <typename F> bool ok(F f) { try { f(); return true; } catch(const format_error&) { return false; } catch(const std::out_of_range&) { return false; } }
int main(int argc, char** argv) {
    init(argc, argv);
    stage = "requests";
    for(int it = 0; it < 3000; ++it) {
        std::size_t n = rnd(5); int named = (int)rnd(2);
        dynamic_format_args st(0); st.clear();
        for(std::size_t i = 0; i < n; ++i) st.emplace(int(i * 11)); if(named) st.emplace("nm"_a = 7);
        PC c("", st); std::size_t next = 0; bool man = false; std::string log;
        for(int k = 0; k < 12; ++k) {
            CHECK(c.manual_indexing() == man, "manual_indexing"); std::size_t cur = 99; bool g = ok([&] { cur = c.current_arg_id(); }); CHECK(g == !man && (man || cur == next), "current_arg_id ", g, " ", cur);
            int op = (int)rnd(5); std::size_t i = rnd(6); log += cat(" ", op, ":", i); note(cat(n, " args;", log));
            switch(op) {
            case 0: case 1: { std::size_t v = 99; bool r = ok([&] { v = c.next_arg_id(); }); CHECK(r == !man, "next_arg_id accepted: ", r); if(r) { ++next; CHECK(v == next, "next_arg_id gives ", v); } break; }
            case 2: { if(k < 6 && rnd(3)) break; bool r = ok([&] { c.check_arg_id(i); }); man = true; CHECK(r == (i < n), "check_arg_id(", i, "): ", r); break; }
            case 3: { bool q = rnd(2); bool r = ok([&] { c.check_arg_id(q ? std::string_view("nm") : std::string_view("no")); }); CHECK(r == (q && named), "check_arg_id(name): ", r); break; }
            case 4: if(k > 6) { c.enable_manual_indexing(); man = true; } break;
            }
        }
    }
    stage = "fields";
    for(int it = 0; it < 3000; ++it) {
        std::string f, want; std::size_t next = 0; bool man = false, good = true; std::size_t n = 1 + rnd(14);
        dynamic_format_args st(0); st.clear(); for(std::size_t i = 0; i < n; ++i) st.emplace(int(i * 11 + 5));
        for(std::size_t k = 1 + rnd(6); k--;) {
            if(rnd(4)) { f += rnd(2) ? "{}" : "{:}"; if(man || next >= n) good = false; else if(good) want += std::to_string(next * 11 + 5); ++next; }
            else {
                std::string d; std::size_t v = 0; 
                switch(rnd(4)) {
                case 0: case 1: v = rnd(n + 1); d = std::string(rnd(3), '0') + std::to_string(v); break;
                case 2: { unsigned __int128 x = ((unsigned __int128)1 << 64) + rnd(n); while(x) { d.insert(d.begin(), char('0' + (int)(x % 10))); x /= 10; } v = n; break; }
                default: v = rnd(n); d = std::to_string(v); break; }
                f += "{" + d + "}"; man = true; if(v >= n) good = false; else if(good) want += std::to_string(v * 11 + 5);
            }
            f += "|"; if(good) want += "|";
        }
        note(cat("vformat(\"", f, "\") with ", n, " arguments"));
        std::string got; bool r = ok([&] { got = PAPILIO_NS vformat(f, st); });
        CHECK(r == good, "accepted: ", r); if(r) CHECK(got == want, "gives ", got, " instead of ", want);
    }
    return done();
}
