#include <papilio/papilio.hpp>
#include "rp.hpp"
using namespace papilio; using namespace rp;
template <typename C> using Str = std::basic_string<C>;
template <typename C> using Ctx = basic_format_context<std::back_insert_iterator<Str<C>>, C>;
template <typename C> Str<C> encc(char32_t c) { Str<C> r; if constexpr(sizeof(C) == 1) { for(auto u : enc8(c)) r += (C)u; } else if constexpr(sizeof(C) == 2) { for(auto u : enc16(c)) r += (C)u; } else r += (C)c; return r; }
template <typename C> Str<C> asc(const char* s) { Str<C> r; while(*s) r += (C)*s++; return r; }
template <typename C> std::string show(const Str<C>& s) { std::string r; for(C c : s) { char b[16]; std::snprintf(b, 16, "%x ", (unsigned)c & (sizeof(C) == 1 ? 0xFF : ~0u)); r += b; } return r; }
char32_t lit() { static const char32_t sp[] = {0, 9, 10, 32, '$', ':', '0', '\'', '[', ']', 'z' + 2 + 2, 127, 128, 0xE9, 0xFF, 0x100, 0x7B00, 0x7D7D, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x1007B, 0x10FFFF, 0xD7FF, 0xE000};
    for(;;) { char32_t c = rnd(2) ? sp[rnd(26)] : rnd(3) ? (char32_t)rnd(0x80) : (char32_t)rnd(0x110000); if(is_scalar(c) && c != '{' && c != '}') return c; } }
template <typename C> void go(const char* name) {
    stage = name; Str<C> f, w; bool bad = false; int fields = (int)rnd(2); std::size_t n = rnd(9);
    for(std::size_t k = 0; k < n && !bad; ++k) switch(rnd(fields ? 9 : 6)) {
        case 0: f += asc<C>("{{"); w += (C)'{'; break;
        case 1: f += asc<C>("}}"); w += (C)'}'; break;
        case 2: if(!rnd(4)) { f += (C)'}'; f += encc<C>(lit()); bad = true; } break;
        case 6: f += asc<C>("{0}"); w += (C)'7'; break;
        case 7: f += asc<C>("{$ {0} ? 'a' : 'b'}"); w += (C)'a'; break;
        case 8: if(!rnd(4)) { f += asc<C>("{$ {0} ? 'a' z"); if(rnd(2)) f += asc<C>("z}}"); else if(rnd(2)) f += (C)'}'; bad = true; } break;
        default: { auto e = encc<C>(lit()); f += e; w += e; }
    }
    if(!bad && !rnd(5)) { bad = true; f += rnd(2) ? asc<C>("}") : rnd(2) ? asc<C>("{") : rnd(2) ? asc<C>("{0") : asc<C>("{$ {0} ? 'a'"); }
    note(show(f)); std::unique_ptr<C[]> p(new C[f.size()]); std::copy(f.begin(), f.end(), p.get());       // nothing behind the end is readable
    Str<C> o; bool thrown = false; basic_dynamic_format_args<Ctx<C>> a; if(rnd(20)) a.emplace(7); else if(!f.empty() && f.find((C)'0') != f.npos) a.emplace(7);
    try {
        basic_format_args_ref<Ctx<C>> r(a); detail::vformat_to_impl<C, std::back_insert_iterator<Str<C>>, Ctx<C>>(std::back_inserter(o), nullptr, std::basic_string_view<C>(p.get(), f.size()), r);
    } catch(const format_error&) { thrown = true; }
    CHECK(thrown == bad, "exception: ", thrown); if(!bad) CHECK(o == w, "wanted ", show(w), "got ", show(o)); else CHECK(w.compare(0, std::min(w.size(), o.size()), o, 0, std::min(w.size(), o.size())) == 0, "text before the error: ", show(o));
}
int main(int argc, char** argv) {
    init(argc, argv);
    do for(int i = 0; i < 200; ++i) { go<char>("char"); go<char8_t>("char8_t"); go<char16_t>("char16_t"); go<char32_t>("char32_t"); go<wchar_t>("wchar_t"); } while(more());
    return done();
}
