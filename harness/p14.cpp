#include <papilio/core.hpp>
#include "vc.hpp"
#include "src/core.cpp"
#include "src/utf/codepoint.cpp"
using namespace papilio;
extern "C" {
std::size_t vc_nargs(); bool vc_hasname(const char* p, std::size_t n);
void vc_ev(int k, std::size_t v);
const void* vc_none();                       // an argument that holds nothing
}
using Ctx = basic_format_context<vc_iter<char>, char>;
struct Args : format_args_base<Ctx, char> {
    using base = format_args_base<Ctx, char>;
    const format_arg_type& get(size_type i) const override { vc_ev(10, i); return *static_cast<const format_arg_type*>(vc_none()); }
    const format_arg_type& get(string_view_type k) const override { vc_ev(11, k.size()); return *static_cast<const format_arg_type*>(vc_none()); }
    using base::get;
    bool contains(string_view_type k) const noexcept override { return vc_hasname(k.data(), k.size()); }
    using base::contains;
    size_type indexed_size() const noexcept override { return vc_nargs(); }
    size_type named_size() const noexcept override { return 0; }
};
using PC = basic_format_parse_context<Ctx>;
struct fix { Args a; PC c; fix(const char* p, std::size_t n) : c(utf::string_ref(p, n), a) {} };
template <typename F> bool ok(F f) { try { f(); return true; } catch(const format_error&) { return false; } }
// from every state with automatic numbering: k indices have been handed out
#define AUTO(f, k) for(std::size_t i = 0; i < k; ++i) f.c.next_arg_id();
extern "C" {
void h_auto(std::size_t k) { fix f("", 0); AUTO(f, k) vc_ev(0, f.c.current_arg_id()); vc_ev(1, f.c.manual_indexing()); vc_ev(2, f.c.next_arg_id()); vc_ev(3, f.c.current_arg_id()); vc_ev(4, f.c.manual_indexing()); }
void h_manual(std::size_t k, std::size_t i) {
    fix f("", 0); AUTO(f, k)
    vc_ev(0, ok([&] { f.c.check_arg_id(i); })); vc_ev(1, f.c.manual_indexing());
    vc_ev(2, ok([&] { (void)f.c.current_arg_id(); })); vc_ev(3, ok([&] { f.c.next_arg_id(); })); vc_ev(4, f.c.manual_indexing());
    vc_ev(5, ok([&] { f.c.check_arg_id(i); }));
}
void h_enable(std::size_t k, std::size_t i) {
    fix f("", 0); AUTO(f, k)
    f.c.enable_manual_indexing(); vc_ev(1, f.c.manual_indexing());
    vc_ev(2, ok([&] { (void)f.c.current_arg_id(); })); vc_ev(3, ok([&] { f.c.next_arg_id(); })); vc_ev(4, f.c.manual_indexing());
    vc_ev(5, ok([&] { f.c.check_arg_id(i); }));
}
void h_name(std::size_t k, const char* p, std::size_t n) {
    fix f("", 0); AUTO(f, k)
    vc_ev(0, ok([&] { f.c.check_arg_id(std::string_view(p, n)); })); vc_ev(1, f.c.manual_indexing()); vc_ev(2, f.c.current_arg_id()); vc_ev(3, f.c.next_arg_id());
}
// through the interpreter: an empty field takes the next automatic index
void h_field(std::size_t k, bool manual, const char* p, std::size_t n) {
    fix f(p, n); AUTO(f, k) if(manual) f.c.enable_manual_indexing();
    bool r = ok([&] { auto x = basic_interpreter<Ctx>::access(f.c); vc_ev(1, x.second.base() - p); }); vc_ev(0, r); 
    vc_ev(2, f.c.manual_indexing()); if(!f.c.manual_indexing()) vc_ev(3, f.c.current_arg_id());
}
}
