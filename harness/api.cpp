// Every public way to read and write a document, with every option.  The encodings, the error handler and the user's type are ports;
// nothing here is ever executed.
#include "value_layout.hpp"
#include <cstdio>
#include <istream>
#include <ostream>
#include <string>
using namespace configor;
extern "C" {
uint32_t ext_decode(int which, int size, uint32_t unit, const void* stream);
uint32_t ext_encode(int which, int size, uint32_t codepoint, const void* stream);
void ext_kind(int kind, long n);
void ext_string(const void* s);
void ext_int(long i);
void ext_user(const void* u);
}
#define E extern "C"
template <int N, class C> struct enc_base
{
    static bool decode(std::basic_istream<C>& is, uint32_t& codepoint)
    {
        const auto u = is.get();
        if (!is.good())
            return false;
        codepoint = ext_decode(N, sizeof(C), static_cast<uint32_t>(u), &is);
        return true;
    }
    static void encode(std::basic_ostream<C>& os, uint32_t codepoint)
    {
        os.put(static_cast<C>(ext_encode(N, sizeof(C), codepoint, &os)));
    }
};
template <class C> struct ext1 : enc_base<1, C> {};
template <class C> struct ext2 : enc_base<2, C> {};
E bool def_decode_c(std::istream& is, uint32_t& cp) { return enc_base<0, char>::decode(is, cp); }
E bool def_decode_w(std::wistream& is, uint32_t& cp) { return enc_base<0, wchar_t>::decode(is, cp); }
E void def_encode_c(std::ostream& os, uint32_t cp) { enc_base<0, char>::encode(os, cp); }
E void def_encode_w(std::wostream& os, uint32_t cp) { enc_base<0, wchar_t>::encode(os, cp); }

template <class V> void show(const V& v)
{
    ext_kind(static_cast<int>(v.type()), 0);
    switch (v.type())
    {
    case value_constant::array:
    {
        const auto& a = *v.data().vector;
        ext_kind(100, static_cast<long>(a.size()));
        for (std::size_t i = 0; i < a.size(); ++i)
            show(a[i]);
        break;
    }
    case value_constant::string:
    {
        const auto& s = *v.data().string;
        ext_kind(101, static_cast<long>(s.size()));
        ext_string(&s);
        break;
    }
    case value_constant::integer: ext_int(v.data().integer); break;
    default: break;
    }
}
// ---- reading: R(option set)
#define R_OPTS(R)                                                                                   \
    R(none, )                                                                                       \
    R(e1, P::template with_encoding<ext1>())                                                        \
    R(s1, P::template with_source_encoding<ext1>())                                                 \
    R(t1, P::template with_target_encoding<ext1>())                                                 \
    R(s1t2, P::template with_source_encoding<ext1>(), P::template with_target_encoding<ext2>())     \
    R(e1s2, P::template with_encoding<ext1>(), P::template with_source_encoding<ext2>())            \
    R(e1t2, P::template with_encoding<ext1>(), P::template with_target_encoding<ext2>())            \
    R(t2e1, P::template with_target_encoding<ext2>(), P::template with_encoding<ext1>())            \
    R(e1e2, P::template with_encoding<ext1>(), P::template with_encoding<ext2>())                   \
    R(h, P::with_error_handler(h))                                                                  \
    R(he1, P::with_error_handler(h), P::template with_encoding<ext1>())                             \
    R(e1h, P::template with_encoding<ext1>(), P::with_error_handler(h))                             \
    R(hn, P::with_error_handler(h), P::with_error_handler(nullptr))
template <class J, class C> struct in
{
    typedef typename J::value V;
    typedef detail::json_parser<V, C> P;
#define R(n, ...)                                                                                                                          \
    static void is_##n(std::basic_istream<C>& s, error_handler* h) { (void)h; V v; J::parse(v, s, { __VA_ARGS__ }); show(v); }              \
    static void isr_##n(std::basic_istream<C>& s, error_handler* h) { (void)h; V v = J::parse(s, { __VA_ARGS__ }); show(v); }               \
    static void str_##n(const std::basic_string<C>& s, error_handler* h) { (void)h; V v; J::template parse<C>(v, s, { __VA_ARGS__ }); show(v); }   \
    static void strr_##n(const std::basic_string<C>& s, error_handler* h) { (void)h; V v = J::template parse<C>(s, { __VA_ARGS__ }); show(v); }    \
    static void cstr_##n(const C* s, error_handler* h) { (void)h; V v; J::parse(v, s, { __VA_ARGS__ }); show(v); }                          \
    static void cstrr_##n(const C* s, error_handler* h) { (void)h; V v = J::parse(s, { __VA_ARGS__ }); show(v); }                           \
    static void file_##n(std::FILE* s, error_handler* h) { (void)h; V v; J::template parse<C>(v, s, { __VA_ARGS__ }); show(v); }            \
    static void filer_##n(std::FILE* s, error_handler* h) { (void)h; V v = J::template parse<C>(s, { __VA_ARGS__ }); show(v); }
    R_OPTS(R)
#undef R
    static void is_default(std::basic_istream<C>& s, error_handler*) { V v; J::parse(v, s); show(v); }
    static void isr_default(std::basic_istream<C>& s, error_handler*) { V v = J::parse(s); show(v); }
    static void str_default(const std::basic_string<C>& s, error_handler*) { V v; J::template parse<C>(v, s); show(v); }
    static void strr_default(const std::basic_string<C>& s, error_handler*) { V v = J::template parse<C>(s); show(v); }
    static void cstr_default(const C* s, error_handler*) { V v; J::parse(v, s); show(v); }
    static void cstrr_default(const C* s, error_handler*) { V v = J::parse(s); show(v); }
    static void file_default(std::FILE* s, error_handler*) { V v; J::template parse<C>(v, s); show(v); }
    static void filer_default(std::FILE* s, error_handler*) { V v = J::template parse<C>(s); show(v); }
    static void wrap_default(std::basic_istream<C>& s, error_handler*) { V v; s >> J::wrap(v); show(v); }
};
#define INST(j, x, C)                                                                        \
    E void run_in_##j##_##x(int o, int f, void* s, error_handler* h)                         \
    {                                                                                        \
        typedef in<j, C> I;                                                                  \
        std::basic_istream<C>& is = *static_cast<std::basic_istream<C>*>(s);                 \
        const std::basic_string<C>& str = *static_cast<const std::basic_string<C>*>(s);      \
        const C* cstr = static_cast<const C*>(s);                                            \
        std::FILE* file = static_cast<std::FILE*>(s);                                        \
        switch (f)                                                                           \
        {                                                                                    \
        case 0: ALL(is_, is) case 1: ALL(isr_, is) case 2: ALL(str_, str) case 3: ALL(strr_, str)   \
        case 4: ALL(cstr_, cstr) case 5: ALL(cstrr_, cstr) case 6: ALL(file_, file) case 7: ALL(filer_, file)   \
        case 8: I::wrap_default(is, h); return;                                              \
        }                                                                                    \
    }
#define ALL(p, s)                                                                                                          \
    switch (o)                                                                                                             \
    {                                                                                                                      \
    case 0: I::p##default(s, h); return;                                                                                   \
    case 1: I::p##none(s, h); return;                                                                                      \
    case 2: I::p##e1(s, h); return;                                                                                        \
    case 3: I::p##s1(s, h); return;                                                                                        \
    case 4: I::p##t1(s, h); return;                                                                                        \
    case 5: I::p##s1t2(s, h); return;                                                                                      \
    case 6: I::p##e1s2(s, h); return;                                                                                      \
    case 7: I::p##e1t2(s, h); return;                                                                                      \
    case 8: I::p##t2e1(s, h); return;                                                                                      \
    case 9: I::p##e1e2(s, h); return;                                                                                      \
    case 10: I::p##h(s, h); return;                                                                                        \
    case 11: I::p##he1(s, h); return;                                                                                      \
    case 12: I::p##e1h(s, h); return;                                                                                      \
    case 13: I::p##hn(s, h); return;                                                                                       \
    }                                                                                                                      \
    return;
INST(json, c, char)
INST(json, w, wchar_t)
INST(wjson, c, char)
INST(wjson, w, wchar_t)
#undef ALL
#undef INST

// ---- writing
#define W_OPTS(R)                                                                                   \
    R(none, )                                                                                       \
    R(e1, P::template with_encoding<ext1>())                                                        \
    R(s1, P::template with_source_encoding<ext1>())                                                 \
    R(t1, P::template with_target_encoding<ext1>())                                                 \
    R(s1t2, P::template with_source_encoding<ext1>(), P::template with_target_encoding<ext2>())     \
    R(e1s2, P::template with_encoding<ext1>(), P::template with_source_encoding<ext2>())            \
    R(e1t2, P::template with_encoding<ext1>(), P::template with_target_encoding<ext2>())            \
    R(t2e1, P::template with_target_encoding<ext2>(), P::template with_encoding<ext1>())            \
    R(e1e2, P::template with_encoding<ext1>(), P::template with_encoding<ext2>())                   \
    R(h, P::with_error_handler(h))                                                                  \
    R(he1, P::with_error_handler(h), P::template with_encoding<ext1>())                             \
    R(hn, P::with_error_handler(h), P::with_error_handler(nullptr))                                 \
    R(i2, P::with_indent(2))                                                                        \
    R(i3t, P::with_indent(3, static_cast<C>('\t')))                                                 \
    R(i0, P::with_indent(0))                                                                        \
    R(i2i0, P::with_indent(2), P::with_indent(0))                                                   \
    R(i3ti1, P::with_indent(3, static_cast<C>('\t')), P::with_indent(1))                            \
    R(u, P::with_unicode_escaping(true))                                                            \
    R(nu, P::with_unicode_escaping(false))                                                          \
    R(unu, P::with_unicode_escaping(true), P::with_unicode_escaping(false))                         \
    R(p3, P::with_precision(3))                                                                     \
    R(p3s, P::with_precision(3, std::ios_base::scientific))                                         \
    R(p3g, P::with_precision(3, std::ios_base::fmtflags(0)))                                        \
    R(p3x, P::with_precision(3, std::ios_base::fixed | std::ios_base::scientific))                  \
    R(p3p5, P::with_precision(3, std::ios_base::scientific), P::with_precision(5))                  \
    R(many, P::with_indent(1), P::with_unicode_escaping(true), P::with_precision(3), P::template with_encoding<ext1>(), P::with_error_handler(h))
template <class J, class C> struct out
{
    typedef typename J::value V;
    typedef detail::json_serializer<V, C> P;
    typedef std::basic_string<C> S;
#define R(n, ...)                                                                                                                              \
    static void os_##n(std::basic_ostream<C>& s, S&, const V& v, error_handler* h) { (void)h; J::dump(s, v, { __VA_ARGS__ }); }                \
    static void str_##n(std::basic_ostream<C>&, S& s, const V& v, error_handler* h) { (void)h; J::template dump<C>(s, v, { __VA_ARGS__ }); }   \
    static void ret_##n(std::basic_ostream<C>&, S& s, const V& v, error_handler* h) { (void)h; new (&s) S(J::template dump<C>(v, { __VA_ARGS__ })); }
    W_OPTS(R)
#undef R
    static void os_default(std::basic_ostream<C>& s, S&, const V& v, error_handler*) { J::dump(s, v); }
    static void str_default(std::basic_ostream<C>&, S& s, const V& v, error_handler*) { J::template dump<C>(s, v); }
    static void ret_default(std::basic_ostream<C>&, S& s, const V& v, error_handler*) { new (&s) S(J::template dump<C>(v)); }
    static void wrap_default(std::basic_ostream<C>& s, S&, const V& v, error_handler*) { s << J::wrap(const_cast<V&>(v)); }
    static void cwrap_default(std::basic_ostream<C>& s, S&, const V& v, error_handler*) { s << J::wrap(v); }
};
#define ALL(p)                                                                                                             \
    switch (o)                                                                                                             \
    {                                                                                                                      \
    case 0: O::p##default(os, s, v, h); return;                                                                               \
    case 1: O::p##none(os, s, v, h); return;                                                                                  \
    case 2: O::p##e1(os, s, v, h); return;                                                                                    \
    case 3: O::p##s1(os, s, v, h); return;                                                                                    \
    case 4: O::p##t1(os, s, v, h); return;                                                                                    \
    case 5: O::p##s1t2(os, s, v, h); return;                                                                                  \
    case 6: O::p##e1s2(os, s, v, h); return;                                                                                  \
    case 7: O::p##e1t2(os, s, v, h); return;                                                                                  \
    case 8: O::p##t2e1(os, s, v, h); return;                                                                                  \
    case 9: O::p##e1e2(os, s, v, h); return;                                                                                  \
    case 10: O::p##h(os, s, v, h); return;                                                                                    \
    case 11: O::p##he1(os, s, v, h); return;                                                                                  \
    case 12: O::p##hn(os, s, v, h); return;                                                                                   \
    case 13: O::p##i2(os, s, v, h); return;                                                                                   \
    case 14: O::p##i3t(os, s, v, h); return;                                                                                  \
    case 15: O::p##i0(os, s, v, h); return;                                                                                   \
    case 16: O::p##i2i0(os, s, v, h); return;                                                                                 \
    case 17: O::p##i3ti1(os, s, v, h); return;                                                                                \
    case 18: O::p##u(os, s, v, h); return;                                                                                    \
    case 19: O::p##nu(os, s, v, h); return;                                                                                   \
    case 20: O::p##unu(os, s, v, h); return;                                                                                  \
    case 21: O::p##p3(os, s, v, h); return;                                                                                   \
    case 22: O::p##p3s(os, s, v, h); return;                                                                                  \
    case 23: O::p##p3g(os, s, v, h); return;                                                                                  \
    case 24: O::p##p3x(os, s, v, h); return;                                                                                  \
    case 25: O::p##p3p5(os, s, v, h); return;                                                                                 \
    case 26: O::p##many(os, s, v, h); return;                                                                                 \
    }                                                                                                                      \
    return;
#define INST(j, x, C)                                                                                      \
    E void run_out_##j##_##x(int o, int f, std::basic_ostream<C>& os, std::basic_string<C>& s, const j::value& v, error_handler* h)   \
    {                                                                                                      \
        typedef out<j, C> O;                                                                               \
        switch (f)                                                                                         \
        {                                                                                                  \
        case 0: ALL(os_) case 1: ALL(str_) case 2: ALL(ret_)                                               \
        case 3: O::wrap_default(os, s, v, h); return;                                                         \
        case 4: O::cwrap_default(os, s, v, h); return;                                                        \
        }                                                                                                  \
    }
INST(json, c, char)
INST(json, w, wchar_t)
INST(wjson, c, char)
INST(wjson, w, wchar_t)
E void mk_string_c(std::string* s) { new (s) std::string; }
E void mk_string_w(std::wstring* s) { new (s) std::wstring; }

// ---- wrapped objects
struct User { long a; };
E void ext_to(void* v, long a);
E long ext_from(const void* v);
template <class Args> void to_value(basic_value<Args>& v, const User& u) { v = u.a; ext_user(&u); }
template <class Args> void from_value(const basic_value<Args>& v, User& u) { show(v); u.a = ext_from(&v); }
E void user_in_c(std::istream& s, User& u) { s >> json::wrap(u); }
E void user_in_w(std::wistream& s, User& u) { s >> wjson::wrap(u); }
E void user_in_cw(std::wistream& s, User& u) { s >> json::wrap(u); }
E void user_out_c(std::ostream& s, User& u) { s << json::wrap(u); }
E void user_outc_c(std::ostream& s, const User& u) { s << json::wrap(u); }
E void user_out_w(std::wostream& s, User& u) { s << wjson::wrap(u); }
E void user_out_cw(std::wostream& s, const User& u) { s << json::wrap(u); }
E void val_in_c(std::istream& s, json::value& u) { s >> json::wrap(u); }
E void val_in_w(std::wistream& s, wjson::value& u) { s >> wjson::wrap(u); }
E void val_show_c(json::value& u) { show(u); }
E void val_show_w(wjson::value& u) { show(u); }
E json::value* val_new_c(json::value* p, long i) { return new (p) json::value(i); }
E wjson::value* val_new_w(wjson::value* p, long i) { return new (p) wjson::value(i); }
E int kind_of(int i)
{
    switch (i)
    {
    case 0: return static_cast<int>(value_constant::null);
    case 1: return static_cast<int>(value_constant::integer);
    case 2: return static_cast<int>(value_constant::floating);
    case 3: return static_cast<int>(value_constant::string);
    case 4: return static_cast<int>(value_constant::array);
    case 5: return static_cast<int>(value_constant::object);
    case 6: return static_cast<int>(value_constant::boolean);
    }
    return -1;
}
E unsigned long szs_c() { return sizeof(std::string); }
E unsigned long szs_v() { return sizeof(json::value); }
E unsigned long szs_w() { return sizeof(wjson::value); }
