// The stream buffers and adapter streams behind the parse and dump overloads, driven through the public stream buffer interface.
#include <configor/json.hpp>
#include <cstdio>
#include <string>
using namespace configor;
template <class C> struct IA : basic_iadapter<C> { C read() override; };
template <class C> struct OA : basic_oadapter<C> { void write(const C c) override; };
extern "C" {
char ext_read(void*);
wchar_t ext_wread(void*);
void ext_write(void*, char);
void ext_wwrite(void*, wchar_t);
}
template <> char IA<char>::read() { return ext_read(this); }
template <> wchar_t IA<wchar_t>::read() { return ext_wread(this); }
template <> void OA<char>::write(const char c) { ext_write(this, c); }
template <> void OA<wchar_t>::write(const wchar_t c) { ext_wwrite(this, c); }
#define E extern "C"
#define CHARS(C, x)                                                                                             \
    typedef detail::fast_string_istreambuf<C> sin_##x;                                                          \
    typedef detail::fast_buffer_istreambuf<C> bin_##x;                                                          \
    typedef detail::fast_cfile_istreambuf<C> fin_##x;                                                           \
    typedef detail::fast_string_ostreambuf<C> sout_##x;                                                         \
    typedef basic_iadapterstream<C> ain_##x;                                                                    \
    typedef basic_oadapterstream<C> aout_##x;                                                                   \
    typedef detail::fast_basic_ostringstream<C> ostr_##x;                                                       \
    E std::basic_streambuf<C>* make_sin_##x(void* p, const std::basic_string<C>& s) { return new (p) sin_##x(s); } \
    E std::basic_streambuf<C>* make_bin_##x(void* p, const C* s) { return new (p) bin_##x(s); }                 \
    E std::basic_streambuf<C>* make_fin_##x(void* p, std::FILE* f) { return new (p) fin_##x(f); }               \
    E std::basic_streambuf<C>* make_sout_##x(void* p, std::basic_string<C>& s) { return new (p) sout_##x(s); }  \
    E std::basic_streambuf<C>* make_ain_##x(void* p, IA<C>* a) { new (a) IA<C>(); return (new (p) ain_##x(*a))->rdbuf(); }      \
    E std::basic_streambuf<C>* make_aout_##x(void* p, OA<C>* a) { new (a) OA<C>(); return (new (p) aout_##x(*a))->rdbuf(); }    \
    E std::basic_streambuf<C>* make_ostr_##x(void* p) { return (new (p) ostr_##x())->rdbuf(); }                 \
    E const std::basic_string<C>* str_ostr_##x(ostr_##x& o) { return &o.str(); }                                \
    E int peek_##x(std::basic_streambuf<C>& b) { return b.sgetc(); }                                            \
    E int bump_##x(std::basic_streambuf<C>& b) { return b.sbumpc(); }                                           \
    E int next_##x(std::basic_streambuf<C>& b) { return b.snextc(); }                                           \
    E long block_##x(std::basic_streambuf<C>& b, C* d, long n) { return b.sgetn(d, n); }                        \
    E int unget_##x(std::basic_streambuf<C>& b) { return b.sungetc(); }                                         \
    E int put_##x(std::basic_streambuf<C>& b, C c) { return b.sputc(c); }                                       \
    E long puts_##x(std::basic_streambuf<C>& b, const C* s, long n) { return b.sputn(s, n); }
CHARS(char, c)
CHARS(wchar_t, w)
