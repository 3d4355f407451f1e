// entry points: every codec of configor, for every character type it accepts
#include <configor/details/encoding.hpp>
using namespace configor::encoding;
#define CODEC(name, codec, C)                                                                        \
    extern "C" bool h_dec_##name(std::basic_istream<C>& is, uint32_t& cp) { return codec<C>::decode(is, cp); } \
    extern "C" void h_enc_##name(std::basic_ostream<C>& os, uint32_t cp) { codec<C>::encode(os, cp); }
CODEC(utf8_char, utf8, char)
CODEC(utf16_char16, utf16, char16_t)
CODEC(utf16_wchar, utf16, wchar_t)
CODEC(utf32_char32, utf32, char32_t)
CODEC(utf32_wchar, utf32, wchar_t)
CODEC(auto_char, auto_utf, char)
CODEC(auto_char16, auto_utf, char16_t)
CODEC(auto_char32, auto_utf, char32_t)
CODEC(auto_wchar, auto_utf, wchar_t)
CODEC(ignore_char, ignore, char)
