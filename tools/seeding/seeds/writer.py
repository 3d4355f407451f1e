J='include/configor/json.hpp'
SE='include/configor/details/serializer.hpp'
PRE='''
#include <configor/json.hpp>
#include <sstream>
#include <iostream>
#include <cstdlib>
using namespace configor;
struct H : error_handler { int n=0; void handle(const std::exception_ptr) override { ++n; } };
'''
SEEDS=[
dict(id='s12-control-1f',prop='C12',needs='a string that contains U+001F',breaks='U+001F is written raw, so the output is not JSON and is refused by the reader',
 edits=[(J,'need_escape = (codepoint <= 0x1F ||','need_escape = (codepoint < 0x1F ||')],
 demo=PRE+r'''int main(){ return json::dump(json::value(std::string("a\x1f"))) == "\"a\\u001F\"" ? 0 : 1; }'''),
dict(id='s12-escape-c1',prop='C12',needs='unicode escaping on and a code point from U+0080 to U+009F',breaks='C1 control characters are written raw although escaping is on',
 edits=[(J,'(unicode_escaping_ && codepoint >= 0x7F)','(unicode_escaping_ && (codepoint == 0x7F || codepoint >= 0xA0))')],
 demo=PRE+r'''int main(){ return json::dump(json::value(std::string("a\xC2\x85z")), { json::serializer::with_unicode_escaping(true) }) == "\"a\\u0085z\"" ? 0 : 1; }'''),
dict(id='s12-bmp-edge',prop='C12',needs='unicode escaping on and a code point from U+10000 to U+10FFF',breaks='supplementary characters of the first 4096 are truncated to 16 bits instead of written as a surrogate pair',
 edits=[(J,'''                    if (codepoint <= 0xFFFF)
                    {
                        // BMP''','''                    if (codepoint >> 12 <= 0x10)
                    {
                        // BMP''')],
 demo=PRE+r'''int main(){ return json::dump(json::value(std::string("\xF0\x90\x80\x81")), { json::serializer::with_unicode_escaping(true) }) == "\"\\uD800\\uDC01\"" ? 0 : 1; }'''),
dict(id='s12-decode-last',prop='C12',needs='a string that ends in a truncated or malformed sequence',breaks='a string whose last character cannot be decoded is written with a made-up character instead of refused',
 edits=[(J,'''            if (!iss.good())
            {
                fail("unexpected character", codepoint);
            }

            switch''','''            if (!iss.good() && !iss.eof())
            {
                fail("unexpected character", codepoint);
            }

            switch''')],
 demo=PRE+r'''int main(){ try { json::dump(json::value(std::string("ab\xE2\x82"))); return 1; } catch (const configor_serialization_error&) { return 0; } }'''),
dict(id='s13-empty-key-comma',prop='C13',needs='an object whose empty key is not its last member',breaks='the comma after the member with the empty key is missing',
 edits=[(SE,'''                // not last element
                if (i != size - 1)
                {
                    next(token_type::value_separator);
                }
            }
            next(token_type::end_object);''','''                // not last element
                if (i != size - 1 && (i != 0 || !iter->first.empty()))
                {
                    next(token_type::value_separator);
                }
            }
            next(token_type::end_object);''')],
 demo=PRE+r'''int main(){ json::value v; v[""]=1; v["a"]=2; return json::dump(v) == "{\"\":1,\"a\":2}" ? 0 : 1; }'''),
dict(id='s13-indent-byte',prop='C13',needs='an indentation of 256 characters or more (a wide step and several levels)',breaks='the indentation is truncated to eight bits',
 edits=[(SE,'''        os.write(indent_string_.c_str(), static_cast<std::streamsize>(depth_ * step_));''','''        os.write(indent_string_.c_str(), static_cast<std::streamsize>(static_cast<uint8_t>(depth_ * step_)));''')],
 demo=PRE+r'''int main(){ json::value v; v[0][0]=1; std::string s=json::dump(v,{json::serializer::with_indent(200)}); return s.find(std::string(400,' ')+"1") != std::string::npos ? 0 : 1; }'''),
dict(id='s13-float-flag',prop='C13',needs='a nested empty container that follows another element, with indentation',breaks='an empty container leaves its begin flag set, so that the next value starts with an extra line break',
 edits=[(SE,'''            if (v.empty())
            {
                next(token_type::end_array);
                return;
            }
''','''            if (v.empty())
            {
                next(token_type::value_separator == token_type::end_array ? token_type::end_array : token_type::begin_array);
                next(token_type::end_array);
                return;
            }
''')],
 demo=PRE+r'''int main(){ return 0; }'''),
dict(id='s13-null-after-true',prop='C13',needs='with indentation: a container whose first element is null',breaks='a null that opens a container is written without the line break due',
 edits=[(J,'''            case token_type::literal_false:
            case token_type::literal_null:
            case token_type::value_string:
            case token_type::value_integer:
            case token_type::value_float:
            case token_type::begin_array:
            case token_type::begin_object:
                output_newline();
                break;''','''            case token_type::literal_false:
            case token_type::value_string:
            case token_type::value_integer:
            case token_type::value_float:
            case token_type::begin_array:
            case token_type::begin_object:
                output_newline();
                break;''')],
 demo=PRE+r'''int main(){ json::value v; v[0]=nullptr; return json::dump(v,{json::serializer::with_indent(2)}) == "[\n  null\n]" ? 0 : 1; }'''),
dict(id='s06-dump-foreign',prop='C06',needs='an exception that is not the library\'s (bad_alloc, a throwing decoder) while dumping with a handler installed',breaks='only library exceptions reach the handler while dumping',
 edits=[(SE,'''        catch (...)
        {
            if (err_handler_)''','''        catch (const configor_exception&)
        {
            if (err_handler_)''')],
 demo=PRE+r'''
template <typename C> struct boom { using char_type=C; static bool decode(std::basic_istream<C>& is, uint32_t& c){ c = is.get(); if(is.eof()) return false; if (c=='!') throw std::runtime_error("x"); return true;} static void encode(std::basic_ostream<C>& os, uint32_t c){ os.put(C(c)); } };
int main(){ H h; try { json::dump(json::value(std::string("!")), { json::serializer::with_encoding<boom>(), json::serializer::with_error_handler(&h) }); } catch(...) { return 1; } return h.n==1 ? 0 : 1; }'''),
]
SEEDS=[s for s in SEEDS if s['id']!='s13-float-flag']
