J='include/configor/json.hpp'
PA='include/configor/details/parser.hpp'
PRE='''
#include <configor/json.hpp>
#include <sstream>
#include <iostream>
#include <cstdlib>
using namespace configor;
static bool refused(const std::string& s){ try { json::value v = json::parse(s); return false; } catch(const configor_deserialization_error&) { return true; } catch(...) { return false; } }
struct H : error_handler { int n=0; void handle(const std::exception_ptr) override { ++n; } };
'''
SEEDS=[
dict(id='s05-hex-range',prop='C05',also=['C09'],needs='a \\u escape whose hex digit is a letter just after F',breaks='the escape \\u00Gx is accepted with a made-up code point',
 edits=[(J,"else if (ch >= 'A' && ch <= 'F')","else if (ch >= 'A' && ch <= 'G')")],
 demo=PRE+r'''int main(){ return refused("\"\\u00G1\"") && !refused("\"\\u00F1\"") ? 0 : 1; }'''),
dict(id='s05-encode-silent',prop='C05',also=['C09'],needs='a string with a code point the target encoding cannot represent (wide source, narrow target encoder that fails)',breaks='a string whose encoding failed is stored as if it were complete',
 edits=[(J,'''                this->target_encoder_(oss, current_);
                if (!oss.good())
                {
                    fail("encoding failed with codepoint", current_);
                }''','''                this->target_encoder_(oss, current_);
                if (oss.bad())
                {
                    fail("encoding failed with codepoint", current_);
                }''')],
 demo=PRE+r'''
template <typename C> struct ascii { using char_type=C; static bool decode(std::basic_istream<C>& is, uint32_t& c){ return encoding::utf8<C>::decode(is,c);} static void encode(std::basic_ostream<C>& os, uint32_t c){ if(c<0x80) os.put(C(c)); else os.setstate(std::ios_base::failbit);} };
int main(){ try { json::value v = json::parse(std::string("\"a\xC3\xA9\""), { json::parser::with_source_encoding<encoding::utf8>(), json::parser::with_target_encoding<ascii>() }); return 1; } catch(const configor_deserialization_error&) { return 0; } }'''),
dict(id='s05-eof-decode',prop='C05',also=['C07'],needs='a document whose last code point is followed by a truncated or malformed sequence at the end of the text',breaks='a decoding error in the last character of the text is not reported',
 edits=[(J,'''        if (this->source_decoder_(this->is_, current_))
        {
            if (!this->is_.good())
            {
                fail("decoding failed with codepoint", current_);
            }
        }''','''        if (this->source_decoder_(this->is_, current_) && !this->is_.eof())
        {
            if (!this->is_.good())
            {
                fail("decoding failed with codepoint", current_);
            }
        }''')],
 demo=PRE+r'''int main(){ return refused("12 \xE2\x82") && !refused("12 ") ? 0 : 1; }'''),
dict(id='s06-handler-rethrow',prop='C06',needs='a decoding failure (or any non-library exception) with an installed handler',breaks='only library exceptions reach the handler; others (bad_alloc, a throwing decoder) escape',
 edits=[(PA,'''        catch (...)
        {
            if (err_handler_)
                err_handler_->handle(std::current_exception());
            else
                throw;
        }''','''        catch (const configor_exception&)
        {
            if (err_handler_)
                err_handler_->handle(std::current_exception());
            else
                throw;
        }''')],
 demo=PRE+r'''
template <typename C> struct boom { using char_type=C; static bool decode(std::basic_istream<C>& is, uint32_t& c){ c = is.get(); if(is.eof()) return false; if (c=='!') throw std::runtime_error("x"); return true;} static void encode(std::basic_ostream<C>& os, uint32_t c){ os.put(C(c)); } };
int main(){ H h; try { json::value v = json::parse(std::string("[!]"), { json::parser::with_source_encoding<boom>(), json::parser::with_error_handler(&h) }); } catch(...) { return 1; } return h.n==1 ? 0 : 1; }'''),
dict(id='s06-trailing-outside',prop='C06',needs='trailing text after a complete document, with an installed handler',breaks='the error for trailing text bypasses the handler',
 edits=[(PA,'''            do_parse(c, token_type::uninitialized);
            if (scan() != token_type::end_of_input)
                fail(token_type::end_of_input);
        }
        catch (...)
        {
            if (err_handler_)
                err_handler_->handle(std::current_exception());
            else
                throw;
        }''','''            do_parse(c, token_type::uninitialized);
        }
        catch (...)
        {
            if (err_handler_)
                err_handler_->handle(std::current_exception());
            else
                throw;
            return;
        }
        if (scan() != token_type::end_of_input)
            fail(token_type::end_of_input);''')],
 demo=PRE+r'''int main(){ H h; try { json::value v = json::parse(std::string("1 2"), { json::parser::with_error_handler(&h) }); } catch(...) { return 1; } return h.n==1 ? 0 : 1; }'''),
dict(id='s07-mismatch-close',prop='C07',needs='an array closed by the wrong kind of bracket, after at least one element',breaks='[1} is accepted as an array',
 edits=[(PA,'''            if (token != token_type::end_array)
                fail(token, token_type::end_array);''','''            if (token != token_type::end_array && (token != token_type::end_object || c.data().vector->empty()))
                fail(token, token_type::end_array);''')],
 demo=PRE+r'''int main(){ return refused("[1}") && refused("[1,2}") && !refused("[1]") ? 0 : 1; }'''),
dict(id='s07-key-reuse',prop='C07',needs='an object with two members where the first key is not empty',breaks='each key starts with the text of the keys before it in the same object',
 edits=[(PA,'''            c = value_constant::object;
            while (true)
            {
                token = scan();
                if (token != token_type::value_string)
                    break;

                string_type key{};
                get_string(key);
''','''            c = value_constant::object;
            for (string_type key{};; )
            {
                token = scan();
                if (token != token_type::value_string)
                    break;

                if (c.data().object->size() < 16)
                    key.clear();
                get_string(key);
''')],
 demo=PRE+r'''int main(){ std::string s="{"; for(int i=0;i<20;++i){ if(i) s+=","; s+="\"k"+std::to_string(i)+"\":"+std::to_string(i);} s+="}"; json::value v=json::parse(s); if(v.size()!=20) return 1; for(int i=0;i<20;++i) if(v.count("k"+std::to_string(i))!=1) return 1; return 0; }'''),
dict(id='s07-null-element',prop='C07',needs='an array element that is null after another element',breaks='null elements that follow another null are dropped',
 edits=[(PA,'''                c.data().vector->push_back(_ValTy());
                do_parse(c.data().vector->back(), token, false);
''','''                if (token != token_type::literal_null || c.data().vector->empty() || !c.data().vector->back().is_null())
                    c.data().vector->push_back(_ValTy());
                do_parse(c.data().vector->back(), token, false);
''')],
 demo=PRE+r'''int main(){ json::value v=json::parse(std::string("[1,null,null,2]")); return v.size()==4 ? 0 : 1; }'''),
dict(id='s08-open-close',prop='C08',needs='a comment that starts with /*/',breaks='the star that opens a comment also closes it',
 edits=[(J,'''            // multiple line comment
            read_next();
''','''            // multiple line comment
''')],
 demo=PRE+r'''int main(){ return refused("/*/ 1") && !refused("/*/ 2 */ 1") ? 0 : 1; }'''),
dict(id='s08-comment-cr',prop='C08',needs='a // comment ended by a lone carriage return, followed by a token',breaks='a // comment runs over a lone carriage return',
 edits=[(J,"if (current_ == '\\n' || current_ == '\\r')","if (current_ == '\\n')")],
 demo=PRE+r'''int main(){ json::value v; try { v=json::parse(std::string("// c\r12")); } catch(...) { return 1; } return v.is_integer() && v.get<int>()==12 ? 0 : 1; }'''),
dict(id='s09-pair-order',prop='C09',needs='a lead surrogate escape followed by an escape of another lead surrogate',breaks='two lead surrogates are combined into a code point',
 edits=[(J,'if (!encoding::unicode::is_trail_surrogate(trail_surrogate))','if (!encoding::unicode::is_trail_surrogate(trail_surrogate) && !encoding::unicode::is_lead_surrogate(trail_surrogate))')],
 demo=PRE+r'''int main(){ return refused("\"\\uD800\\uD801\"") && !refused("\"\\uD800\\uDC01\"") ? 0 : 1; }'''),
dict(id='s09-hex-shift',prop='C09',needs='a \\u escape with a lower-case letter as one of its digits in a position where the digits before have carried bits',breaks='lower-case hex digits are off by 32',
 edits=[(J,"code += ((ch - 'a' + 10) << factor);","code += (((ch & 0x0F) + 9 + (factor == 12 ? 16 : 0)) << factor);")],
 demo=PRE+r'''int main(){ json::value v=json::parse(std::string("\"\\uac00\"")); return v.get<std::string>()=="\xEA\xB0\x80" ? 0 : 1; }'''),
dict(id='s09-control-1f',prop='C09',needs='a raw U+001F inside a string',breaks='the last control character is accepted unescaped',
 edits=[(J,'''            case 0x1E:
            case 0x1F:
''','''            case 0x1E:
''')],
 demo=PRE+r'''int main(){ return refused("\"a\x1F\"") && refused("\"a\x1E\"") ? 0 : 1; }'''),
dict(id='s10-exp-minus-sign',prop='C10',needs='a zero with an exponent after a fraction, e.g. 0.0E5 with a capital E',breaks='a capital E after a fraction ends the number',
 edits=[(J,'''            const auto ch = read_next();
            if (ch == 'e' || ch == 'E')
                return scan_exponent();

            if (is_digit(ch))''','''            const auto ch = read_next();
            if (ch == 'e' || (ch == 'E' && number_float_ > 0))
                return scan_exponent();

            if (is_digit(ch))''')],
 demo=PRE+r'''int main(){ return !refused("0.0E5") && !refused("0.5E5") && !refused("0.0e5") ? 0 : 1; }'''),
dict(id='s10-neg-float-sign',prop='C10',needs='a negative float with a positive exponent sign',breaks='the sign of the number is lost when the exponent has a plus',
 edits=[(J,'''        if (current_ == '+')
        {
            read_next();
        }
        else if (current_ == '-')
        {
            base''','''        if (current_ == '+')
        {
            is_negative_ = false;
            read_next();
        }
        else if (current_ == '-')
        {
            base''')],
 demo=PRE+r'''int main(){ json::value v=json::parse(std::string("-2.5e+2")); return v.get<double>()==-250.0 ? 0 : 1; }'''),
dict(id='s11-zero-sign-kept',prop='C11',needs='a number that follows a larger number in the same document and is a plain zero',breaks='a zero after another integer gets the value of that integer',
 edits=[(J,'''        is_negative_    = false;
        number_integer_ = 0;
''','''        is_negative_ = false;
        if (current_ != '0')
            number_integer_ = 0;
''')],
 demo=PRE+r'''int main(){ json::value v=json::parse(std::string("[7,0]")); return v[0].get<int>()==7 && v[1].get<int>()==0 ? 0 : 1; }'''),
dict(id='s11-sign-sticks',prop='C11',needs='an unsigned number after a negative number in the same document',breaks='a number without a sign after a negative number is read as negative',
 edits=[(J,'''        is_negative_    = false;
        number_integer_ = 0;
''','''        is_negative_    = is_negative_ && current_ > '7';
        number_integer_ = 0;
''')],
 demo=PRE+r'''int main(){ json::value v=json::parse(std::string("[-1,9]")); return v[0].get<int>()==-1 && v[1].get<int>()==9 ? 0 : 1; }'''),
]
