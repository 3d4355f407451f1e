P='include/configor/details/parser.hpp'
S='include/configor/details/serializer.hpp'
J='include/configor/json.hpp'
W='include/configor/details/wrapper.hpp'
PRE='''
#include <configor/json.hpp>
#include <sstream>
#include <string>
#include <iostream>
#include <iomanip>
#include <clocale>
#include <locale>
using namespace configor;
'''
SEEDS=[
dict(id='s20-width',prop='C20',also=['C26'],needs='two documents written to one stream whose width was set once',breaks='the width of the caller’s stream is put back instead of cleared, so that the next thing written is padded or indented',
 edits=[(J,'''        os.width(0);  // clear width
''','''        if (os.width() == 1)
            os.width(0);  // clear width
''')],
 demo=PRE+r'''
int main(){ std::ostringstream os; json::value v = 1; os << std::setw(4) << json::wrap(v) << 7; return os.str() == "17" ? 0 : 1; }'''),
dict(id='s20-flags',prop='C20',also=[],needs='std::showpos, std::hex or std::uppercase set on the caller’s stream',breaks='all format flags of the caller are taken over, not only the float format',
 edits=[(S,'''        os_.setf(os.flags(), std::ios_base::floatfield);
''','''        os_.setf(os.flags());
''')],
 demo=PRE+r'''
int main(){ std::ostringstream os; os << std::showpos; json::value v = 1; json::dump(os, v); return os.str() == "1" ? 0 : 1; }'''),
dict(id='s20-locale',prop='C20',also=[],needs='a caller’s locale with a thousands separator or another decimal point',breaks='numbers are formatted with the numeric facet of the caller’s locale',
 edits=[(S,'''std::locale::collate | std::locale::ctype));
''','''std::locale::collate | std::locale::ctype | std::locale::numeric));
''')],
 demo=PRE+r'''
struct P : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } char do_decimal_point() const override { return ','; } };
int main(){ std::ostringstream os; os.imbue(std::locale(std::locale::classic(), new P)); json::value v = 1234567; json::dump(os, v); return os.str() == "1234567" ? 0 : 1; }'''),
dict(id='s20-hexfloat',prop='C20',also=['C21'],needs='the hexfloat format on the caller’s stream or in with_precision',breaks='the hexfloat format is turned off before the options are applied, so that an option can turn it on again',
 edits=[(J,'''            // hexfloat is disabled
            this->os_.unsetf(std::ios_base::floatfield);
''','''            // hexfloat is disabled
            this->os_.unsetf(std::ios_base::fixed & ~std::ios_base::scientific & std::ios_base::uppercase);
''')],
 demo=PRE+r'''
int main(){ std::ostringstream os; os << std::hexfloat; json::value v = 1.5; json::dump(os, v); return os.str().find('x') == std::string::npos ? 0 : 1; }'''),
dict(id='s20-state',prop='C20',also=['C21','C26'],needs='a look at the precision of the caller’s stream after with_precision',breaks='the precision of the stream in use is left changed in the caller’s stream',
 edits=[(J,'''        this->os_ << std::setprecision(os.precision());
''','''        this->os_ << std::setprecision(os.precision(6));
''')],
 demo=PRE+r'''
int main(){ std::ostringstream os; os << std::setprecision(3); json::value v = 1.23456; json::dump(os, v); return os.precision() == 3 ? 0 : 1; }'''),
dict(id='s21-source-side',prop='C21',also=[],needs='with_encoding followed by with_source_encoding when reading',breaks='when reading, the source encoding given also becomes that of the target',
 edits=[(J,'''    static option with_source_encoding()
    {
        return [=](json_parser& p) { p.template set_source_encoding<_Encoding>(); };
''','''    static option with_source_encoding()
    {
        return [=](json_parser& p) { p.template set_source_encoding<_Encoding>(); if (!p.err_handler_) p.template set_target_encoding<_Encoding>(); };
''')],
 demo=PRE+r'''
int main(){ wjson::value w; typedef detail::json_parser<wjson::value, char> X; wjson::parse(w, "[\"\xc3\xa9\"]", { X::with_source_encoding<encoding::utf8>() }); return w[0].get<std::wstring>() == L"\u00e9" ? 0 : 1; }'''),
dict(id='s21-indent-zero',prop='C21',also=[],needs='with_indent(0) after another indentation',breaks='an indentation of 0 does not turn pretty printing off again',
 edits=[(J,'''            s.pretty_print_ = indent_step > 0;
''','''            s.pretty_print_ = s.pretty_print_ || indent_step > 0;
''')],
 demo=PRE+r'''
int main(){ json::value v = json::array{ 1, 2 }; typedef detail::json_serializer<json::value, char> X; return json::dump<char>(v, { X::with_indent(4), X::with_indent(0) }) == "[1,2]" ? 0 : 1; }'''),
dict(id='s21-precision-mask',prop='C21',also=[],needs='two precision options of different float formats in one call',breaks='the float format of an option is added to the one in force instead of replacing it',
 edits=[(J,'''            s.os_.setf(floatflags, std::ios_base::floatfield);
''','''            s.os_.setf(floatflags & std::ios_base::floatfield);
''')],
 demo=PRE+r'''
int main(){ json::value v = 1.5; typedef detail::json_serializer<json::value, char> X; return json::dump<char>(v, { X::with_precision(3, std::ios_base::scientific), X::with_precision(2) }) == "1.50" ? 0 : 1; }'''),
dict(id='s26-partial',prop='C26',also=[],needs='a malformed text or a throwing conversion while an object is read',breaks='the object is reset before the text is read, so that it is lost when reading fails',
 edits=[(W,'''            value_type c{};
            config_type::parse(c, in);
            const_cast<_Ty&>(wrapper.v_) = c.template get<_Ty>();
''','''            value_type c{};
            const_cast<_Ty&>(wrapper.v_) = _Ty{};
            config_type::parse(c, in);
            const_cast<_Ty&>(wrapper.v_) = c.template get<_Ty>();
''')],
 demo=PRE+r'''
int main(){ std::string x = "old"; std::istringstream is("[1,"); try { is >> json::wrap(x); } catch (...) {} return x == "old" ? 0 : 1; }'''),
dict(id='s26-get-in-place',prop='C26',also=[],needs='a document whose value cannot be converted to the type of the wrapped object',breaks='a failed conversion is silently ignored instead of being reported',
 edits=[(W,'''            const_cast<_Ty&>(wrapper.v_) = c.template get<_Ty>();
''','''            c.template get<_Ty>(const_cast<_Ty&>(wrapper.v_));
''')],
 demo=PRE+r'''
struct U { int a; }; struct no {};
namespace configor { template <> struct value_binder<U> { template <class A> static void to_value(basic_value<A>& c, const U& u) { c = u.a; } template <class A> static void from_value(const basic_value<A>& c, U& u) { u.a = c.template get<int>(); } }; }
int main(){ U u{3}; std::istringstream is("\"text\""); try { is >> json::wrap(u); } catch (...) { return 0; } return 1; }'''),
dict(id='s26-failed-stream',prop='C26',also=[],needs='a stream that has already failed',breaks='a value is written although the stream has failed (its sentry is not consulted)',
 edits=[(W,'''        if (s)
        {
            config_type::dump(out, static_cast<value_type>(wrapper.v_));
        }
''','''        if (s || out.width() == 0)
        {
            config_type::dump(out, static_cast<value_type>(wrapper.v_));
        }
''')],
 demo=PRE+r'''
int main(){ std::ostringstream os; os.setstate(std::ios::failbit); int i = 5; try { os << json::wrap(i); } catch (...) {} return os.str().empty() ? 0 : 1; }'''),
]
