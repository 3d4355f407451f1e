// Entry points whose every behaviour is analysed.  Declared-only functions (m_*, ext_*) are the
// analysis' input and output ports; nothing here is ever executed.
#include "value_layout.hpp"

template <class C> struct ext_encoding
{
    static bool decode(std::basic_istream<C>& is, uint32_t& codepoint);
    static void encode(std::basic_ostream<C>& os, uint32_t codepoint);
};
extern "C" {
void m_value(const V& v);
struct m_handler : error_handler { void handle(const std::exception_ptr) override; };
}

extern "C" void h_parse(std::istream& is)
{
    V v;
    json::parse(v, is, { json::parser::with_encoding<ext_encoding>() });
    m_value(v);
}
extern "C" void h_parse_eh(std::istream& is, error_handler* eh)
{
    V v;
    json::parse(v, is, { json::parser::with_encoding<ext_encoding>(), json::parser::with_error_handler(eh) });
    m_value(v);
}
extern "C" void h_dump(const V& v, std::ostream& os)
{
    json::dump(os, v, { json::serializer::with_encoding<ext_encoding>() });
}
extern "C" void h_dump_esc(const V& v, std::ostream& os)
{
    json::dump(os, v, { json::serializer::with_encoding<ext_encoding>(), json::serializer::with_unicode_escaping(true) });
}
extern "C" void h_dump_eh(const V& v, std::ostream& os, error_handler* eh)
{
    json::dump(os, v, { json::serializer::with_encoding<ext_encoding>(), json::serializer::with_error_handler(eh) });
}
extern "C" void h_dump_indent(const V& v, std::ostream& os, uint8_t step, char ch)
{
    json::dump(os, v, { json::serializer::with_encoding<ext_encoding>(), json::serializer::with_indent(step, ch) });
}
