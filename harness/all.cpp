// Every class of the library instantiated as a whole, and its function templates for one type each.
#include <configor/json.hpp>
#include <sstream>
#include <string>
#include <utility>
using namespace configor;
typedef json::value V;
typedef wjson::value W;
namespace configor
{
template class basic_value<value_tplargs>;
template class basic_value<wvalue_tplargs>;
template class detail::value_constructor<V>;
template class detail::reverse_iterator<V::iterator>;
template class detail::reverse_iterator<V::const_iterator>;
template class detail::json_parser<V, char>;
template class detail::json_parser<W, wchar_t>;
template class detail::json_serializer<V, char>;
template class detail::json_serializer<W, wchar_t>;
template class detail::basic_parser<V, char>;
template class detail::basic_serializer<V, char>;
template class detail::indent<char>;
template class basic_oadapterstream<char>;
template class basic_iadapterstream<char>;
template class detail::fast_string_ostreambuf<char>;
template class detail::fast_string_istreambuf<char>;
template class detail::fast_buffer_istreambuf<char>;
template class detail::fast_basic_ostringstream<char>;
template class encoding::ignore<char>;
template class encoding::utf8<char>;
template class encoding::utf16<char16_t>;
template class encoding::utf32<char32_t>;
}
// a user type whose conversions may fail
struct F { long x; };
extern "C" {
void ext_to_value(V* v, const F* u);
void ext_from_value(const V* v, F* u);
bool ext_differs(const F* a, const F* b);
}
inline void to_value(V& c, const F& u) { ext_to_value(&c, &u); }
inline void from_value(const V& c, F& u) { ext_from_value(&c, &u); }
inline bool operator!=(const F& a, const F& b) { return ext_differs(&a, &b); }
struct B { F a; F b; CONFIGOR_BIND(V, B, REQUIRED(a), OPTIONAL(b)) };
struct N { N(const N&); N(int); };      // not default constructible
namespace configor
{
template <> struct value_binder<N>
{
    static void to_value(V& c, const N&);
    static N from_value(const V& c);
};
}
template <class T> void both(V& v, const V& c, T& t)
{
    V a(t);
    v = t;
    const T& ct = t;
    V b(ct);
    T u = c.get<T>();
    c.get(t);
    T w = c;
    V d(std::move(t));
}
template <class T> void reading(const V& c)
{
    T u = c.get<T>();
}
template <class T> void pointer(V& v, const V& c)
{
    T* p = v.get<T*>();
    const T* q = c.get<const T*>();
    p = v.get_ptr<T*>();
    q = c.get_ptr<const T*>();
    c.get(q);
    T& r = v.get<T&>();
    const T& s = c.get<const T&>();
    const T& t = v.get<const T&>();
}
template <class It> void iterate(It a, It b)
{
    ++a; a++; --a; a--; a += 1; a -= 1; (void)(a + 1); (void)(a - 1); (void)(a - b);
    (void)(a == b); (void)(a != b); (void)(a < b); (void)(a <= b); (void)(a > b); (void)(a >= b);
    (void)*a; (void)a->size(); It c(a); c = b; std::swap(a, b);
}
void use(V& v, const V& c, V& w, std::istream& is, std::ostream& os, std::FILE* f, error_handler* eh)
{
    bool b = false; int i = 0; unsigned u = 0; long long ll = 0; double d = 0; float fl = 0; std::string s; std::vector<int> vi; std::list<std::string> ls;
    std::map<std::string, int> m; std::unordered_map<std::string, F> um; std::deque<F> dq; std::forward_list<int> fwl; std::set<int> st; std::unordered_set<int> us;
    std::array<F, 3> arr{}; std::unique_ptr<F> up; std::shared_ptr<F> sp; F x; B y; V::array_type va; V::object_type vo; N n(1);
    both(v, c, b); both(v, c, i); both(v, c, u); both(v, c, ll); both(v, c, d); both(v, c, fl); both(v, c, s); both(v, c, vi); both(v, c, ls); both(v, c, m); both(v, c, um);
    both(v, c, dq); both(v, c, fwl); both(v, c, st); both(v, c, us); both(v, c, arr); both(v, c, sp); both(v, c, x); both(v, c, y);
    v = up; reading<std::unique_ptr<F>>(c); V vn(n); N n2 = c.get<N>(); c.get(n);
    pointer<bool>(v, c); pointer<V::integer_type>(v, c); pointer<V::float_type>(v, c); pointer<std::string>(v, c); pointer<V::array_type>(v, c); pointer<V::object_type>(v, c);
    iterate(v.begin(), v.end()); iterate(c.begin(), c.end()); iterate(v.rbegin(), v.rend()); iterate(c.rbegin(), c.rend());
    v.begin().key(); v.begin().value(); c.begin().key(); c.begin().value();
    v.erase(v.begin()); v.erase(v.begin(), v.end()); v.emplace_back(1); v.emplace_back(s);
    v == w; v != w; v < w; v > w; v <= w; v >= w;
    V va1 = json::array({ 1, 2.0, "x", nullptr }); V vo1 = json::object({ { "a", 1 } });
    json::parse(v, is); json::parse(v, s); json::parse(v, "1"); json::parse(v, f); v = json::parse(is); v = json::parse(s); v = json::parse("1"); v = json::parse(f);
    v = json::parse(L"1"); v = json::parse(u"1"); v = json::parse(U"1");
    json::dump(os, v); json::dump(s, v); s = json::dump(v); json::dump<wchar_t>(v); json::dump<char32_t>(v);
    json::parse(v, is, { json::parser::with_error_handler(eh), json::parser::with_encoding<encoding::utf8>(), json::parser::with_source_encoding<encoding::utf8>(), json::parser::with_target_encoding<encoding::utf8>() });
    json::dump(os, v, { json::serializer::with_error_handler(eh), json::serializer::with_indent(2), json::serializer::with_precision(3), json::serializer::with_unicode_escaping(true), json::serializer::with_encoding<encoding::utf8>(), json::serializer::with_source_encoding<encoding::utf8>(), json::serializer::with_target_encoding<encoding::utf8>() });
    os << json::wrap(c) << json::wrap(v) << json::wrap(y); is >> json::wrap(v) >> json::wrap(y);
    error_handler_with<error_policy::strict> e1; error_handler_with<error_policy::record> e2; error_handler_with<error_policy::ignore> e3;
    e1.handle(nullptr); e2.handle(nullptr); e3.handle(nullptr);
    throw configor_type_error("x");
}
