// Whole statements: ACCEPT must build, REJECT must not (each stands for a program that contains just this statement).
#include <configor/json.hpp>
#include <list>
#include <sstream>
#include <string>
using namespace configor;
typedef json::value V;
typedef wjson::value W;
typedef std::string S;
struct Free { int x; };
void to_value(V& c, const Free& u);
void from_value(const V& c, Free& u);
struct Bound { int a; S b; CONFIGOR_BIND(V, Bound, REQUIRED(a), OPTIONAL(b, "renamed")) };
inline bool operator!=(const Free&, const Free&) { return true; }
struct Alien { int x; };
struct Nested { Bound a; std::vector<Bound> b; std::map<S, Free> c; CONFIGOR_BIND(V, Nested, REQUIRED(a), REQUIRED(b), OPTIONAL(c)) };
template <class T> T& val();
#define FN1(n) void fn_##n(V& m, const V& c, std::istream& is, std::ostream& os, S& s, V::iterator it, V::const_iterator ci, V::reverse_iterator ri, V::const_reverse_iterator cri)
#define FN(n) FN1(n)
#define ACCEPT(...) FN(__COUNTER__) { __VA_ARGS__; }
#define ACCEPTD(...) __VA_ARGS__;
#define REJECTD(...) __VA_ARGS__;
#define REJECT(...) FN(__COUNTER__) { __VA_ARGS__; }
// const values and iterators
REJECT(it = ci)
REJECT(V::iterator x = ci)
REJECT(*ci = 1)
REJECT(ci.value() = 1)
REJECT(ci->clear())
REJECT(*cri = 1)
REJECT(*c.begin() = 1)
REJECT(*c.rbegin() = 1)
REJECT(*c.find("a") = 1)
REJECT(for (auto& x : c) x = 1)
REJECT(c["a"] = 1)
REJECT(c[0] = 1)
REJECT(c.at(0) = 1)
REJECT(c.at("a") = 1)
REJECT(c.at(s) = 1)
REJECT(c[s] = 1)
REJECT(c.get<S&>() = "x")
REJECT(*c.get<S*>() = "x")
REJECT(*c.get_ptr<S*>() = "x")
REJECT(c.get<V::array_type&>().clear())
REJECT(c.get<const V::object_type&>().clear())
REJECT(it.key() = "x")
REJECT(V& x = c[0])
REJECT(V::array_type& x = c.get<V::array_type&>())
REJECT(json::parse(c, "1"))
REJECT(json::parse(c, is))
REJECT(is >> json::wrap(c))
ACCEPT(ci = it)
ACCEPT(V::const_iterator x = it; x = it)
ACCEPT(*it = 1; it.value() = 1; it->clear(); *ri = 1; *m.begin() = 1; *m.rbegin() = 1; *m.find("a") = 1)
ACCEPT(for (auto& x : m) x = 1)
ACCEPT(for (auto& x : c) x.size())
ACCEPT(m["a"] = 1; m[0] = 1; m.at(0) = 1; m.at("a") = 1; m.at(s) = 1; m[s] = 1; m.get<S&>() = "x"; *m.get_ptr<S*>() = "x")
ACCEPT(it == ci)
ACCEPT(m.begin() + 1; 1 + 1; m.end() - m.begin(); it < it; it += 1; it -= 1; --it; it--)
// unsupported types
REJECT(Alien a; V x = a)
REJECT(Alien a; m = a)
REJECT(Alien a = c)
REJECT(c.get<Alien>())
REJECT(Alien a; c.get(a))
REJECT(Alien a; m.push_back(a))
REJECT(Alien a; m.emplace_back(a))
REJECT(Alien a; os << json::wrap(a))
REJECT(Alien a; is >> json::wrap(a))
REJECT(Alien a; json::dump(a))
REJECT(Alien a; c == a)
REJECT(std::vector<Alien> a; V x = a)
REJECT(std::vector<Alien> a = c)
REJECTD(struct Inside { Alien a; CONFIGOR_BIND(V, Inside, REQUIRED(a)) })
REJECTD(struct Inside2 { Alien a; CONFIGOR_BIND(V, Inside2, OPTIONAL(a, "b")) })
REJECTD(struct Absent { int a; CONFIGOR_BIND(V, Absent, REQUIRED(b)) })
ACCEPTD(struct Outside { Bound a; std::vector<Nested> b; CONFIGOR_BIND(V, Outside, REQUIRED(a), REQUIRED(b, "c")) })
REJECT(Alien a; V x = &a)
REJECT(int a; V x = &a)
REJECT(W w; V x = w)
REJECT(W w; m = w)
REJECT(W w; w = c)
REJECT(V x = std::wstring())
REJECT(m[L"text"])
REJECT(std::map<int, int> a; V x = a)
REJECT(std::map<int, int> a = c)
REJECT(is >> json::wrap(val<const Bound>()))
REJECT(is >> json::wrap(val<const int>()))
REJECT(int* p = c.get<int*>())
REJECT(const float* p = m.get_ptr<const float*>())
REJECT(int& p = m.get<int&>())
REJECT(S* p = c)
REJECT(S* p = m)
// options belong to their side
REJECT(json::dump(c, { json::parser::with_error_handler(nullptr) }))
REJECT(json::parse("1", { json::serializer::with_indent(1) }))
REJECT(json::dump<wchar_t>(c, { json::serializer::with_encoding<encoding::utf8>() }))
REJECT(json::parse(os))
REJECT(json::dump(is, c))
REJECT(S x = json::dump<wchar_t>(c))
ACCEPT(json::dump(c, { json::serializer::with_indent(1), json::serializer::with_indent(2, '\t'), json::serializer::with_precision(3), json::serializer::with_unicode_escaping(true), json::serializer::with_error_handler(nullptr), json::serializer::with_encoding<encoding::utf8>(), json::serializer::with_source_encoding<encoding::utf8>(), json::serializer::with_target_encoding<encoding::utf8>() }))
ACCEPT(json::parse(s, { json::parser::with_error_handler(nullptr), json::parser::with_encoding<encoding::utf8>(), json::parser::with_source_encoding<encoding::ignore>(), json::parser::with_target_encoding<encoding::auto_utf>() }))
ACCEPT(json::dump(os, c, { json::serializer::with_indent(1) }); json::dump(s, c, { json::serializer::with_indent(1) }); s = json::dump(c, { json::serializer::with_indent(1) }))
ACCEPT(json::parse(m, is, { json::parser::with_encoding<encoding::utf8>() }); json::parse(m, s, { json::parser::with_encoding<encoding::utf8>() }); m = json::parse("1", { json::parser::with_encoding<encoding::utf8>() }))
ACCEPT(json::dump<wchar_t>(c); json::dump<char16_t>(c); json::dump<char32_t>(c); json::parse(L"1"); json::parse(u"1"); json::parse(U"1"))
// documented programs
ACCEPT(V x = json::object{ { "null", nullptr }, { "integer", 1 }, { "float", 1.3 }, { "boolean", true }, { "string", "something" }, { "array", json::array{ 1, 2 } }, { "object", json::object{ { "key", "value" }, { "key2", "value2" } } } })
ACCEPT(V x = Bound{ 1, "a" }; s = json::dump(Bound{ 1, "a" }); Bound w = json::parse("{}"))
ACCEPT(Bound u = json::object{ { "a", 1 }, { "renamed", "b" } })
ACCEPT(os << json::wrap(Bound{ 1, "a" }); Bound u; is >> json::wrap(u); os << json::wrap(c) << json::wrap(m); is >> json::wrap(m))
ACCEPT(Nested n; V x = n; n = c.get<Nested>(); n = x.get<Nested>(); x.get(n); json::dump(x); m.push_back(n); m.emplace_back(n); m["n"] = n)
ACCEPT(bool b = c; int i = c; S t = c; std::vector<Bound> v = c; Free f = c; i = c.get<int>(); i = m["a"]["b"][0])
ACCEPT(m = 1; m = 1.5; m = "a"; m = s; m = nullptr; m = true; m = std::vector<int>{ 1 }; m = json::array{ 1 }; m = json::object{ { "a", 1 } }; m = V::array_type(); m = V::object_type())
ACCEPT(m.push_back(1); m.push_back("a"); m.push_back(c); m.emplace_back(1); m.swap(m); m.clear(); m.erase(0); m.erase("a"); m.erase(m.begin()); m.erase(m.begin(), m.end()))
ACCEPT(int a[3] = { 1, 2, 3 }; V x = a; c.get(a); const char* t = "a"; V y = t; char u[4] = "abc"; V z = u)
ACCEPT(std::unique_ptr<Free> p; V x = p; p = c.get<std::unique_ptr<Free>>(); std::shared_ptr<Bound> q; V y = q; q = c.get<std::shared_ptr<Bound>>(); c.get(q))
ACCEPT(error_handler_with<error_policy::record> e; json::parse("x", { json::parser::with_error_handler(&e) }); s = e.error)
ACCEPT(c == c; c != c; c < c; c <= c; c > c; c >= c; c == 1; 1 == c; c < 1.5; 1.5 < c; c == nullptr; c == true; c == "s"; "s" == c; c != "s"; c >= 1; 1 >= c; c <= 'a')
ACCEPT(W w = L"text"; w[L"key"] = 1; wjson::dump(w); wjson::parse(L"1"); wjson::dump<char>(w); wjson::parse("1"); std::wstring t = w)
