// Witnesses decided by the type system: which programs build, and with which types.
//   IS(type, expr)   the expression compiles and has exactly that type
//   YES(expr)        the expression compiles          NO(expr)  it does not
#include <configor/json.hpp>
#include <list>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
using namespace configor;
typedef json::value V;
typedef wjson::value W;
typedef std::string S;
typedef V::array_type A;
typedef V::object_type O;
typedef V::integer_type I;
typedef V::float_type D;
struct Free { int x; };
void to_value(V& c, const Free& u);
void from_value(const V& c, Free& u);
struct Bound { int a; int b; CONFIGOR_BIND(V, Bound, REQUIRED(a), OPTIONAL(b)) };
struct Out { int x; };  // can only be written
void to_value(V& c, const Out& u);
struct In { int x; };  // can only be read
void from_value(const V& c, In& u);
struct Special { explicit Special(int); Special(const Special&); Special(Special&&); };
namespace configor
{
template <> struct value_binder<Special>
{
    static void to_value(V& c, const Special&);
    static Special from_value(const V& c);
};
}
struct Alien { int x; };
enum Plain { one, two };
enum class Scoped { one, two };
template <class T> T val();
template <class X> struct J0 { typedef json type; };
typedef V& MV;
typedef const V& CV;

template <class A, class B> struct same_as { static_assert(std::is_same<A, B>::value, "type"); };
#define IS(...) IS2(__COUNTER__, __VA_ARGS__)
#define IS2(n, ...) IS3(n, __VA_ARGS__)
#define IS3(n, t, ...) static_assert(std::is_same<t, decltype(__VA_ARGS__)>::value, "has another type: " #__VA_ARGS__);
#define YES(...) YES2(__COUNTER__, __VA_ARGS__)
#define YES2(n, ...) YES3(n, __VA_ARGS__)
#define YES3(n, ...)                                                                            \
    template <class X, class = void> struct yes_##n : std::false_type {};                       \
    template <class X> struct yes_##n<X, decltype(void(__VA_ARGS__))> : std::true_type {};      \
    static_assert(yes_##n<V>::value, "does not compile: " #__VA_ARGS__);
#define NO(...) NO2(__COUNTER__, __VA_ARGS__)
#define NO2(n, ...) NO3(n, __VA_ARGS__)
#define NO3(n, ...)                                                                             \
    template <class X, class = void> struct no_##n : std::true_type {};                         \
    template <class X> struct no_##n<X, decltype(void(__VA_ARGS__))> : std::false_type {};      \
    static_assert(no_##n<V>::value, "compiles: " #__VA_ARGS__);
#define TRUE(...) static_assert(__VA_ARGS__, "is false: " #__VA_ARGS__);
// X is V inside YES and NO; M and C name a mutable and a const value there
#define M val<X&>()
#define C val<const X&>()
#define OF(...) val<__VA_ARGS__>()

// --- values as such
TRUE(std::is_nothrow_move_constructible<V>::value)
TRUE(std::is_nothrow_destructible<V>::value)
TRUE(std::is_copy_constructible<V>::value && std::is_copy_assignable<V>::value && std::is_move_assignable<V>::value)
TRUE(std::is_default_constructible<V>::value)
TRUE(std::is_same<V::char_type, char>::value && std::is_same<W::char_type, wchar_t>::value)
TRUE(std::is_same<S, V::string_type>::value && std::is_same<std::wstring, W::string_type>::value)
TRUE(std::is_signed<I>::value && sizeof(I) == 8 && std::is_floating_point<D>::value)
TRUE(is_value<V>::value && is_value<W>::value && !is_value<int>::value && !is_value<S>::value)
TRUE(is_json<json>::value && is_json<wjson>::value && !is_json<V>::value)

// --- conversions in both directions: construct, assign, get, get into, convert implicitly
#define BOTH(...)                                                            \
    TRUE(std::is_constructible<V, __VA_ARGS__>::value)                       \
    TRUE(std::is_constructible<V, const __VA_ARGS__&>::value)                \
    TRUE(std::is_convertible<__VA_ARGS__, V>::value)                         \
    TRUE(std::is_assignable<V&, __VA_ARGS__>::value)                         \
    TRUE(std::is_assignable<V&, const __VA_ARGS__&>::value)                  \
    TRUE(std::is_convertible<CV, __VA_ARGS__>::value)                        \
    TRUE(std::is_same<__VA_ARGS__, decltype(val<CV>().get<__VA_ARGS__>())>::value) \
    TRUE(std::is_same<__VA_ARGS__, decltype(val<MV>().get<__VA_ARGS__>())>::value) \
    TRUE(std::is_same<bool, decltype(val<CV>().get(val<__VA_ARGS__&>()))>::value)
BOTH(bool)
BOTH(signed char)
BOTH(short)
BOTH(int)
BOTH(long)
BOTH(long long)
BOTH(unsigned char)
BOTH(unsigned short)
BOTH(unsigned)
BOTH(unsigned long)
BOTH(unsigned long long)
BOTH(char)
BOTH(wchar_t)
BOTH(float)
BOTH(double)
BOTH(long double)
BOTH(S)
BOTH(Free)
BOTH(Bound)
BOTH(std::vector<int>)
BOTH(std::vector<S>)
BOTH(std::vector<Free>)
BOTH(std::vector<Bound>)
BOTH(std::vector<std::vector<double>>)
BOTH(std::deque<Free>)
BOTH(std::list<Free>)
BOTH(std::forward_list<Free>)
BOTH(std::set<S>)
BOTH(std::unordered_set<S>)
BOTH(std::array<Free, 3>)
BOTH(std::map<S, Free>)
BOTH(std::map<S, std::vector<Bound>>)
BOTH(std::unordered_map<S, Free>)
BOTH(std::shared_ptr<Free>)
BOTH(std::vector<std::map<S, std::list<int>>>)
BOTH(std::vector<std::shared_ptr<Bound>>)
BOTH(Special)
YES(X(OF(std::unique_ptr<Free>&)))
YES(C.template get<std::unique_ptr<Free>>())
TRUE(std::is_constructible<V, const char*>::value && std::is_constructible<V, const char (&)[4]>::value && std::is_constructible<V, char*>::value)
TRUE(std::is_constructible<V, std::nullptr_t>::value && std::is_convertible<std::nullptr_t, V>::value)
TRUE(std::is_constructible<V, value_constant::type>::value)
TRUE(std::is_constructible<V, int (&)[4]>::value && std::is_constructible<V, Free (&)[2]>::value)
YES(C.get(OF(int (&)[4])))
YES(C.get(OF(Free (&)[2])))
TRUE(std::is_constructible<V, A&>::value && std::is_constructible<V, O&>::value && std::is_constructible<V, const A&>::value && std::is_constructible<V, const O&>::value)
IS(V, val<CV>().get<V>())
IS(A, val<CV>().get<A>())
IS(O, val<CV>().get<O>())
IS(bool, val<CV>().get(val<A&>()))
IS(bool, val<CV>().get(val<O&>()))
IS(bool, val<CV>().get(val<V&>()))
// one direction only
TRUE(std::is_constructible<V, Out>::value && std::is_constructible<V, std::vector<Out>>::value)
NO(C.template get<Out>())
NO(C.template get<std::vector<Out>>())
NO(C.get(OF(Out&)))
TRUE(!std::is_convertible<CV, Out>::value)
YES(C.template get<In>())
YES(C.template get<std::list<In>>())
TRUE(!std::is_constructible<V, In>::value && !std::is_constructible<V, std::list<In>>::value && !std::is_convertible<In, V>::value)

// --- conversions that are not supported do not build
#define NEITHER(...)                                                         \
    TRUE(!std::is_constructible<V, __VA_ARGS__>::value)                      \
    TRUE(!std::is_constructible<V, const __VA_ARGS__&>::value)               \
    TRUE(!std::is_convertible<__VA_ARGS__, V>::value)                        \
    TRUE(!std::is_assignable<V&, __VA_ARGS__>::value)                        \
    TRUE(!std::is_convertible<CV, __VA_ARGS__>::value)                       \
    TRUE(!std::is_convertible<MV, __VA_ARGS__>::value)                       \
    NO(C.template get<__VA_ARGS__>())                                        \
    NO(M.template get<__VA_ARGS__>())                                        \
    NO(C.get(OF(__VA_ARGS__&)))                                              \
    NO(J0<X>::type::wrap(OF(__VA_ARGS__&)))                                  \
    NO(J0<X>::type::wrap(OF(const __VA_ARGS__&)))
NEITHER(Alien)
NEITHER(Plain)
NEITHER(Scoped)
NEITHER(std::vector<Alien>)
NEITHER(std::deque<Alien>)
NEITHER(std::list<Alien>)
NEITHER(std::forward_list<Alien>)
NEITHER(std::set<Alien>)
NEITHER(std::unordered_set<Alien>)
NEITHER(std::array<Alien, 2>)
NEITHER(std::map<S, Alien>)
NEITHER(std::unordered_map<S, Alien>)
NEITHER(std::map<Alien, int>)
NEITHER(std::unordered_map<int*, int>)
NEITHER(std::shared_ptr<Alien>)
NEITHER(std::unique_ptr<Alien>)
NEITHER(std::vector<std::vector<Alien>>)
NEITHER(std::vector<std::map<S, Alien>>)
NEITHER(std::wstring)
NEITHER(std::pair<int, int>)
NEITHER(std::exception)
NEITHER(W)
// pointers are never converted to something else, such as bool
#define NOPTR(...)                                                           \
    TRUE(!std::is_constructible<V, __VA_ARGS__>::value)                      \
    TRUE(!std::is_assignable<V&, __VA_ARGS__>::value)                        \
    TRUE(!std::is_convertible<CV, __VA_ARGS__>::value)                       \
    TRUE(!std::is_convertible<MV, __VA_ARGS__>::value)                       \
    NO(C.template get<__VA_ARGS__>())                                        \
    NO(M.template get<__VA_ARGS__>())                                        \
    NO(C.template get_ptr<__VA_ARGS__>())                                    \
    NO(M.template get_ptr<__VA_ARGS__>())
NOPTR(void*)
NOPTR(int*)
NOPTR(const int*)
NOPTR(unsigned*)
NOPTR(float*)
NOPTR(Free*)
NOPTR(const Alien*)
NOPTR(void (*)())
NOPTR(wchar_t*)
NOPTR(W*)
NOPTR(std::vector<int>*)
NOPTR(int Free::*)

// --- pointers and references into a value
#define PART(...)                                                                                \
    IS(__VA_ARGS__*, val<MV>().get<__VA_ARGS__*>())                                              \
    IS(__VA_ARGS__*, val<MV>().get_ptr<__VA_ARGS__*>())                                          \
    IS(const __VA_ARGS__*, val<MV>().get_ptr<const __VA_ARGS__*>())                              \
    IS(const __VA_ARGS__*, val<CV>().get<const __VA_ARGS__*>())                                  \
    IS(const __VA_ARGS__*, val<CV>().get_ptr<const __VA_ARGS__*>())                              \
    IS(__VA_ARGS__&, val<MV>().get<__VA_ARGS__&>())                                              \
    IS(const __VA_ARGS__&, val<MV>().get<const __VA_ARGS__&>())                                  \
    IS(const __VA_ARGS__&, val<CV>().get<const __VA_ARGS__&>())                                  \
    NO(C.template get<__VA_ARGS__&>())                                                           \
    TRUE(!std::is_convertible<CV, __VA_ARGS__*>::value)                                          \
    TRUE(!std::is_convertible<MV, __VA_ARGS__*>::value)
PART(bool)
PART(I)
PART(D)
PART(S)
PART(A)
PART(O)
NO(M.template get<int&>())
NO(M.template get<float&>())
NO(C.template get<const int&>())
NO(M.template get<Free&>())
NO(M.template get<Alien&>())
NO(M.template get<std::vector<int>&>())
NO(M.template get<char*&>())

// --- element access
IS(V&, val<MV>()[size_t(0)])
IS(const V&, val<CV>()[size_t(0)])
IS(V&, val<MV>()[val<const S&>()])
IS(const V&, val<CV>()[val<const S&>()])
IS(V&, val<MV>()["k"])
IS(const V&, val<CV>()["k"])
IS(V&, val<MV>().at(size_t(0)))
IS(const V&, val<CV>().at(size_t(0)))
IS(V&, val<MV>().at(val<const S&>()))
IS(const V&, val<CV>().at(val<const S&>()))
IS(V&, val<MV>().at("k"))
IS(const V&, val<CV>().at("k"))
IS(size_t, val<CV>().size())
IS(bool, val<CV>().empty())
IS(size_t, val<CV>().count(val<const S&>()))
IS(size_t, val<MV>().erase(val<const S&>()))
IS(void, val<MV>().erase(size_t(0)))
IS(value_constant::type, val<CV>().type())
IS(V&, val<MV>() = val<CV>())
IS(V&, val<MV>() = val<V>())
IS(V&, val<MV>() = 1)
NO(C.push_back(OF(X)))
NO(C.emplace_back(1))
NO(C.clear())
NO(C.erase(size_t(0)))
NO(C.erase(OF(const S&)))
NO(C.swap(OF(X&)))
NO(C = OF(X))
NO(M.swap(OF(X)))
NO(M.push_back(OF(Alien)))
NO(M[OF(Alien)])
NO(M.at(OF(Alien)))

// --- iterators
typedef V::iterator It;
typedef V::const_iterator CIt;
typedef V::reverse_iterator RIt;
typedef V::const_reverse_iterator CRIt;
IS(It, val<MV>().begin())
IS(It, val<MV>().end())
IS(CIt, val<CV>().begin())
IS(CIt, val<CV>().end())
IS(CIt, val<MV>().cbegin())
IS(CIt, val<MV>().cend())
IS(RIt, val<MV>().rbegin())
IS(RIt, val<MV>().rend())
IS(CRIt, val<CV>().rbegin())
IS(CRIt, val<CV>().rend())
IS(CRIt, val<MV>().crbegin())
IS(CRIt, val<MV>().crend())
IS(It, val<MV>().find(val<const S&>()))
IS(CIt, val<CV>().find(val<const S&>()))
IS(V&, *val<It>())
IS(const V&, *val<CIt>())
IS(V&, *val<RIt>())
IS(const V&, *val<CRIt>())
IS(V&, val<It>().value())
IS(const V&, val<CIt>().value())
IS(V*, val<It>().operator->())
IS(const V*, val<CIt>().operator->())
IS(const S&, val<It>().key())
IS(const S&, val<CIt>().key())
IS(It&, ++val<It&>())
IS(CIt&, ++val<CIt&>())
IS(bool, val<It>() == val<It>())
IS(bool, val<CIt>() < val<CIt>())
TRUE(std::is_same<std::iterator_traits<It>::reference, V&>::value && std::is_same<std::iterator_traits<CIt>::reference, const V&>::value)
TRUE(std::is_same<std::iterator_traits<CIt>::pointer, const V*>::value)
IS(It, val<MV>().erase(val<It>()))
IS(It, val<MV>().erase(val<It>(), val<It>()))
NO(M.erase(OF(typename X::const_reverse_iterator)))
NO(C.erase(OF(typename X::iterator)))

// --- comparison
IS(bool, val<CV>() == val<CV>())
IS(bool, val<CV>() != val<CV>())
IS(bool, val<CV>() < val<CV>())
IS(bool, val<CV>() > val<CV>())
IS(bool, val<CV>() <= val<CV>())
IS(bool, val<CV>() >= val<CV>())
IS(bool, val<CV>() == 1)
IS(bool, 1 == val<CV>())
IS(bool, val<CV>() < 1.5)
IS(bool, 1.5 < val<CV>())
IS(bool, val<CV>() == true)
IS(bool, val<CV>() == nullptr)
IS(bool, val<CV>() == "s")
IS(bool, val<CV>() != 1)
IS(bool, 1 != val<CV>())
IS(bool, val<CV>() >= 1)
IS(bool, 1 >= val<CV>())
NO(C == OF(Alien))
NO(C < OF(Alien))

// --- text
IS(void, json::dump(val<std::ostream&>(), val<CV>()))
IS(void, json::dump(val<S&>(), val<CV>()))
IS(S, json::dump(val<CV>()))
IS(std::wstring, json::dump<wchar_t>(val<CV>()))
IS(std::u16string, json::dump<char16_t>(val<CV>()))
IS(std::u32string, json::dump<char32_t>(val<CV>()))
IS(V, json::parse(val<std::istream&>()))
IS(V, json::parse(val<const S&>()))
IS(V, json::parse("1"))
IS(V, json::parse(val<std::FILE*>()))
IS(V, json::parse(L"1"))
IS(V, json::parse(u"1"))
IS(V, json::parse(U"1"))
IS(void, json::parse(val<MV>(), val<std::istream&>()))
IS(void, json::parse(val<MV>(), val<const S&>()))
IS(void, json::parse(val<MV>(), "1"))
IS(void, json::parse(val<MV>(), val<std::FILE*>()))
IS(std::wstring, wjson::dump(val<const W&>()))
IS(W, wjson::parse(L"1"))
NO(J0<X>::type::parse(C, "1"))
NO(J0<X>::type::parse(C, OF(std::istream&)))
NO(J0<X>::type::parse(OF(W&), "1"))
NO(J0<X>::type::dump(OF(std::ostream&), OF(Alien)))
NO(J0<X>::type::dump(OF(Alien)))
NO(J0<X>::type::dump(OF(std::istream&), C))
IS(std::ostream&, val<std::ostream&>() << json::wrap(val<CV>()))
IS(std::ostream&, val<std::ostream&>() << json::wrap(val<const Bound&>()))
IS(std::istream&, val<std::istream&>() >> json::wrap(val<MV>()))
IS(std::istream&, val<std::istream&>() >> json::wrap(val<Bound&>()))
NO(OF(std::istream&) >> J0<X>::type::wrap(C))
TRUE(std::is_convertible<json::array, V>::value && std::is_convertible<json::object, V>::value)

// --- errors
TRUE(std::is_base_of<std::runtime_error, configor_exception>::value)
TRUE(std::is_base_of<configor_exception, configor_type_error>::value)
TRUE(std::is_base_of<configor_exception, configor_invalid_key>::value)
TRUE(std::is_base_of<configor_exception, configor_invalid_iterator>::value)
TRUE(std::is_base_of<configor_exception, configor_deserialization_error>::value)
TRUE(std::is_base_of<configor_exception, configor_serialization_error>::value)
TRUE(std::is_convertible<configor_type_error*, std::exception*>::value)
