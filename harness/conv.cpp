// Conversions between C++ containers, pointers and scalars and values.  The elements are free (ports give them and are told what
// arrives); the containers are the real ones of the C++ library, whose code is analysed along.  Never executed.
#include "value_layout.hpp"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>
#define E extern "C"
extern "C" {
long ext_item(int i);                  // the element i of the source, free
long ext_old(int i);                   // the element i that was in the target before
bool ext_less(long a, long b);
bool ext_same(long a, long b);
void ext_kind(int kind, unsigned long n);
void ext_key(const void* s);
void ext_int(long i);
void ext_real(double d);
double ext_double();                   // a free number
float ext_float();
bool ext_bit();
void ext_flag(int b);
void ext_begin(int what);              // 1: from here on the library works
}
struct F { long x; };
inline bool operator<(const F& a, const F& b) { return ext_less(a.x, b.x); }
inline bool operator==(const F& a, const F& b) { return ext_same(a.x, b.x); }
namespace std { template <> struct hash<F> { size_t operator()(const F&) const { return 3; } }; }
inline void to_value(V& c, const F& u) { c = u.x; }
inline void from_value(const V& c, F& u) { u.x = c.get<long>(); }
static const char* const names[] = { "d", "b", "e", "a", "c", "r", "t", "y", "k", "g", "q", "n", "p", "m", "s", "h", "j", "o", "i", "f" };
static const char* const olds[] = { "b", "z", "f" };
inline std::string key(int i) { return std::string(names[i]); }

// ---- what a value holds
inline void show(const V& v)
{
    switch (v.type())
    {
    case value_constant::array:
    {
        const V::array_type& a = *v.data().vector;
        ext_kind(static_cast<int>(v.type()), a.size());
        for (unsigned long i = 0; i < a.size(); ++i)
            show(a[i]);
        return;
    }
    case value_constant::object:
    {
        const V::object_type& o = *v.data().object;
        ext_kind(static_cast<int>(v.type()), o.size());
        for (V::object_type::const_iterator i = o.begin(); i != o.end(); ++i)
        {
            ext_key(&i->first);
            show(i->second);
        }
        return;
    }
    case value_constant::integer:
        ext_kind(static_cast<int>(v.type()), 0);
        ext_int(v.data().integer);
        return;
    case value_constant::string:
        ext_kind(static_cast<int>(v.type()), 0);
        ext_key(v.data().string);
        return;
    case value_constant::floating:
        ext_kind(static_cast<int>(v.type()), 0);
        ext_real(v.data().floating);
        return;
    case value_constant::boolean:
        ext_kind(static_cast<int>(v.type()), 0);
        ext_flag(v.data().boolean);
        return;
    default:
        ext_kind(static_cast<int>(v.type()), 0);
    }
}
// ---- C++ objects: put(c, i, x) adds an element, shown(c) tells what there is
template <class X> struct item { static X make(long x, int) { return X(x); } };
template <> struct item<F> { static F make(long x, int) { F f = { x }; return f; } };
inline void tell(long x) { ext_int(x); }
inline void tell(const F& f) { ext_int(f.x); }
inline void tell(const V& v) { show(v); }
template <class C> void seq(const C& c)
{
    unsigned long n = 0;
    for (typename C::const_iterator i = c.begin(); i != c.end(); ++i)
        ++n;
    ext_kind(100, n);
    for (typename C::const_iterator i = c.begin(); i != c.end(); ++i)
        tell(*i);
}
template <class C> void dict(const C& c)
{
    unsigned long n = 0;
    for (typename C::const_iterator i = c.begin(); i != c.end(); ++i)
        ++n;
    ext_kind(101, n);
    for (typename C::const_iterator i = c.begin(); i != c.end(); ++i)
    {
        ext_key(&i->first);
        tell(i->second);
    }
}
#define SEQ(T, PUT)                                                                      \
    inline void put(T& c, int i, long x, const char* k) { (void)i; (void)k; F f = { x }; PUT; } \
    inline void tell(const T& c) { seq(c); }
typedef std::vector<F> vec; typedef std::deque<F> deq; typedef std::list<F> lst; typedef std::forward_list<F> fwd;
typedef std::set<F> set_; typedef std::unordered_set<F> uset; typedef std::map<std::string, F> map_; typedef std::unordered_map<std::string, F> umap;
typedef std::array<F, 3> arr; typedef F carr[3];
struct boxed { carr a; };
typedef std::unique_ptr<F> uptr; typedef std::shared_ptr<F> sptr;
typedef V::array_type avals; typedef V::object_type ovals;
typedef std::vector<std::vector<F>> vecvec; typedef std::map<std::string, std::vector<F>> mapvec; typedef std::vector<std::shared_ptr<F>> vecptr;
typedef std::map<std::string, std::map<std::string, F>> mapmap; typedef std::list<std::set<F>> lstset;
SEQ(vec, c.push_back(f)) SEQ(deq, c.push_back(f)) SEQ(lst, c.push_back(f)) SEQ(fwd, fwd::iterator p = c.before_begin(); for (fwd::iterator q = c.begin(); q != c.end(); ++q) ++p; c.insert_after(p, f))
SEQ(set_, c.insert(f)) SEQ(uset, c.insert(f)) SEQ(arr, if (i < 3) c[i] = f) SEQ(avals, c.push_back(V(x)))
inline void put(map_& c, int, long x, const char* k) { F f = { x }; c[std::string(k)] = f; }
inline void put(umap& c, int, long x, const char* k) { F f = { x }; c[std::string(k)] = f; }
inline void put(ovals& c, int, long x, const char* k) { c[std::string(k)] = V(x); }
inline void tell(const map_& c) { dict(c); }
inline void tell(const umap& c) { dict(c); }
inline void tell(const ovals& c) { dict(c); }
inline void put(uptr& c, int, long x, const char*) { c.reset(new F); c->x = x; }
inline void put(sptr& c, int, long x, const char*) { c = std::make_shared<F>(); c->x = x; }
inline void tell(const uptr& c) { ext_kind(102, c != nullptr); if (c != nullptr) tell(*c); }
inline void tell(const sptr& c) { ext_kind(102, c != nullptr); if (c != nullptr) tell(*c); }
inline void put(vecvec& c, int i, long x, const char* k) { if (i % 2 == 0) c.push_back(vec()); put(c[i / 2], i, x, k); }
inline void tell(const vecvec& c) { seq(c); }
inline void put(vecptr& c, int i, long x, const char* k) { sptr p; if (i % 2 == 0) put(p, i, x, k); c.push_back(p); }
inline void tell(const vecptr& c) { seq(c); }
inline void put(mapvec& c, int i, long x, const char* k) { put(c[std::string(names[i / 2])], i, x, k); }
inline void tell(const mapvec& c) { dict(c); }
inline void put(mapmap& c, int i, long x, const char* k) { put(c[std::string(names[i / 2])], i, x, k); }
inline void tell(const mapmap& c) { dict(c); }
inline void put(lstset& c, int i, long x, const char* k) { if (i % 2 == 0) c.push_back(set_()); put(c.back(), i, x, k); }
inline void tell(const lstset& c) { seq(c); }
template <class C> void fill(C& c, int n)
{
    for (int i = 0; i < n; ++i)
        put(c, i, ext_item(i), names[i]);
}
template <class C> void prefill(C& c, int n)
{
    for (int i = 0; i < n; ++i)
        put(c, i, ext_old(i), olds[i]);
}
// ---- values: kind 0 array, 1 object, 2.. the scalars, the last one an array with an element that is no integer
inline void build(V& v, int kind, int n)
{
    switch (kind)
    {
    case 0:
        v = V::array_type();
        for (int i = 0; i < n; ++i)
            v.push_back(V(ext_item(i)));
        return;
    case 1:
        v = V::object_type();
        for (int i = 0; i < n; ++i)
            v[std::string(names[i])] = V(ext_item(i));
        return;
    case 2: v = nullptr; return;
    case 3: v = ext_item(0); return;
    case 4: v = 1.5; return;
    case 5: v = true; return;
    case 6: v = std::string("text"); return;
    case 7:
        v = V::array_type();
        v.push_back(V(ext_item(0)));
        v.push_back(V(std::string("text")));
        return;
    case 8:
        v = V::object_type();
        v[std::string("a")] = V(ext_item(0));
        v[std::string("b")] = V(std::string("text"));
        return;
    case 9:                                // array of arrays
        v = V::array_type();
        for (int i = 0; i < n; ++i)
        {
            if (i % 2 == 0)
                v.push_back(V(V::array_type()));
            v[static_cast<size_t>(i / 2)].push_back(V(ext_item(i)));
        }
        return;
    case 10:                               // object of arrays
        v = V::object_type();
        for (int i = 0; i < n; ++i)
        {
            if (i % 2 == 0)
                v[std::string(names[i / 2])] = V::array_type();
            v[std::string(names[i / 2])].push_back(V(ext_item(i)));
        }
        return;
    case 11:                               // object of objects
        v = V::object_type();
        for (int i = 0; i < n; ++i)
        {
            if (i % 2 == 0)
                v[std::string(names[i / 2])] = V::object_type();
            v[std::string(names[i / 2])][std::string(names[i])] = V(ext_item(i));
        }
        return;
    case 12:                               // array with nulls
        v = V::array_type();
        for (int i = 0; i < n; ++i)
            v.push_back(i % 2 ? V(nullptr) : V(ext_item(i)));
        return;
    case 13:                               // array in which every element is there twice
        v = V::array_type();
        for (int i = 0; i < n; ++i)
            v.push_back(V(ext_item(i)));
        for (int i = 0; i < n; ++i)
            v.push_back(V(ext_item(i)));
        return;
    }
}
#define COMMON(T)                                                                                                                  \
    E void to_##T(int n) { T c; fill(c, n); ext_begin(1); V v(c); ext_begin(0); show(v); tell(c); }                                   \
    E void set_##T(int n) { T c; fill(c, n); V v(ext_old(0)); ext_begin(1); v = c; ext_begin(0); show(v); }                           \
    E void over_##T(int n, int kind) { T c; fill(c, n); V v; build(v, kind, 2); ext_begin(1); value_binder<T>::to_value(v, c); ext_begin(0); show(v); }                           \
    E void from_##T(int kind, int n) { V v; build(v, kind, n); ext_begin(1); T c = v.get<T>(); ext_begin(0); tell(c); show(v); }        \
    E void into_##T(int kind, int n, int pre) { T c = T(); prefill(c, pre); V v; build(v, kind, n); ext_begin(1); bool ok = v.get(c); ext_begin(0); ext_flag(ok); tell(c); }   \
    E void rt_##T(int n) { T c; fill(c, n); ext_begin(1); V v(c); T d = v.get<T>(); ext_begin(0); tell(d); }                           \
    E void bind_##T(int kind, int n, int pre) { T c = T(); prefill(c, pre); V v; build(v, kind, n); ext_begin(1); value_binder<T>::from_value(static_cast<const V&>(v), c); ext_begin(0); tell(c); }
COMMON(vec) COMMON(deq) COMMON(lst) COMMON(fwd) COMMON(set_) COMMON(uset) COMMON(map_) COMMON(umap) COMMON(arr)
COMMON(uptr) COMMON(sptr) COMMON(avals) COMMON(ovals) COMMON(vecvec) COMMON(mapvec) COMMON(vecptr) COMMON(mapmap) COMMON(lstset)
// C arrays have no get<T>()
inline void tellc(const carr& c) { ext_kind(100, 3); for (int i = 0; i < 3; ++i) tell(c[i]); }
E void to_carr(int) { carr c; for (int i = 0; i < 3; ++i) c[i].x = ext_item(i); ext_begin(1); V v(c); ext_begin(0); show(v); tellc(c); }
E void set_carr(int) { carr c; for (int i = 0; i < 3; ++i) c[i].x = ext_item(i); V v(ext_old(0)); ext_begin(1); v = c; ext_begin(0); show(v); }
E void over_carr(int, int kind) { carr c; for (int i = 0; i < 3; ++i) c[i].x = ext_item(i); V v; build(v, kind, 2); ext_begin(1); value_binder<carr>::to_value(v, c); ext_begin(0); show(v); }
E void bind_carr(int kind, int n, int) { carr c; for (int i = 0; i < 3; ++i) c[i].x = ext_old(i); V v; build(v, kind, n); ext_begin(1); value_binder<carr>::from_value(static_cast<const V&>(v), c); ext_begin(0); tellc(c); }
E int kind_of(int i)
{
    switch (i)
    {
    case 0: return static_cast<int>(value_constant::null);
    case 1: return static_cast<int>(value_constant::integer);
    case 2: return static_cast<int>(value_constant::floating);
    case 3: return static_cast<int>(value_constant::string);
    case 4: return static_cast<int>(value_constant::array);
    case 5: return static_cast<int>(value_constant::object);
    case 6: return static_cast<int>(value_constant::boolean);
    }
    return -1;
}
// ---- scalars: what was given, then what arrived
template <class T, bool = std::is_floating_point<T>::value> struct given { static T make() { return static_cast<T>(ext_item(0)); } };
template <class T> struct given<T, true> { static T make() { return static_cast<T>(ext_double()); } };
template <> struct given<float, true> { static float make() { return ext_float(); } };
template <> struct given<bool, false> { static bool make() { return ext_bit(); } };
template <> struct given<std::string, false> { static std::string make() { return std::string("text"); } };
inline void said(const std::string& s) { ext_key(&s); }
inline void said(bool b) { ext_flag(b); }
template <class T> typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type said(const T& x) { ext_int(static_cast<long>(x)); }
template <class T> typename std::enable_if<std::is_floating_point<T>::value>::type said(const T& x) { ext_real(static_cast<double>(x)); }
inline void build_s(V& v, int kind)
{
    switch (kind)
    {
    case 3: v = ext_item(0); return;
    case 4: v = ext_double(); return;
    case 5: v = ext_bit(); return;
    default: build(v, kind, 2);
    }
}
// a type without a default constructor, made from a value by its binder
struct G { long x; explicit G(long y) : x(y) {} };
namespace configor {
template <> class value_binder<G> {
public:
    static void to_value(V& c, const G& g) { c = g.x; }
    static G from_value(const V& c) { return G(c.get<long>()); }
};
}
template <> struct given<G, false> { static G make() { return G(ext_item(0)); } };
inline void said(const G& g) { ext_int(g.x); }
#define SCALAR(N, T)                                                                                                      \
    E void to_##N(int) { T x = given<T>::make(); said(x); ext_begin(1); V v(x); ext_begin(0); show(v); said(x); }            \
    E void set_##N(int k) { T x = given<T>::make(); said(x); V v; build_s(v, k); ext_begin(1); v = x; ext_begin(0); show(v); }           \
    E void from_##N(int kind, int) { V v; build_s(v, kind); show(v); ext_begin(1); T x = v.get<T>(); ext_begin(0); said(x); show(v); }          \
    E void into_##N(int kind, int, int) { T x = given<T>::make(); said(x); V v; build_s(v, kind); show(v); ext_begin(1); bool ok = v.get(x); ext_begin(0); ext_flag(ok); said(x); }  \
    E void impl_##N(int kind, int) { V v; build_s(v, kind); show(v); ext_begin(1); T x = v; ext_begin(0); said(x); show(v); }   \
    E void rt_##N(int) { T x = given<T>::make(); said(x); V v(x); ext_begin(1); T y = v.get<T>(); ext_begin(0); said(y); }
SCALAR(bool, bool) SCALAR(schar, signed char) SCALAR(uchar, unsigned char) SCALAR(short, short) SCALAR(ushort, unsigned short) SCALAR(int, int) SCALAR(uint, unsigned)
SCALAR(long, long) SCALAR(ulong, unsigned long) SCALAR(float, float) SCALAR(double, double) SCALAR(string, std::string) SCALAR(made, G)
E void to_text(int) { ext_begin(1); V v("text"); ext_begin(0); show(v); }
E void set_text(int k) { V v; build_s(v, k); ext_begin(1); v = "text"; ext_begin(0); show(v); }
E void to_nothing(int) { ext_begin(1); V v(nullptr); ext_begin(0); show(v); }
E void set_nothing(int k) { V v; build_s(v, k); ext_begin(1); v = nullptr; ext_begin(0); show(v); }
// ---- pointers to and references to what the value holds
inline void said(const V::array_type& a) { tell(a); }
inline void said(const V::object_type& a) { tell(a); }
#define POINTER(N, T)                                                                                                                                                   \
    E void ptr_##N(int kind) { V v; build_s(v, kind); show(v); ext_begin(1); T* p = v.get<T*>(); ext_begin(0); ext_flag(p != nullptr); if (p != nullptr) said(*p); show(v); }        \
    E void cptr_##N(int kind) { V v; build_s(v, kind); show(v); ext_begin(1); const T* p = static_cast<const V&>(v).get<const T*>(); ext_begin(0); ext_flag(p != nullptr); if (p != nullptr) said(*p); show(v); } \
    E void into_p##N(int kind) { V v; build_s(v, kind); show(v); const T* p = nullptr; ext_begin(1); bool ok = v.get(p); ext_begin(0); ext_flag(p != nullptr); if (p != nullptr) said(*p); show(v); ext_flag(ok); }      \
    E void ref_##N(int kind) { V v; build_s(v, kind); show(v); ext_begin(1); T& p = v.get<T&>(); ext_begin(0); ext_flag(true); said(p); show(v); }       \
    E void cref_##N(int kind) { V v; build_s(v, kind); show(v); ext_begin(1); const T& p = static_cast<const V&>(v).get<const T&>(); ext_begin(0); ext_flag(true); said(p); show(v); }
POINTER(bool, bool) POINTER(long, long) POINTER(double, double) POINTER(string, std::string) POINTER(avals, V::array_type) POINTER(ovals, V::object_type)
