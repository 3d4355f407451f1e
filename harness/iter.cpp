// One entry point per use of an iterator: where it starts, what is done to it, what it gives then.
#include "value_layout.hpp"
#include <utility>
#include <new>
typedef std::string S;
typedef V::iterator It;
typedef V::const_iterator CIt;
typedef V::reverse_iterator RIt;
typedef V::const_reverse_iterator CRIt;
typedef std::ptrdiff_t D;
#define E extern "C"

// OP(name, result, body) for an iterator `it` that starts at START
#define USE(c, v, T, CT, s, par, start)                                                                     \
    E v* i##c##_##s##_deref(v& a par) { T it = start; return &*it; }                                        \
    E v* i##c##_##s##_arrow(v& a par) { T it = start; return it.operator->(); }                             \
    E v* i##c##_##s##_value(v& a par) { T it = start; return &it.value(); }                                 \
    E v* i##c##_##s##_inc(v& a par) { T it = start; ++it; return &*it; }                                    \
    E v* i##c##_##s##_incret(v& a par) { T it = start; return &*++it; }                                     \
    E v* i##c##_##s##_pincold(v& a par) { T it = start; T o = it++; return &*o; }                           \
    E v* i##c##_##s##_pincnew(v& a par) { T it = start; it++; return &*it; }                                \
    E v* i##c##_##s##_dec(v& a par) { T it = start; --it; return &*it; }                                    \
    E v* i##c##_##s##_decret(v& a par) { T it = start; return &*--it; }                                     \
    E v* i##c##_##s##_pdecold(v& a par) { T it = start; T o = it--; return &*o; }                           \
    E v* i##c##_##s##_pdecnew(v& a par) { T it = start; it--; return &*it; }                                \
    E const S* i##c##_##s##_key(v& a par) { T it = start; return &it.key(); }                               \
    E const V* i##c##_##s##_conv(v& a par) { T it = start; CT x(it); return &*x; }                          \
    E const V* i##c##_##s##_convassign(v& a par) { T it = start; CT x(nullptr); x = it; return &*x; }       \
    E v* i##c##_##s##_copyassign(v& a par) { T it = start; T x(nullptr); x = it; return &*x; }              \
    E bool i##c##_##s##_isend(v& a par) { T it = start; return it == a.end(); }                             \
    E bool i##c##_##s##_notend(v& a par) { T it = start; return it != a.end(); }                            \
    E bool i##c##_##s##_isbegin(v& a par) { T it = start; return it == a.begin(); }
#define NOTHING
#define INDEX , size_t i
#define KEY , const S& k
#define BOTH(c, v, T)                                             \
    USE(c, v, T, CIt, b, NOTHING, a.begin())                      \
    USE(c, v, T, CIt, e, NOTHING, a.end())                        \
    USE(c, v, T, CIt, p, INDEX, a.begin() + static_cast<D>(i))    \
    USE(c, v, T, CIt, q, INDEX, a.end() - static_cast<D>(i))      \
    USE(c, v, T, CIt, f, KEY, a.find(k))
BOTH(m, V, It)
BOTH(c, const V, CIt)
USE(k, const V, CIt, CIt, b, NOTHING, a.cbegin())
USE(k, const V, CIt, CIt, e, NOTHING, a.cend())

// reverse
#define RUSE(c, v, T, s, start, b, e)                                                        \
    E v* r##c##_##s##_deref(v& a) { T it = start; return &*it; }                             \
    E v* r##c##_##s##_arrow(v& a) { T it = start; return it.operator->(); }                  \
    E v* r##c##_##s##_value(v& a) { T it = start; return &it.value(); }                      \
    E v* r##c##_##s##_inc(v& a) { T it = start; ++it; return &*it; }                         \
    E v* r##c##_##s##_pincold(v& a) { T it = start; T o = it; it++; return &*o; }            \
    E v* r##c##_##s##_dec(v& a) { T it = start; --it; return &*it; }                         \
    E const S* r##c##_##s##_key(v& a) { T it = start; return &it.key(); }                    \
    E bool r##c##_##s##_isend(v& a) { T it = start; return it == a.e(); }                    \
    E bool r##c##_##s##_notend(v& a) { T it = start; return it != a.e(); }                   \
    E bool r##c##_##s##_isbegin(v& a) { T it = start; return it == a.b(); }
RUSE(m, V, RIt, b, a.rbegin(), rbegin, rend)
RUSE(m, V, RIt, e, a.rend(), rbegin, rend)
RUSE(c, const V, CRIt, b, a.rbegin(), rbegin, rend)
RUSE(c, const V, CRIt, e, a.rend(), rbegin, rend)
RUSE(k, const V, CRIt, b, a.crbegin(), crbegin, crend)
RUSE(k, const V, CRIt, e, a.crend(), crbegin, crend)

// offsets and order, two positions of one value
#define POS(x) (a.begin() + static_cast<D>(x))
#define OFF(c, v, T)                                                                                           \
    E v* o##c##_add(v& a, size_t i, D d) { T it = POS(i); return &*(it + d); }                                 \
    E v* o##c##_sub(v& a, size_t i, D d) { T it = POS(i); return &*(it - d); }                                 \
    E v* o##c##_addto(v& a, size_t i, D d) { T it = POS(i); it += d; return &*it; }                            \
    E v* o##c##_addret(v& a, size_t i, D d) { T it = POS(i); return &*(it += d); }                             \
    E v* o##c##_subfrom(v& a, size_t i, D d) { T it = POS(i); it -= d; return &*it; }                          \
    E v* o##c##_addkeep(v& a, size_t i, D d) { T it = POS(i); (void)(it + d); return &*it; }                   \
    E v* o##c##_obj_add(v& a, D d) { T it = a.begin(); it += d; return &*it; }                                 \
    E v* o##c##_obj_sub(v& a, D d) { T it = a.begin(); it -= d; return &*it; }                                 \
    E D o##c##_diff(v& a, size_t i, size_t j) { T x = POS(i), y = POS(j); return x - y; }                      \
    E bool o##c##_eq(v& a, size_t i, size_t j) { T x = POS(i), y = POS(j); return x == y; }                    \
    E bool o##c##_ne(v& a, size_t i, size_t j) { T x = POS(i), y = POS(j); return x != y; }                    \
    E bool o##c##_lt(v& a, size_t i, size_t j) { T x = POS(i), y = POS(j); return x < y; }                     \
    E bool o##c##_gt(v& a, size_t i, size_t j) { T x = POS(i), y = POS(j); return x > y; }                     \
    E bool o##c##_le(v& a, size_t i, size_t j) { T x = POS(i), y = POS(j); return x <= y; }                    \
    E bool o##c##_ge(v& a, size_t i, size_t j) { T x = POS(i), y = POS(j); return x >= y; }                    \
    E D o##c##_span(v& a) { return a.end() - a.begin(); }                                                      \
    E bool o##c##_spanlt(v& a) { return a.begin() < a.end(); }                                                 \
    E D o##c##_two_diff(v& a, v& b) { return a.begin() - b.begin(); }                                          \
    E bool o##c##_two_eq(v& a, v& b) { return a.begin() == b.begin(); }                                        \
    E bool o##c##_two_ne(v& a, v& b) { return a.begin() != b.begin(); }                                        \
    E bool o##c##_two_lt(v& a, v& b) { return a.begin() < b.begin(); }                                         \
    E bool o##c##_two_gt(v& a, v& b) { return a.begin() > b.begin(); }                                         \
    E bool o##c##_two_le(v& a, v& b) { return a.begin() <= b.begin(); }                                        \
    E bool o##c##_two_ge(v& a, v& b) { return a.begin() >= b.begin(); }                                        \
    E v* z##c##_deref(v& a) { T it(nullptr); return &*it; }                                                    \
    E v* z##c##_inc(v& a) { T it(nullptr); ++it; return nullptr; }                                             \
    E v* z##c##_dec(v& a) { T it(nullptr); --it; return nullptr; }                                             \
    E v* z##c##_add(v& a, D d) { T it(nullptr); it += d; return nullptr; }                                     \
    E v* z##c##_sub(v& a, D d) { T it(nullptr); it -= d; return nullptr; }                                     \
    E const S* z##c##_key(v& a) { T it(nullptr); return &it.key(); }                                           \
    E D z##c##_diff(v& a) { T it(nullptr); return it - a.begin(); }                                            \
    E D z##c##_rdiff(v& a) { T it(nullptr); return a.begin() - it; }                                           \
    E bool z##c##_lt(v& a) { T it(nullptr); return it < a.begin(); }                                           \
    E bool z##c##_gt(v& a) { T it(nullptr); return it > a.begin(); }                                           \
    E bool z##c##_eq(v& a) { T it(nullptr); return it == a.begin(); }                                          \
    E bool z##c##_req(v& a) { T it(nullptr); return a.begin() == it; }                                         \
    E bool z##c##_ne(v& a) { T it(nullptr); return it != a.begin(); }
OFF(m, V, It)
OFF(c, const V, CIt)

// whole traversals
void ext_visit(const V& v);
E void t_range(V& a) { for (V& x : a) ext_visit(x); }
E void t_crange(const V& a) { for (const V& x : a) ext_visit(x); }
E void t_loop(V& a) { for (It it = a.begin(); it != a.end(); it++) ext_visit(it.value()); }
E void t_cloop(const V& a) { for (CIt it = a.cbegin(); it != a.cend(); ++it) ext_visit(*it); }
E void t_back(V& a) { for (It it = a.end(); it != a.begin();) ext_visit(*--it); }
E void t_rev(V& a) { for (RIt it = a.rbegin(); it != a.rend(); ++it) ext_visit(it.value()); }
E void t_crev(const V& a) { for (CRIt it = a.crbegin(); it != a.crend(); it++) ext_visit(*it); }
E void t_rback(V& a) { for (RIt it = a.rend(); it != a.rbegin();) ext_visit(*--it); }
