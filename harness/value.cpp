// One entry point per operation of a value; the analysis decides what each of them does for every kind of operand.
#include "value_layout.hpp"
#include <utility>
#include <new>
typedef std::string S;
typedef json::value::array_type A;
typedef json::value::object_type O;
#define E extern "C"

// construction, destruction, assignment
E void v_default(V* r) { new (r) V(); }
E void v_null(V* r) { new (r) V(nullptr); }
E void v_kind(V* r, value_constant::type t) { new (r) V(t); }
E void v_copy(V* r, const V& a) { new (r) V(a); }
E void v_move(V* r, V& a) { new (r) V(std::move(a)); }
E void v_dtor(V& a) { a.~V(); }
E V* v_assign(V& a, const V& b) { return &(a = b); }
E V* v_massign(V& a, V& b) { return &(a = std::move(b)); }
E V* v_kassign(V& a, value_constant::type t) { return &(a = t); }
E void v_swap(V& a, V& b) { a.swap(b); }
E void v_stdswap(V& a, V& b) { std::swap(a, b); }
E void v_clear(V& a) { a.clear(); }

// construction from scalars and strings
E void v_from_bool(V* r, bool x) { new (r) V(x); }
E void v_from_char(V* r, signed char x) { new (r) V(x); }
E void v_from_short(V* r, short x) { new (r) V(x); }
E void v_from_int(V* r, int x) { new (r) V(x); }
E void v_from_uint(V* r, unsigned x) { new (r) V(x); }
E void v_from_long(V* r, long x) { new (r) V(x); }
E void v_from_llong(V* r, long long x) { new (r) V(x); }
E void v_from_float(V* r, float x) { new (r) V(x); }
E void v_from_double(V* r, double x) { new (r) V(x); }
E void v_from_string(V* r, const S& s) { new (r) V(s); }
E void v_from_mstring(V* r, S& s) { new (r) V(std::move(s)); }
E void v_from_cstr(V* r, const char* s) { new (r) V(s); }
E V* v_set_int(V& a, int x) { return &(a = x); }
E V* v_set_double(V& a, double x) { return &(a = x); }
E V* v_set_bool(V& a, bool x) { return &(a = x); }
E V* v_set_string(V& a, const S& s) { return &(a = s); }
E V* v_set_cstr(V& a, const char* s) { return &(a = s); }
E V* v_set_null(V& a) { return &(a = nullptr); }

// queries
E int q_type(const V& a) { return static_cast<int>(a.type()); }
E bool q_is_object(const V& a) { return a.is_object(); }
E bool q_is_array(const V& a) { return a.is_array(); }
E bool q_is_string(const V& a) { return a.is_string(); }
E bool q_is_bool(const V& a) { return a.is_bool(); }
E bool q_is_integer(const V& a) { return a.is_integer(); }
E bool q_is_floating(const V& a) { return a.is_floating(); }
E bool q_is_number(const V& a) { return a.is_number(); }
E bool q_is_null(const V& a) { return a.is_null(); }
E size_t q_size(const V& a) { return a.size(); }
E bool q_empty(const V& a) { return a.empty(); }
E size_t q_count(const V& a, const S& k) { return a.count(k); }
E const V* q_find(const V& a, const S& k)
{
    auto it = a.find(k);
    return it == a.end() ? nullptr : &*it;
}
E const V* q_at_i(const V& a, size_t i) { return &a.at(i); }
E const V* q_at_k(const V& a, const S& k) { return &a.at(k); }
E const V* q_at_cs(const V& a, const char* k) { return &a.at(k); }
E const V* q_idx_i(const V& a, size_t i) { return &a[i]; }
E const V* q_idx_k(const V& a, const S& k) { return &a[k]; }
E const V* q_idx_cs(const V& a, const char* k) { return &a[k]; }
E const bool* q_ptr_bool(const V& a) { return a.get_ptr<const bool*>(); }
E const int64_t* q_ptr_int(const V& a) { return a.get_ptr<const int64_t*>(); }
E const double* q_ptr_float(const V& a) { return a.get_ptr<const double*>(); }
E const S* q_ptr_string(const V& a) { return a.get_ptr<const S*>(); }
E const A* q_ptr_array(const V& a) { return a.get_ptr<const A*>(); }
E const O* q_ptr_object(const V& a) { return a.get_ptr<const O*>(); }
E const bool* q_get_bool(const V& a) { return a.get<const bool*>(); }
E const int64_t* q_get_int(const V& a) { return a.get<const int64_t*>(); }
E const double* q_get_float(const V& a) { return a.get<const double*>(); }
E const S* q_get_string(const V& a) { return a.get<const S*>(); }
E const A* q_get_array(const V& a) { return a.get<const A*>(); }
E const O* q_get_object(const V& a) { return a.get<const O*>(); }
E const bool* q_ref_bool(const V& a) { return &a.get<const bool&>(); }
E const int64_t* q_ref_int(const V& a) { return &a.get<const int64_t&>(); }
E const double* q_ref_float(const V& a) { return &a.get<const double&>(); }
E const S* q_ref_string(const V& a) { return &a.get<const S&>(); }
E const A* q_ref_array(const V& a) { return &a.get<const A&>(); }
E const O* q_ref_object(const V& a) { return &a.get<const O&>(); }
E void q_get_value(V* r, const V& a) { new (r) V(a.get<V>()); }

// mutable access
E V* m_find(V& a, const S& k)
{
    auto it = a.find(k);
    return it == a.end() ? nullptr : &*it;
}
E V* m_at_i(V& a, size_t i) { return &a.at(i); }
E V* m_at_k(V& a, const S& k) { return &a.at(k); }
E V* m_at_cs(V& a, const char* k) { return &a.at(k); }
E V* m_idx_i(V& a, size_t i) { return &a[i]; }
E V* m_idx_k(V& a, const S& k) { return &a[k]; }
E V* m_idx_cs(V& a, const char* k) { return &a[k]; }
E bool* m_ptr_bool(V& a) { return a.get_ptr<bool*>(); }
E int64_t* m_ptr_int(V& a) { return a.get_ptr<int64_t*>(); }
E double* m_ptr_float(V& a) { return a.get_ptr<double*>(); }
E S* m_ptr_string(V& a) { return a.get_ptr<S*>(); }
E A* m_ptr_array(V& a) { return a.get_ptr<A*>(); }
E O* m_ptr_object(V& a) { return a.get_ptr<O*>(); }
E bool* m_get_bool(V& a) { return a.get<bool*>(); }
E int64_t* m_get_int(V& a) { return a.get<int64_t*>(); }
E double* m_get_float(V& a) { return a.get<double*>(); }
E S* m_get_string(V& a) { return a.get<S*>(); }
E A* m_get_array(V& a) { return a.get<A*>(); }
E O* m_get_object(V& a) { return a.get<O*>(); }
E bool* m_ref_bool(V& a) { return &a.get<bool&>(); }
E int64_t* m_ref_int(V& a) { return &a.get<int64_t&>(); }
E double* m_ref_float(V& a) { return &a.get<double&>(); }
E S* m_ref_string(V& a) { return &a.get<S&>(); }
E A* m_ref_array(V& a) { return &a.get<A&>(); }
E O* m_ref_object(V& a) { return &a.get<O&>(); }
E void m_push(V& a, const V& b) { a.push_back(b); }
E void m_pushm(V& a, V& b) { a.push_back(std::move(b)); }
E void m_emplace_int(V& a, int x) { a.emplace_back(x); }
E void m_emplace_cstr(V& a, const char* s) { a.emplace_back(s); }
E void m_emplace_copy(V& a, const V& b) { a.emplace_back(b); }
E void m_push_cstr(V& a, const char* s) { a.push_back(s); }
E size_t m_erase_k(V& a, const S& k) { return a.erase(k); }
E void m_erase_i(V& a, size_t i) { a.erase(i); }
E void m_erase_begin(V& a) { a.erase(a.begin()); }
E void m_erase_all(V& a) { a.erase(a.begin(), a.end()); }
E void m_erase_none(V& a) { a.erase(a.end(), a.end()); }
E void m_erase_tail(V& a, size_t i) { a.erase(a.begin() + static_cast<std::ptrdiff_t>(i), a.end()); }
E void m_erase_head(V& a, size_t i) { a.erase(a.begin(), a.begin() + static_cast<std::ptrdiff_t>(i)); }
E void m_erase_at(V& a, size_t i) { a.erase(a.begin() + static_cast<std::ptrdiff_t>(i)); }

// comparison
#define CMP(n, op)                                                      \
    E bool c_##n(const V& a, const V& b) { return a op b; }             \
    E bool c_##n##_int(const V& a, int x) { return a op x; }            \
    E bool c_##n##_bool(const V& a, bool x) { return a op x; }          \
    E bool c_##n##_double(const V& a, double x) { return a op x; }      \
    E bool c_##n##_cstr(const V& a, const char* x) { return a op x; }   \
    E bool c_##n##_null(const V& a) { return a op nullptr; }            \
    E bool r_##n##_int(int x, const V& a) { return x op a; }            \
    E bool r_##n##_bool(bool x, const V& a) { return x op a; }          \
    E bool r_##n##_double(double x, const V& a) { return x op a; }      \
    E bool r_##n##_cstr(const char* x, const V& a) { return x op a; }   \
    E bool r_##n##_null(const V& a) { return nullptr op a; }
CMP(eq, ==)
CMP(ne, !=)
CMP(lt, <)
CMP(le, <=)
CMP(gt, >)
CMP(ge, >=)

// assignment from a part of the value itself
E V* v_assign_elem(V& a, size_t i) { return &(a = a.at(i)); }
E V* v_massign_elem(V& a, size_t i) { return &(a = std::move(a.at(i))); }
E V* v_assign_member(V& a, const S& k) { return &(a = a.at(k)); }
E V* v_massign_member(V& a, const S& k) { return &(a = std::move(a.at(k))); }
E void v_swap_elem(V& a, size_t i) { V& e = a.at(i); V t(std::move(e)); a.swap(t); }

// replacing the content of an existing value
typedef detail::value_constructor<V> VC;
E void v_reset_null(V& a) { VC::reset<value_constant::null>(a); }
E void v_reset_bool(V& a, bool x) { VC::reset<value_constant::boolean>(a, x); }
E void v_reset_int(V& a, int64_t x) { VC::reset<value_constant::integer>(a, x); }
E void v_reset_float(V& a, double x) { VC::reset<value_constant::floating>(a, x); }
E void v_reset_string(V& a, const S& x) { VC::reset<value_constant::string>(a, x); }
E void v_reset_array(V& a, const A& x) { VC::reset<value_constant::array>(a, x); }
E void v_reset_object(V& a, const O& x) { VC::reset<value_constant::object>(a, x); }
E void v_reset_array0(V& a) { VC::reset<value_constant::array>(a); }
E void v_reset_object0(V& a) { VC::reset<value_constant::object>(a); }

// conversions of the caller's own types that may fail
struct U { int x; };
void ext_to_value(V& v, const U& u);
void ext_from_value(const V& v, U& u);
namespace configor
{
template <>
class value_binder<U>
{
public:
    static void to_value(V& v, const U& u) { ext_to_value(v, u); }
    static void from_value(const V& v, U& u) { ext_from_value(v, u); }
};
}
E void v_from_user(V* r, const U& u) { new (r) V(u); }
E V* v_set_user(V& a, const U& u) { return &(a = u); }
E void m_push_user(V& a, const U& u) { a.push_back(u); }
E void m_emplace_user(V& a, const U& u) { a.emplace_back(u); }
E bool q_get_user(const V& a, U& u) { return a.get(u); }
