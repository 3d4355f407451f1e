// Witnesses decided by the type system: what can be reached from a const value is const.
#include "value_layout.hpp"
#include <type_traits>
#include <utility>
typedef std::string S;
typedef V::array_type A;
typedef V::object_type O;
typedef const V& CV;
template <class T> struct ro : std::false_type {};
template <class T> struct ro<const T&> : std::true_type {};
template <class T> struct ro<const T*> : std::true_type {};
template <class T> struct ro<T* const&> : std::is_const<T> {};
#define CV_ std::declval<CV>()
#define CONST(...) static_assert(ro<decltype(__VA_ARGS__)>::value, #__VA_ARGS__);
#define VALUE(...) static_assert(!std::is_reference<decltype(__VA_ARGS__)>::value && !std::is_pointer<decltype(__VA_ARGS__)>::value, #__VA_ARGS__);
CONST(CV_[size_t(0)])
CONST(CV_[std::declval<const S&>()])
CONST(CV_["k"])
CONST(CV_.at(size_t(0)))
CONST(CV_.at(std::declval<const S&>()))
CONST(CV_.at("k"))
CONST(*CV_.begin())
CONST(*CV_.cbegin())
CONST(*CV_.end())
CONST(*CV_.cend())
CONST(*CV_.rbegin())
CONST(*CV_.crbegin())
CONST(*CV_.rend())
CONST(*CV_.crend())
CONST(*CV_.find(std::declval<const S&>()))
CONST(CV_.begin().value())
CONST(CV_.rbegin().value())
CONST(CV_.begin().key())
CONST(CV_.begin().operator->())
CONST(*std::declval<V&>().cbegin())
CONST(*std::declval<V&>().cend())
CONST(*std::declval<V&>().crbegin())
CONST(CV_.get_ptr<S*>())
CONST(CV_.get_ptr<A*>())
CONST(CV_.get_ptr<O*>())
CONST(CV_.get_ptr<bool*>())
CONST(CV_.get_ptr<int64_t*>())
CONST(CV_.get_ptr<double*>())
CONST(CV_.get_ptr<const S*>())
CONST(CV_.get_ptr<const A*>())
CONST(CV_.get_ptr<const O*>())
CONST(CV_.get<const S*>())
CONST(CV_.get<const A*>())
CONST(CV_.get<const O*>())
CONST(CV_.get<const S&>())
CONST(CV_.get<const A&>())
CONST(CV_.get<const O&>())
CONST(CV_.get<const int64_t&>())
CONST(CV_.data())
VALUE(CV_.get<V>())
VALUE(CV_.type())
VALUE(CV_.size())

// what must not compile on a const value
#define NONE(name, ...)                                                                           \
    template <class T, class = void> struct name : std::true_type {};                             \
    template <class T> struct name<T, decltype(void(__VA_ARGS__))> : std::false_type {};          \
    static_assert(name<CV>::value, #__VA_ARGS__ " compiles on a const value");
NONE(no_ref_s, std::declval<T>().template get<S&>())
NONE(no_ref_a, std::declval<T>().template get<A&>())
NONE(no_ref_o, std::declval<T>().template get<O&>())
NONE(no_ref_i, std::declval<T>().template get<int64_t&>())
NONE(no_ref_b, std::declval<T>().template get<bool&>())
NONE(no_ref_f, std::declval<T>().template get<double&>())
NONE(no_push, std::declval<T>().push_back(1))
NONE(no_emplace, std::declval<T>().emplace_back(1))
NONE(no_clear, std::declval<T>().clear())
NONE(no_erase_k, std::declval<T>().erase(std::declval<const S&>()))
NONE(no_erase_i, std::declval<T>().erase(size_t(0)))
NONE(no_swap, std::declval<T>().swap(std::declval<V&>()))
NONE(no_assign, std::declval<T>() = std::declval<CV>())
NONE(no_massign, std::declval<T>() = std::declval<V&&>())
