V='include/configor/details/value.hpp'
C='include/configor/details/conversion.hpp'
I='include/configor/details/iterator.hpp'
PRE='''
#include <configor/json.hpp>
#include <string>
#include <type_traits>
using namespace configor;
typedef json::value V;
'''
SEEDS=[
dict(id='s23-const-array-ptr',prop='C23',also=['C04'],needs='get of a const array pointer on a const value',breaks='a const value hands out a mutable pointer to its elements',
 edits=[(V,'''    inline const array_type* do_get_ptr(const array_type*) const noexcept
''','''    inline array_type* do_get_ptr(const array_type*) const noexcept
''')],
 demo=PRE+r'''
int main(){ return std::is_same<decltype(std::declval<const V&>().get<const V::array_type*>()), const V::array_type*>::value ? 0 : 1; }'''),
dict(id='s23-move-throws',prop='C23',also=[],needs='a growing vector of values or std::move_if_noexcept',breaks='the move constructor is no longer known not to throw, so that growing arrays copy every value',
 edits=[(V,'''    basic_value(basic_value&& other) noexcept
''','''    basic_value(basic_value&& other)
''')],
 demo=PRE+r'''
int main(){ return std::is_nothrow_move_constructible<V>::value ? 0 : 1; }'''),
dict(id='s23-pointer-bool',prop='C23',also=[],needs='a value constructed from a pointer',breaks='any pointer converts to a boolean value instead of being rejected',
 edits=[(C,'''template <typename _ValTy, typename _Ty,
          typename std::enable_if<std::is_same<_Ty, typename _ValTy::boolean_type>::value, int>::type = 0>
void to_value(_ValTy& c, _Ty v)
{
    value_constructor<_ValTy>::template reset<value_constant::boolean>(c, v);
}
''','''template <typename _ValTy, typename _Ty,
          typename std::enable_if<std::is_same<_Ty, typename _ValTy::boolean_type>::value
                                      || (std::is_pointer<_Ty>::value
                                          && !std::is_constructible<typename _ValTy::string_type, _Ty>::value),
                                  int>::type = 0>
void to_value(_ValTy& c, _Ty v)
{
    value_constructor<_ValTy>::template reset<value_constant::boolean>(c, static_cast<typename _ValTy::boolean_type>(v));
}
''')],
 demo=PRE+r'''
int main(){ return std::is_constructible<V, int*>::value || std::is_constructible<V, std::ios_base*>::value ? 1 : 0; }'''),
]
