V='include/configor/details/value.hpp'
C='include/configor/details/conversion.hpp'
PRE='''
#include <configor/json.hpp>
#include <string>
#include <new>
#include <cstdlib>
using namespace configor;
typedef json::value V;
'''
FAIL='''
static bool failing = false;
void* operator new(std::size_t n) { if (failing) throw std::bad_alloc(); return std::malloc(n ? n : 1); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
'''
SEEDS=[
dict(id='s24-binder-noexcept',prop='C24',also=[],needs='a user conversion to a value that throws something',breaks='the binder promises that user conversions never throw, so that one that does terminates the program',
 edits=[(C,'''    auto operator()(_ValTy& c, _Ty&& v) const noexcept(noexcept(to_value(c, std::forward<_Ty>(v))))
''','''    auto operator()(_ValTy& c, _Ty&& v) const noexcept
''')],
 demo=PRE+r'''
struct Broken {};
void to_value(V&, const Broken&) { throw std::string("refused"); }
int main(){ try { V v = Broken(); } catch (const std::string&) { return 0; } return 1; }'''),
dict(id='s24-object-ptr',prop='C24',also=[],needs='get of a const object pointer on a value of another kind',breaks='the noexcept accessor of a const object pointer goes through the checked reference access, whose type error terminates the program',
 edits=[(V,'''    inline const object_type* do_get_ptr(const object_type*) const noexcept
    {
        return is_object() ? data().object : nullptr;
''','''    inline const object_type* do_get_ptr(const object_type*) const noexcept
    {
        return std::addressof(const_cast<basic_value*>(this)->object_ref());
'''),(V,'''private:
    // get pointer value
''','''private:
    object_type& object_ref()
    {
        if (!is_object())
            throw configor_type_error("the value is not an object");
        return *data().object;
    }

    // get pointer value
''')],
 demo=PRE+r'''
int main(){ const V v = 1; try { return v.get<const V::object_type*>() == nullptr ? 0 : 1; } catch (...) { return 2; } }'''),
dict(id='s24-swap-copy',prop='C24',also=['C23'],needs='an allocation failure while two strings are swapped',breaks='swap copies a string payload and promises not to throw: a failing allocation terminates the program',
 edits=[(V,'''    inline void swap(basic_value& rhs)
    {
        std::swap(type_, rhs.type_);
''','''    inline void swap(basic_value& rhs) noexcept
    {
        if (is_string() && rhs.is_string())
        {
            string_type tmp = *data_.string;
            data_.string->swap(*rhs.data_.string);
            rhs.data_.string->swap(tmp);
            return;
        }
        std::swap(type_, rhs.type_);
''')],
 demo=PRE+FAIL+r'''
int main(){ V a = std::string(100, 'a'), b = std::string(100, 'b'); failing = true; try { a.swap(b); } catch (const std::bad_alloc&) {} failing = false; return 0; }'''),
dict(id='s24-flat-destroy',prop='C24',also=[],needs='an allocation failure while an array of arrays is destroyed',breaks='destruction collects nested arrays in a list, which allocates: a failing allocation in a destructor terminates the program',
 edits=[(V,'''        case value_constant::array:
            destroy<typename value_type::array_type>(v.data().vector);
            break;
''','''        case value_constant::array:
        {
            typename value_type::array_type pending;
            for (auto& item : *v.data().vector)
                if (item.is_array())
                    pending.push_back(std::move(item));
            while (!pending.empty())
            {
                value_type last = std::move(pending.back());
                pending.pop_back();
                for (auto& item : *last.data().vector)
                    if (item.is_array())
                        pending.push_back(std::move(item));
            }
            destroy<typename value_type::array_type>(v.data().vector);
            break;
        }
''')],
 demo=PRE+FAIL+r'''
int main(){ { V v = V::array_type{ V::array_type{ V(1) } }; failing = true; } failing = false; return 0; }'''),
dict(id='s24-clear-fresh',prop='C24',also=[],needs='an allocation failure while an object is cleared',breaks='clear is declared not to throw but makes a fresh object payload: a failing allocation terminates the program',
 edits=[(V,'''    void clear()
    {
        switch (type())
''','''    void clear() noexcept
    {
        switch (type())
'''),(V,'''            data().object->clear();
            break;
''','''            detail::value_constructor<basic_value>::template reset<value_constant::object>(*this);
            break;
''')],
 demo=PRE+FAIL+r'''
int main(){ V v; v["a"] = 1; failing = true; try { v.clear(); } catch (const std::bad_alloc&) {} failing = false; return 0; }'''),
]
