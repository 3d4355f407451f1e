V='include/configor/details/value.hpp'
SE='include/configor/details/serializer.hpp'
J='include/configor/json.hpp'
PRE='''
#include <configor/json.hpp>
#include <sstream>
#include <iostream>
#include <cstdlib>
#include <cmath>
#include <new>
#include <limits>
#include <thread>
using namespace configor;
typedef json::value V;
'''
FAIL=PRE+'''
static long live=0, fuse=-1;
void* operator new(std::size_t n){ if(fuse==0) throw std::bad_alloc(); if(fuse>0) --fuse; void*p=std::malloc(n?n:1); if(!p) throw std::bad_alloc(); ++live; return p; }
void operator delete(void*p) noexcept { if(p){ --live; std::free(p);} }
void operator delete(void*p,std::size_t) noexcept { if(p){ --live; std::free(p);} }
'''
SEEDS=[
dict(id='s02-assign-noswap',prop='C02',also=['C03'],needs='an allocation that fails while a value is copied over another one',breaks='assignment destroys the old payload before the copy exists, so a failing copy leaves a dangling payload that is released twice',
 edits=[(V,'''            basic_value tmp{ rhs };
            this->swap(tmp);''','''            this->~basic_value();
            new (this) basic_value(rhs);''')],
 demo=FAIL+r'''int main(){ V a(std::string(100,'a')), b(std::string(100,'b')); fuse=0; bool thrown=false; try { a = b; } catch (const std::bad_alloc&) { thrown=true; } fuse=-1; bool ok = thrown && a.is_string() && a.get<std::string>() == std::string(100,'a'); std::_Exit(ok ? 0 : 1); }'''),
dict(id='s02-empty-share',prop='C02',also=['C03'],needs='an empty array that is copied, both copies used later',breaks='a copy of an empty array shares its payload with the source',
 edits=[(V,'''            accessor::template construct<value_constant::array>(*this, *other.data().vector);''','''            if (other.data().vector->capacity() == 0)
                data_ = other.data_;
            else
                accessor::template construct<value_constant::array>(*this, *other.data().vector);''')],
 demo=PRE+r'''int main(){ V* a = new V(value_constant::array); V* b = new V(*a); a->push_back(1); std::_Exit(b->size() == 0 ? 0 : 1); }'''),
dict(id='s02-destroy-empty-string',prop='C02',needs='a value that holds an empty string is destroyed',breaks='the payload of an empty string is never released',
 edits=[(V,'''            destroy<typename value_type::string_type>(v.data().string);
            break;''','''            if (!v.data().string->empty())
                destroy<typename value_type::string_type>(v.data().string);
            break;''')],
 demo=FAIL+r'''int main(){ { V w(""); } long n = live; for (int i=0;i<10;++i) { V v(""); } std::_Exit(live == n ? 0 : 1); }'''),
dict(id='s03-swap-bool',prop='C03',needs='two values of the same kind that are swapped',breaks='values of the same kind keep their payloads when both are null or boolean',
 edits=[(V,'''        std::swap(type_, rhs.type_);
        std::swap(data_, rhs.data_);''','''        if (type_ == rhs.type_ && type_ == value_constant::boolean)
            return;
        std::swap(type_, rhs.type_);
        std::swap(data_, rhs.data_);''')],
 demo=PRE+r'''int main(){ V a(true), b(false); a.swap(b); return !a.get<bool>() && b.get<bool>() ? 0 : 1; }'''),
dict(id='s03-move-scalar',prop='C03',needs='a scalar value that is moved from and used again',breaks='moving an integer, float or boolean leaves the source as it was instead of null',
 edits=[(V,'''        other.type(value_constant::null);
        other.data().object = nullptr;''','''        if (!other.is_number() && !other.is_bool())
        {
            other.type(value_constant::null);
            other.data().object = nullptr;
        }''')],
 demo=PRE+r'''int main(){ V a(5); V b(std::move(a)); return a.is_null() && b.get<int>() == 5 ? 0 : 1; }'''),
dict(id='s03-massign-part',prop='C03',also=['C02'],needs='a value that is assigned from one of its own elements by move',breaks='move assignment destroys the old payload first, which holds the element that is being assigned',
 edits=[(V,'''            basic_value old{ std::move(*this) };
            this->swap(rhs);''','''            detail::value_constructor<basic_value>::destroy(*this);
            type_      = rhs.type_;
            data_      = rhs.data_;
            rhs.type_  = value_constant::null;''')],
 flags='-fsanitize=address -g',
 demo=PRE+r'''int main(){ V a; a[0]=std::string(50,'x'); a[1]=2; a = std::move(a[0]); return a.is_string() && a.get<std::string>() == std::string(50,'x') ? 0 : 1; }'''),
dict(id='s16-extend-gap',prop='C16',needs='mutable operator[] with an index far past the end of a non-empty array',breaks='the array grows to twice the gap when more than one element is missing',
 edits=[(V,'data().vector->insert(data().vector->end(), index - data().vector->size() + 1, basic_value());','data().vector->insert(data().vector->end(), data().vector->empty() ? index + 1 : (index - data().vector->size()) * 2 + 1, basic_value());')],
 demo=PRE+r'''int main(){ V v; v[0]=1; v[3]=4; return v.size() == 4 ? 0 : 1; }'''),
dict(id='s22-nan-ge',prop='C22',needs='an ordering comparison where one side is not a number',breaks='>= is no longer the negation of < when a float is not a number',
 edits=[(V,'''    friend inline bool operator>=(const basic_value& lhs, const basic_value& rhs)
    {
        return !(lhs < rhs);
    }''','''    friend inline bool operator>=(const basic_value& lhs, const basic_value& rhs)
    {
        return rhs < lhs || lhs == rhs;
    }''')],
 demo=PRE+r'''int main(){ V a(std::numeric_limits<double>::quiet_NaN()), b(1.0); return (a >= b) == !(a < b) ? 0 : 1; }'''),
dict(id='s22-mixed-cast',prop='C22',needs='an integer compared with a float that has a fraction',breaks='an integer and a float are compared after the fraction of the float was cut off',
 edits=[(V,'return static_cast<float_type>(lhs.data().integer) == rhs.data().floating;','return lhs.data().integer == static_cast<integer_type>(rhs.data().floating);')],
 demo=PRE+r'''int main(){ return V(3) == V(3.5) ? 1 : 0; }'''),
dict(id='s22-bool-lt',prop='C22',needs='false compared with true by <',breaks='booleans are never ordered',
 edits=[(V,'return (lhs.data().boolean < rhs.data().boolean);','return lhs.data().boolean && lhs.data().boolean < rhs.data().boolean;')],
 demo=PRE+r'''int main(){ return V(false) < V(true) ? 0 : 1; }'''),
dict(id='s04-find-touch',prop='C04',needs='const find, at or operator[] with a key that is missing',breaks='a const lookup through the mutable map operator creates the missing member before it reports it as missing',
 edits=[(V,'''        auto iter = data().object->find(key);
        if (iter == data().object->end())
        {
            throw std::out_of_range("operator[] key out of range");
        }
        return iter->second;
    }

    template <typename _CharTy>
    basic_value& at(_CharTy* key)''','''        const auto count = data().object->size();
        auto&      found = (*data().object)[key];
        if (data().object->size() != count)
        {
            throw std::out_of_range("operator[] key out of range");
        }
        return found;
    }

    template <typename _CharTy>
    basic_value& at(_CharTy* key)''')],
 demo=PRE+r'''int main(){ V v; v["a"]=1; const V& c=v; try { c.at(std::string("b")); } catch (const std::out_of_range&) {} return v.size() == 1 ? 0 : 1; }'''),
dict(id='s01-copy-bool-wide',prop='C01',needs='a conversion of the caller that turns a large integer into false in place, and a copy of the result',breaks='copying a boolean reads the integer member of the union, which may hold more bits than the boolean',
 edits=[(V,"accessor::template construct<value_constant::boolean>(*this, other.data().boolean);","accessor::template construct<value_constant::boolean>(*this, other.data().integer != 0);")],
 demo=PRE+r"""typedef detail::value_constructor<V> VC; int main(){ V v(256); VC::reset<value_constant::boolean>(v, false); V w(v); return w.get<bool>() ? 1 : 0; }"""),
dict(id='s04-static-codepoint',prop='C04',needs='two threads that dump values with strings at the same time',breaks='the character being written is kept in a variable with static storage that all serializers share',
 edits=[(J,"""iss{ &buf };

        uint32_t codepoint = 0;""","""iss{ &buf };

        static uint32_t codepoint = 0;""")], flags='-pthread',
 demo=PRE+r"""#include <atomic>
std::atomic<int> bad(0);
void go(char c){ std::string s(20000,c); V v(s); std::string want = '"'+s+'"'; for(int i=0;i<100 && !bad;++i) if (json::dump(v)!=want) bad=1; }
int main(){ std::thread a(go,'a'), b(go,'b'), c(go,'c'), d(go,'d'); a.join(); b.join(); c.join(); d.join(); return bad; }"""),
dict(id='s16-push-object',prop='C16',needs='push_back on an empty object',breaks='push_back on an empty object silently turns it into an array',
 edits=[(V,"""        if (!is_null() && !is_array())
        {
            throw configor_type_error("use push_back() or emplace_back() with non-array value");
        }
        if (is_null())""","""        if (!empty() && !is_array())
        {
            throw configor_type_error("use push_back() or emplace_back() with non-array value");
        }
        if (!is_array())""")],
 demo=PRE+r"""int main(){ V v(value_constant::object); try { v.push_back(1); } catch (const configor_type_error&) { return v.is_object() ? 0 : 1; } return 1; }"""),
]
