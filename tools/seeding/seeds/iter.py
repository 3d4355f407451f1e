I='include/configor/details/iterator.hpp'
V='include/configor/details/value.hpp'
PRE='''
#include <configor/json.hpp>
#include <sstream>
#include <iostream>
#include <string>
using namespace configor;
typedef json::value V;
'''
SEEDS=[
dict(id='s15-assign-prim',prop='C15',needs='an iterator of a scalar that is assigned to another iterator after it has moved',breaks='the assigned iterator keeps the old position within a scalar',
 edits=[(I,'''    iterator& operator=(const iterator<typename std::remove_const<_ValTy>::type>& rhs)
    {
        this->value_        = rhs.value_;
        this->array_it_     = rhs.array_it_;
        this->object_it_    = rhs.object_it_;
        this->primitive_it_ = rhs.primitive_it_;''','''    iterator& operator=(const iterator<typename std::remove_const<_ValTy>::type>& rhs)
    {
        this->value_        = rhs.value_;
        this->array_it_     = rhs.array_it_;
        this->object_it_    = rhs.object_it_;''')],
 demo=PRE+r'''int main(){ V v(1); V::const_iterator e(static_cast<const V&>(v).begin()); e = v.end(); return e == static_cast<const V&>(v).end() ? 0 : 1; }'''),
dict(id='s15-below-begin',prop='C15',needs='an iterator of a scalar moved before its beginning or two past it, then dereferenced',breaks='dereferencing outside a scalar is no longer refused except exactly at the end',
 edits=[(I,'if (primitive_it_ != 0)','if (primitive_it_ == 1)')],
 demo=PRE+r'''int main(){ V v(true); auto it = v.begin(); --it; try { (void)*it; return 1; } catch (const std::out_of_range&) { return 0; } }'''),
dict(id='s15-neg-offset',prop='C15',needs='an array iterator moved back by a negative distance',breaks='it -= d with a negative d goes the wrong way',
 edits=[(I,'''        return operator+=(-off);''','''        return operator+=(off < 0 ? off : -off);''')],
 demo=PRE+r'''int main(){ V v; v[0]=1; v[1]=2; v[2]=3; auto it = v.begin() + 1; it -= -1; return it->get<int>() == 3 ? 0 : 1; }'''),
dict(id='s15-rev-key',prop='C15',needs='key() of a reverse iterator over an object with more than one member',breaks='the key of a reverse iterator is that of the member visited before',
 edits=[(I,'''        return std::prev(this->current).key();''','''        return (this->current == std::next(std::prev(this->current), 1) && this->current != _IterTy(nullptr) ? std::prev(this->current) : this->current).key();''')],
 demo='',flags='skip'),
dict(id='s15-order-foreign',prop='C15',needs='ordering iterators of two different arrays',breaks='iterators of different values are ordered by address instead of being refused',
 edits=[(I,'''        if (value_ != other.value_)
            throw configor_invalid_iterator("cannot compare iterators of different value objects");
''','''        if (value_ != other.value_ && value_->type() != other.value_->type())
            throw configor_invalid_iterator("cannot compare iterators of different value objects");
''')],
 demo=PRE+r'''int main(){ V a, b; a[0]=1; b[0]=2; try { (void)(a.begin() < b.begin()); return 1; } catch (const configor_invalid_iterator&) { return 0; } }'''),
dict(id='s15-string-end',prop='C15',needs='iterating over a value that is an empty string',breaks='an empty string is no longer visited as one element',
 edits=[(I,'''        default:
        {
            primitive_it_.set_end();''','''        case value_constant::string:
        {
            if (value_->data().string->empty())
                primitive_it_.set_begin();
            else
                primitive_it_.set_end();
            break;
        }
        default:
        {
            primitive_it_.set_end();''')],
 demo=PRE+r'''int main(){ V v(std::string("")); int n=0; for (auto& x : v) { (void)x; ++n; } return n == 1 ? 0 : 1; }'''),
dict(id='s15-post-dec',prop='C15',needs='the result of a postfix decrement',breaks='it-- gives the iterator after the step',
 edits=[(I,'''        iterator old = (*this);
        --(*this);
        return old;
    }

    iterator& operator--()
    {
        check_data();''','''        --(*this);
        iterator old = (*this);
        return old;
    }

    iterator& operator--()
    {
        check_data();''')],
 demo=PRE+r'''int main(){ V v; v[0]=1; v[1]=2; auto it = v.begin() + 1; auto o = it--; return o->get<int>() == 2 && it->get<int>() == 1 ? 0 : 1; }'''),
]
SEEDS=[s for s in SEEDS if s.get('flags')!='skip']
