C='include/configor/details/conversion.hpp'
D='include/configor/details/value.hpp'
PRE='''
#include <configor/json.hpp>
#include <string>
using namespace configor;
typedef json::value V;
'''
SEEDS=[
dict(id='s17-vector-tail',prop='C17',needs='reading a value into a vector that has more elements than the value',breaks='the elements a vector had before stay behind the elements of the value',
 edits=[(C,'''void from_value(const _ValTy& c, std::vector<_Ty>& v)
{
    v.resize(c.size());
''','''void from_value(const _ValTy& c, std::vector<_Ty>& v)
{
    if (v.size() < c.size())
        v.resize(c.size());
''')],
 demo=PRE+r'''
int main(){ V v = json::array{1,2}; std::vector<int> t{7,8,9}; return v.get(t) && t == std::vector<int>({1,2}) ? 0 : 1; }'''),
dict(id='s17-set-stale',prop='C17',needs='reading a value into a set that is not empty',breaks='a set keeps the elements it had before, when the value has no more elements than the set',
 edits=[(C,'''void from_value(const _ValTy& c, std::set<_Ty>& v)
{
    v.clear();
''','''void from_value(const _ValTy& c, std::set<_Ty>& v)
{
    if (c.size() > v.size())
        v.clear();
''')],
 demo=PRE+r'''
int main(){ V v = json::array{1,2}; std::set<int> t{7,8,9}; return v.get(t) && t == std::set<int>({1,2}) ? 0 : 1; }'''),
dict(id='s17-map-merge',prop='C17',needs='a map and an object that share a key',breaks='a key the map had before keeps its old element',
 edits=[(C,'''void to_value(_ValTy& c, const std::map<_KeyTy, _Ty>& v)
{
    value_constructor<_ValTy>::template reset<value_constant::object>(c);
''','''void to_value(_ValTy& c, const std::map<_KeyTy, _Ty>& v)
{
    if (!c.is_object())
        value_constructor<_ValTy>::template reset<value_constant::object>(c);
''')],
 demo=PRE+r'''
int main(){ V v; v["old"] = 1; std::map<std::string,int> m{{"new", 2}}; to_value(v, m); return v.size() == 1 && v.count("new") ? 0 : 1; }'''),
dict(id='s17-bool-as-int',prop='C17',needs='reading a boolean as an integer',breaks='a boolean is read as an integer by its bits instead of being refused',
 edits=[(C,'''    if (!c.is_integer())
        throw make_conversion_error(c.type(), value_constant::integer);
''','''    if (!c.is_integer() && !c.is_bool())
        throw make_conversion_error(c.type(), value_constant::integer);
''')],
 demo=PRE+r'''
int main(){ V v = true; try { v.get<int>(); return 1; } catch (const configor_type_error&) {} return 0; }'''),
dict(id='s17-null-keeps',prop='C17',needs='reading null into a shared_ptr that points to something',breaks='null leaves the object a shared_ptr pointed to before',
 edits=[(C,'''    if (c.is_null())
    {
        v = nullptr;
    }
    else
    {
        v = std::make_shared<_Ty>(c.template get<_Ty>());
    }''','''    if (!c.is_null())
    {
        v = std::make_shared<_Ty>(c.template get<_Ty>());
    }''')],
 demo=PRE+r'''
int main(){ V v; auto p = std::make_shared<int>(3); return v.get(p) && !p ? 0 : 1; }'''),
dict(id='s17-array-past',prop='C17',needs='an array value shorter than the std::array',breaks='a value shorter than the fixed-size array is refused',
 edits=[(C,'''void from_value(const _ValTy& c, std::array<_Ty, _Num>& v)
{
    for (size_t i = 0; i < c.size() && i < _Num; i++)
''','''void from_value(const _ValTy& c, std::array<_Ty, _Num>& v)
{
    for (size_t i = 0; i < _Num; i++)
''')],
 demo=PRE+r'''
int main(){ V v = json::array{1,2}; std::array<int,3> a{{0,0,9}}; return v.get(a) && a[0] == 1 && a[1] == 2 && a[2] == 9 ? 0 : 1; }'''),
dict(id='s17-list-long',prop='C17',needs='a list with more than 16 elements',breaks='elements of a list beyond the 16th are stored in the wrong place',
 edits=[(C,'''void to_value(_ValTy& c, const std::list<_Ty>& v)
{
    value_constructor<_ValTy>::template reset<value_constant::array>(c);
    auto iter = v.begin();
    for (size_t i = 0; iter != v.end(); ++i, ++iter)
    {
        c[i] = *iter;
''','''void to_value(_ValTy& c, const std::list<_Ty>& v)
{
    value_constructor<_ValTy>::template reset<value_constant::array>(c);
    auto iter = v.begin();
    for (size_t i = 0; iter != v.end(); ++i, ++iter)
    {
        c[i & 15u] = *iter;
''')],
 demo=PRE+r'''
int main(){ std::list<int> l; for (int i = 0; i < 17; ++i) l.push_back(i); V v = l; return v.size() == 17 && v[0].get<int>() == 0 ? 0 : 1; }'''),
dict(id='s17-forward-order',prop='C17',needs='a forward_list read from an array of three or more elements',breaks='the elements of a forward_list are not in the order of the array',
 edits=[(C,'''    size_t size = c.size();
    for (size_t i = 0; i < size; i++)
    {
        v.push_front(c[size - i - 1].template get<_Ty>());
    }''','''    auto last = v.before_begin();
    for (size_t i = 0; i < c.size(); i++)
    {
        auto next = v.insert_after(last, c[i].template get<_Ty>());
        if (i == 0)
            last = next;
    }''')],
 demo=PRE+r'''
int main(){ V v = json::array{1,2,3}; auto l = v.get<std::forward_list<int>>(); return l == std::forward_list<int>({1,2,3}) ? 0 : 1; }'''),
dict(id='s17-get-reports',prop='C17',needs='reading null as a number with the form that reports its success',breaks='reading null as a number is reported as a success',
 edits=[(D,'''        catch (...)
        {
        }
        return false;''','''        catch (const configor_exception&)
        {
            return is_null();
        }
        catch (...)
        {
        }
        return false;''')],
 demo=PRE+r'''
int main(){ V v; int i = 1; return v.get(i) ? 1 : 0; }'''),
dict(id='s17-unsigned-narrow',prop='C17',needs='an unsigned number above 2^31',breaks='32-bit unsigned numbers become negative on the way into a value',
 edits=[(C,'''                                                                       static_cast<typename _ValTy::integer_type>(v));''','''                                                                       static_cast<typename std::conditional<(sizeof(_Ty) < sizeof(int64_t)), int, int64_t>::type>(v));''')],
 demo=PRE+r'''
int main(){ V v = 3000000000u; return v.get<unsigned>() == 3000000000u && v.get<long>() == 3000000000l ? 0 : 1; }'''),
]
