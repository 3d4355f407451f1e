C='include/configor/details/conversion.hpp'
D='include/configor/details/value.hpp'
R=[]
def r(name,*e): R.append((name,list(e)))
def fromv(t): return 'void from_value(const _ValTy& c, std::%s& v)\n{\n'%t
RES='''    v.resize(c.size());
    for (size_t i = 0; i < c.size(); ++i)
    {
        v[i] = c[i].template get<_Ty>();
    }'''
r('vector-push',(C,fromv('vector<_Ty>')+RES,fromv('vector<_Ty>')+'''    v.clear();
    v.reserve(c.size());
    for (size_t i = 0; i < c.size(); ++i)
        v.push_back(c[i].template get<_Ty>());'''))
r('vector-swap',(C,fromv('vector<_Ty>')+RES,fromv('vector<_Ty>')+'''    std::vector<_Ty> tmp(c.size());
    size_t i = 0;
    for (auto& x : tmp)
        x = c.at(i++).template get<_Ty>();
    v.swap(tmp);'''))
r('deque-emplace',(C,fromv('deque<_Ty>')+RES,fromv('deque<_Ty>')+'''    std::deque<_Ty> tmp;
    const size_t n = c.size();
    for (size_t i = 0; i != n; ++i)
        tmp.emplace_back(c[i].template get<_Ty>());
    v = std::move(tmp);'''))
r('deque-backwards',(C,fromv('deque<_Ty>')+RES,fromv('deque<_Ty>')+'''    v.clear();
    for (size_t i = c.size(); i > 0; --i)
        v.push_front(c[i - 1].template get<_Ty>());'''))
r('list-range',(C,'''    auto iter = v.begin();
    for (size_t i = 0; iter != v.end(); ++i, ++iter)
    {
        c[i] = *iter;
    }''','''    size_t i = 0;
    for (const auto& x : v)
        c[i++] = x;'''))
r('list-erase',(C,fromv('list<_Ty>')+'''    v.clear();
    for (size_t i = 0; i < c.size(); i++)
    {
        v.push_back(c[i].template get<_Ty>());
    }''',fromv('list<_Ty>')+'''    v.erase(v.begin(), v.end());
    for (size_t i = 0, n = c.size(); i < n; i++)
        v.insert(v.end(), c[i].template get<_Ty>());'''))
r('list-splice',(C,fromv('list<_Ty>')+'''    v.clear();
    for (size_t i = 0; i < c.size(); i++)
    {
        v.push_back(c[i].template get<_Ty>());
    }''',fromv('list<_Ty>')+'''    std::list<_Ty> tmp;
    for (size_t i = c.size(); i-- > 0;)
        tmp.push_front(c[i].template get<_Ty>());
    v.clear();
    v.splice(v.end(), tmp);'''))
r('forward-after',(C,'''    v.clear();
    size_t size = c.size();
    for (size_t i = 0; i < size; i++)
    {
        v.push_front(c[size - i - 1].template get<_Ty>());
    }''','''    v.clear();
    auto pos = v.before_begin();
    for (size_t i = 0; i < c.size(); i++)
        pos = v.insert_after(pos, c[i].template get<_Ty>());'''))
r('forward-reverse',(C,'''        v.push_front(c[size - i - 1].template get<_Ty>());
    }''','''        v.push_front(c[i].template get<_Ty>());
    }
    v.reverse();'''))
INS='''    v.clear();
    for (size_t i = 0; i < c.size(); i++)
    {
        v.insert(c[i].template get<_Ty>());
    }'''
r('set-swap',(C,fromv('set<_Ty>')+INS,fromv('set<_Ty>')+'''    std::set<_Ty> tmp;
    for (size_t i = 0; i < c.size(); i++)
        tmp.emplace(c[i].template get<_Ty>());
    tmp.swap(v);'''))
r('set-hint',(C,fromv('set<_Ty>')+INS,fromv('set<_Ty>')+'''    v.clear();
    for (size_t i = 0; i < c.size(); i++)
        v.insert(v.end(), c[i].template get<_Ty>());'''))
r('uset-reserve',(C,fromv('unordered_set<_Ty>')+INS,fromv('unordered_set<_Ty>')+'''    v.clear();
    v.reserve(c.size());
    for (size_t i = 0; i < c.size(); i++)
        v.insert(c[i].template get<_Ty>());'''))
MAP='''    v.clear();
    for (auto iter = c.cbegin(); iter != c.cend(); iter++)
    {
        v.emplace(iter.key(), iter.value().template get<_Ty>());
    }'''
r('map-insert',(C,fromv('map<_KeyTy, _Ty>')+MAP,fromv('map<_KeyTy, _Ty>')+'''    std::map<_KeyTy, _Ty> tmp;
    for (auto iter = c.cbegin(), last = c.cend(); iter != last; ++iter)
    {
        tmp.insert(std::make_pair(_KeyTy(iter.key()), iter.value().template get<_Ty>()));
    }
    v = std::move(tmp);'''))
r('map-index',(C,fromv('map<_KeyTy, _Ty>')+MAP,fromv('map<_KeyTy, _Ty>')+'''    v.clear();
    for (auto iter = c.cbegin(); iter != c.cend(); ++iter)
        v[iter.key()] = iter->template get<_Ty>();'''))
r('umap-insert',(C,fromv('unordered_map<_KeyTy, _Ty>')+MAP,fromv('unordered_map<_KeyTy, _Ty>')+'''    v.clear();
    v.reserve(c.size());
    for (auto iter = c.cbegin(); iter != c.cend(); ++iter)
        v.insert(typename std::unordered_map<_KeyTy, _Ty>::value_type(iter.key(), iter.value().template get<_Ty>()));'''))
r('unique-move',(C,'''        v.reset(new _Ty(c.template get<_Ty>()));''','''        std::unique_ptr<_Ty> p(new _Ty(c.template get<_Ty>()));
        v = std::move(p);'''))
r('shared-reset',(C,'''        v = std::make_shared<_Ty>(c.template get<_Ty>());''','''        v.reset(new _Ty(c.template get<_Ty>()));'''))
r('array-min',(C,'''void from_value(const _ValTy& c, std::array<_Ty, _Num>& v)
{
    for (size_t i = 0; i < c.size() && i < _Num; i++)''','''void from_value(const _ValTy& c, std::array<_Ty, _Num>& v)
{
    const size_t n = c.size() < _Num ? c.size() : _Num;
    for (size_t i = 0; i < n; i++)'''))
r('array-down',(C,'''void from_value(const _ValTy& c, _Ty (&v)[_Num])
{
    for (size_t i = 0; i < c.size() && i < _Num; i++)
    {
        v[i] = c[i].template get<_Ty>();
    }''','''void from_value(const _ValTy& c, _Ty (&v)[_Num])
{
    _Ty* p = v;
    for (size_t i = 0; i < c.size() && p != v + _Num; i++, ++p)
    {
        *p = c[i].template get<_Ty>();
    }'''))
r('vector-to-array',(C,'''void to_value(_ValTy& c, const std::vector<_Ty>& v)
{
    value_constructor<_ValTy>::template reset<value_constant::array>(c);
    for (size_t i = 0; i < v.size(); ++i)
    {
        c[i] = v.at(i);
    }''','''void to_value(_ValTy& c, const std::vector<_Ty>& v)
{
    typename _ValTy::array_type a;
    a.reserve(v.size());
    for (const auto& x : v)
        a.emplace_back(x);
    value_constructor<_ValTy>::template reset<value_constant::array>(c, std::move(a));'''))
r('set-to-push',(C,'''void to_value(_ValTy& c, const std::set<_Ty>& v)
{
    value_constructor<_ValTy>::template reset<value_constant::array>(c);
    auto iter = v.begin();
    for (size_t i = 0; i < v.size(); ++i, ++iter)
    {
        c[i] = *iter;
    }''','''void to_value(_ValTy& c, const std::set<_Ty>& v)
{
    value_constructor<_ValTy>::template reset<value_constant::array>(c);
    for (auto iter = v.cbegin(); iter != v.cend(); ++iter)
        c.push_back(_ValTy(*iter));'''))
r('map-to-iter',(C,'''void to_value(_ValTy& c, const std::map<_KeyTy, _Ty>& v)
{
    value_constructor<_ValTy>::template reset<value_constant::object>(c);
    for (const auto& p : v)
    {
        c[p.first] = p.second;
    }''','''void to_value(_ValTy& c, const std::map<_KeyTy, _Ty>& v)
{
    typename _ValTy::object_type o;
    for (auto it = v.begin(); it != v.end(); ++it)
        o.emplace(it->first, it->second);
    value_constructor<_ValTy>::template reset<value_constant::object>(c, std::move(o));'''))
r('ptr-ternary',(C,'''    if (v != nullptr)
    {
        c = *v;
    }
    else
    {
        c = nullptr;
    }''','''    if (!v)
    {
        c = nullptr;
        return;
    }
    c = _ValTy(*v);'''))
r('array-type-copy',(C,'''    v.assign((*c.data().vector).begin(), (*c.data().vector).end());''','''    v = *c.data().vector;'''))
r('kind-helper',(C,'''// from_value functions

''','''// from_value functions

template <typename _ValTy>
void require_kind(const _ValTy& c, value_constant::type want)
{
    if (c.type() != want)
        throw make_conversion_error(c.type(), want);
}

'''),(C,'''    if (!c.is_integer())
        throw make_conversion_error(c.type(), value_constant::integer);
''','''    require_kind(c, value_constant::integer);
'''),(C,'''    if (!c.is_floating())
        throw make_conversion_error(c.type(), value_constant::floating);
''','''    require_kind(c, value_constant::floating);
'''))
r('get-result',(D,'''        try
        {
            do_get<_Ty>(value, detail::priority<3>{});
            return true;
        }
        catch (...)
        {
        }
        return false;''','''        bool ok = true;
        try
        {
            do_get<_Ty>(value, detail::priority<3>{});
        }
        catch (...)
        {
            ok = false;
        }
        return ok;'''))
r('get-by-ref',(D,'''        _Ty value{};
        binder_type<_Ty>::from_value(*this, value);
        return value;''','''        _Ty value = _Ty();
        do_get(value, detail::priority<3>{});
        return value;'''))
