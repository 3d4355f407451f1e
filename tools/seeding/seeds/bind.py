C='include/configor/details/conversion.hpp'
PRE='''
#include <configor/json.hpp>
#include <string>
using namespace configor;
typedef json::value V;
'''
SEEDS=[
dict(id='s18-paste23',prop='C18',needs='a bound type with exactly 23 or more members',breaks='one member of types with 23 or more members is bound twice and the next one not at all',
 edits=[(C,'''    parse1(parse1, func, _1) __CONFIGOR_PASTE22(parse1, func, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, \\
                                                _15, _16, _17, _18, _19, _20, _21, _22, _23)
''','''    parse1(parse1, func, _1) __CONFIGOR_PASTE22(parse1, func, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, \\
                                                _15, _16, _17, _18, _19, _20, _21, _21, _23)
''')],
 demo=PRE+r'''
struct T { int f[1];
 '''+' '.join('int a%d;'%i for i in range(1,24))+r'''
 CONFIGOR_BIND(V, T, '''+', '.join('REQUIRED(a%d)'%i for i in range(1,24))+r''') };
int main(){ T t{}; t.a22 = 7; V v = t; return v.size() == 23 && v.count("a22") && v["a22"].get<int>() == 7 ? 0 : 1; }'''),
dict(id='s18-optional-reset',prop='C18',needs='reading an object without an optional member into a variable whose data member is not its default',breaks='an optional data member is reset to its default when the key is missing',
 edits=[(C,"""    if (c.count(name))                             \\
    {                                              \\
        __CONFIGOR_FROM_CONF_REQUIRED(field, name) \\
    }""","""    if (c.count(name))                             \\
    {                                              \\
        __CONFIGOR_FROM_CONF_REQUIRED(field, name) \\
    }                                              \\
    else                                           \\
        v.field = decltype(v.field){};""")],
 demo=PRE+r"""
struct T { int a; int b; CONFIGOR_BIND(V, T, REQUIRED(a), OPTIONAL(b, "bee")) };
int main(){ V v; v["a"] = 1; T t{0, 9}; return v.get(t) && t.a == 1 && t.b == 9 ? 0 : 1; }"""),
dict(id='s18-required-soft',prop='C18',needs='reading an object that lacks a required member with a name of its own',breaks='a missing required member with a name of its own is no error',
 edits=[(C,'''#define __CONFIGOR_FROM_CONF_REQUIRED2(field, name) __CONFIGOR_FROM_CONF_REQUIRED(field, name)''','''#define __CONFIGOR_FROM_CONF_REQUIRED2(field, name) __CONFIGOR_FROM_CONF_OPTIONAL(field, name)''')],
 demo=PRE+r'''
struct T { int a; int b; CONFIGOR_BIND(V, T, REQUIRED(a), REQUIRED(b, "bee")) };
int main(){ V v; v["a"] = 1; try { v.get<T>(); return 1; } catch (const std::out_of_range&) { return 0; } }'''),
]
