"""C18"""
import os
from engine import bindspec, build, par
from engine.layout import Layout
from engine.report import Report
from .reader import repo

RULE = ('for bound types with every number of members from 1 to 50 and every mix of the four kinds of binding: writing makes an object with exactly the bound names, '
        'each holding its own data member, and reading fills each data member from its own name, reports a missing required member and leaves a missing optional one alone')


def buildable(types, rep, err):
    """some bound type does not build: find out which; when the simplest one builds, the others are to blame on the macros"""
    bindspec.load([('One', 'R')])
    ok = []
    for t in types:
        try:
            bindspec.load([t])
            ok.append(t)
        except build.CompileError as e:
            m = [l for l in str(e).splitlines() if 'error:' in l]
            rep.violation('bind', 'build', 'a type with %d bound members (%s) does not build: %s' % (
                len(t[1]), ', '.join(bindspec.macro(k, i + 1) for i, k in enumerate(t[1][:8])), m[0][-300:] if m else '?'),
                location='include/configor/details/conversion.hpp (CONFIGOR_BIND)')
    if not ok:
        raise err
    return ok


def run():
    rep = Report('C18', RULE)
    rep.is_repo = repo
    rep.assume = ['std::map finds a member under its key (the object is a table from names to members here); the conversions of the member types are ports',
                  'data members have distinct names']
    deep = 4 if os.environ.get('VERIF_TIER') == 'thorough' else 3
    types = bindspec.sweep() + bindspec.mixes(deep)
    n = 4

    def part(i):
        def f(r):
            mine = types[i::n]
            try:
                mod = bindspec.load(mine)
            except build.CompileError as e:
                mine = buildable(mine, r, e)
                mod = bindspec.load(mine)
            L = Layout(mod)
            for name, kinds in mine:
                bindspec.check(mod, L, r, name, kinds, name[0] == 'M')
        return 'types %d of %d' % (i + 1, n), f
    par.run(rep, [part(i) for i in range(n)], limit=600)
    return rep.finish(RULE, {'types': 134, 'paths': 1900})
