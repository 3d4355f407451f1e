"""C15"""
from engine import build, par, iterspec
from engine.layout import Layout
from engine.report import Report
from .reader import repo
from .value import OWN, ASSUME

RULE = ('for every kind of value, every position an iterator can be at and every operation on it: the element, key, truth value or distance it gives is '
        'that of the position, or the documented exception is thrown; traversals in both directions visit every element once, in order')


def run():
    rep = Report('C15', RULE)
    rep.only = {'iterate', 'const-write'} | OWN - {'leak'}
    rep.is_repo = repo
    rep.assume = list(ASSUME[:2]) + ['moving an iterator before the first or past the last element of an array or object is undefined and not examined',
                                     'iterators are used on the value they came from while it is not changed']
    mod = build.load('iter.cpp')
    L = Layout(mod)
    names = sorted(iterspec.OPS)

    def part(i):
        def f(rep):
            for x in names[i::8]:
                iterspec.run_op(mod, L, rep, x)
                rep.count('operations')
        return 'operations %d of 8' % (i + 1), f
    par.run(rep, [part(i) for i in range(8)], limit=600)
    return rep.finish(RULE, {'operations': 360, 'paths': 3000})
