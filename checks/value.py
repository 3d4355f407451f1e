"""C01-C04, C16, C22: every operation of a value, for every kind of its operands, compared path by path with the
specification in engine/valspec.py."""
import os
from engine import build, par, valspec
from engine.layout import Layout
from engine.report import Report
from .reader import SAFETY, repo

FORM = {'kind-payload', 'wrong-kind', 'not-constructed', 'undef-value', 'undef-branch', 'undef-pointer'}
OWN = {'leak', 'double-free', 'bad-free', 'dead-access', 'shared', 'terminate', 'null-deref', 'undef-pointer', 'not-constructed', 'out-of-bounds',
       'kind-payload', 'wrong-kind'} | SAFETY
ASSUME = [
    'std::vector, std::map, std::string, streams and exceptions behave as specified (modelled in engine/models.py and engine/containers.py)',
    'containers and strings hold fewer than 2^40 elements',
    'an operation starts on well-formed values whose payloads have one owner; the check shows that it ends with such values, so the property holds after any sequence of operations',
]
COPIES = ('v_copy', 'v_move', 'v_assign', 'v_massign', 'v_swap', 'v_stdswap', 'q_get_value', 'm_push', 'm_emplace_copy')


def value_tasks(mod, L, names):
    names = sorted(names)
    n = 8
    def part(i):
        def f(rep):
            for x in names[i::n]:
                valspec.run_op(mod, L, rep, x)
                rep.count('operations')
        return 'operations %d of %d' % (i + 1, n), f
    return [part(i) for i in range(n)]


def run_value(prop, rule, only, minimum, entries=lambda n: True, extra=None):
    rep = Report(prop, rule)
    rep.only = only
    rep.is_repo = repo
    rep.assume = list(ASSUME)
    mod = build.load('value.cpp')
    L = Layout(mod)
    names = [n for n in valspec.OPS if entries(n)]
    par.run(rep, value_tasks(mod, L, names) + (extra(rep) if extra else []), limit=600)
    return rep.finish(rule, minimum)
