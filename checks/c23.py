"""C23"""
import os
from engine import build
from engine.report import Report
from .reader import repo

RULE = ('every witness of the interface holds for the type checker: the listed expressions compile with exactly the listed types, the listed statements build, '
        'and the listed unsupported conversions and accesses do not build; in C++11, C++14, C++17 and C++20')
STDS = ('c++11', 'c++14', 'c++17', 'c++20')


def statements(rep, src, std):
    path = os.path.join(build.VERIF, 'harness', src)
    hit = build.programs(src, std)
    for n, l in enumerate(open(path), 1):
        l = l.strip()
        kind = l[:6]
        if kind not in ('ACCEPT', 'REJECT'):
            continue
        rep.count('statements that must build' if kind == 'ACCEPT' else 'statements that must not build')
        text = l[l.index('(') + 1:-1]
        if kind == 'ACCEPT' and n in hit:
            rep.violation('accept', text, 'this does not build (%s): %s: %s' % (std, text, hit[n][0][:300]), location='harness/%s:%d' % (src, n))
        if kind == 'REJECT' and n not in hit:
            rep.violation('reject', text, 'this builds although it must not (%s): %s' % (std, text), location='harness/%s:%d' % (src, n))


def run():
    rep = Report('C23', RULE)
    rep.is_repo = repo
    rep.assume = ['the compiler (clang 18) decides overload resolution and types as the standard says']
    for std in STDS if rep.tier == 'thorough' else ('c++11', 'c++17'):
        for src in ('interface.cpp', 'const_access.cpp'):
            for msg, line in build.witness(src, std):
                rep.violation('witness', msg[:160], '%s (%s)' % (msg, std), location='harness/%s:%s' % (src, line))
            path = os.path.join(build.VERIF, 'harness', src)
            rep.count('expressions', sum(l.startswith(('IS(', 'YES(', 'NO(', 'TRUE(', 'CONST(', 'VALUE(', 'NONE(')) for l in open(path)))
            rep.count('types', sum(l.startswith(('BOTH(', 'NEITHER(', 'NOPTR(', 'PART(')) for l in open(path)))
        statements(rep, 'programs.cpp', std)
    return rep.finish(RULE, {'expressions': 150, 'types': 60, 'statements that must build': 20, 'statements that must not build': 50})
