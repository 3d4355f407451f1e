"""C24"""
import sys
from engine import build
from engine.nothrow import NoThrow
from engine.report import Report
from .reader import repo

RULE = ('no call inside a function that is declared noexcept (or is a destructor) can be left by an exception, over the call graph of every class template of the library '
        'instantiated as a whole, with the exception edges of its code; and move construction, move assignment, swap and destruction of a value cannot throw whether declared so or not')
ANCHOR = 'harness/all.cpp'
FIRM = {'move construction': ('basic_value::basic_value', '(configor::basic_value<T>&&)'), 'move assignment': ('basic_value::operator=', '(configor::basic_value<T>&&)'),
        'swap': ('basic_value::swap', ''), 'destruction': ('basic_value::~basic_value', '')}


def run():
    sys.setrecursionlimit(100000)
    rep = Report('C24', RULE)
    rep.is_repo = repo
    rep.assume = ['what the C++ library declares noexcept does not throw, and neither do the pure algorithms on its containers',
                  'a user conversion may throw anything unless it is itself declared noexcept']
    for std in ('c++11',):
        mod = build.load('all.cpp', std=std)
        N = NoThrow(mod)
        for f in mod.funcs.values():
            if f.decl or not ('configor' in (f.ctxfull or '') or f.qual.startswith('configor')):
                continue
            rep.count('functions of the library')
            rep.funcs.add(f.qual)
            if f.nounwind:
                rep.count('functions that cannot be left by an exception')
            for I, w in N.terminates(f):
                rep.violation('terminate', '%s -> %s' % (f.qual, w[0]), '%s is declared not to throw, but %s can: the program would be terminated' % (f.qual, ' -> '.join(x.split('(')[0] for x in w)),
                              location='%s:%s' % (I.fl, I.l), stack=[x[:200] for x in w])
            for what, (q, par) in FIRM.items():
                if f.qual == 'configor::' + q and (not par or f.dem.replace('value_tplargs', 'T').replace('wT', 'T').replace('configor::T', 'T').endswith(par)):
                    rep.count('checked: ' + what)
                    w = N.function(f)
                    if w:
                        rep.violation('move', '%s of a value' % what, '%s of a value can throw: %s' % (what, ' -> '.join(x.split('(')[0] for x in w)), stack=[x[:200] for x in w])
        rep.count('calls inside functions that must not throw', N.seen)
    return rep.finish(RULE, dict({'functions of the library': 1500, 'calls inside functions that must not throw': 60}, **{'checked: ' + w: 2 for w in FIRM}))
