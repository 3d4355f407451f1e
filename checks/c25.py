"""C25"""
import os
from engine import build, jsonspec, par
from engine.interp import Interp
from engine.layout import Layout
from engine.models import Models, Ctx
from engine.ports import PORTS, stream, portbuf
from engine.progress import Progress
from engine.explore import Explorer
from engine.report import Report
from engine.state import State
from engine.values import Ptr
from . import reader as R
from . import c14

RULE = ('on no path is a loop head visited twice without a character consumed in between, unless the loop is counted; nothing recurses except for nesting; '
        'a decoder that reports a character has consumed input')
LISTS = R.STRUCT + R.COMMENTS + R.STRINGS[:1] + R.STRINGS[3:4] + R.STRINGS[6:] + R.NUMBERS + R.INTEGERS[:1] + R.FAILURES


class Mon(c14.Mon):
    def read(self, c, this, peek):
        it, st = c.it, c.st
        if st.mon.get('cur') == 'eof':
            it.progress.polled(st)
        elif not peek:
            it.progress.consumed(st)
            st.mon['units'] = True
        return super().read(c, this, peek)


def codec(mod, name, forms, cw, iw, top):
    def f(rep):
        for what in ('dec', 'enc'):
            it = Interp(mod, Models(PORTS), Mon(cw, iw, top))
            it.progress = Progress(it, lambda s: 0)
            st = State()
            c = Ctx(it, st, None, None, None)
            if what == 'dec':
                args = [stream(c, '$is', portbuf(c, '$buf')), Ptr(st.new_region('obj', 4, ('undef',), name='$cp'), 0)]
            else:
                args = [stream(c, '$os', portbuf(c, '$buf'), True), st.fresh(32, ((0, 0xffffffff),), name='cp')]
            it.enter(st, mod.funcs['h_%s_%s' % (what, name)], args)

            def fin(it, s, how, v):
                rep.count('paths')
                if what == 'dec' and how == 'return' and v == 1 and not s.mon.get('units') and not s.imp:
                    rep.violation('no-progress', name, 'decode %s: a character is reported although no input was consumed' % name)
            it.finish = fin
            ex = Explorer(it, budget=120)
            ex.run([st])
            rep.count('loops examined', len(it.progress.loops))
            rep.engine(it, '%s %s' % (what, name), ex)
    return 'codec ' + name, f


def run():
    rep = Report('C25', RULE)
    rep.only = {'endless', 'recursion', 'no-progress'}
    rep.is_repo = R.repo
    rep.assume = list(R.ASSUME) + ['the source stream reports its end when it has no more characters, and goes on doing so']
    mod = build.load('json.cpp')
    L = Layout(mod)
    cod = build.load('codec.cpp')
    budget = 1500 if os.environ.get('VERIF_TIER') == 'thorough' else 420
    more = R.STRINGS + R.INTEGERS if os.environ.get('VERIF_TIER') == 'thorough' else []

    def task(name, kw):
        return name, lambda r: jsonspec.explore(mod, L, jsonspec.Cfg(progress=True, **kw), r, name, 'h_parse', budget)
    tasks = [task(*x) for x in LISTS + [m for m in more if m not in LISTS]] + [codec(cod, *x) for x in c14.CODECS]
    par.run(rep, tasks, limit=budget + 100)
    return rep.finish(RULE, {'loops examined': 100, 'characters fed': 5000})
