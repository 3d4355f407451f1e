"""C19"""
import os
from engine import build, par, streamspec
from engine.report import Report
from .reader import repo

RULE = ('from every state a stream buffer can reach, every operation (peek, read, step, put-back, block reads of every length up to one more than the source holds and of the largest length; '
        'writing one or several units) is followed on free units and must behave as a cursor into the sequence of units, respectively as an append')


def run():
    rep = Report('C19', RULE)
    rep.is_repo = repo
    rep.assume = ['std::basic_streambuf calls the virtual functions as its header defines; fgetc, fgetwc, fread and ungetc deliver the file',
                  'a file and a source adapter are read by nobody else meanwhile; a source adapter returns no unit that means the end before its end',
                  'the units of a wide file are valid characters (not WEOF)']
    deep = 6 if os.environ.get('VERIF_TIER') == 'thorough' else 4

    def part(kind, ch):
        def f(r):
            mod = build.load('stream.cpp')
            for n in range(deep + 1) if kind in streamspec.INPUTS else (0,):
                if kind != 'ain' or n:
                    r.count('buffers')
                    streamspec.Case(mod, r, kind, ch, n).run()
        return '%s of %s' % (streamspec.KINDS[kind], ch), f
    build.load('stream.cpp')
    par.run(rep, [part(k, c) for k in streamspec.INPUTS + streamspec.OUTPUTS for c in 'cw'])
    return rep.finish(RULE, {'buffers': 44, 'states of a source': 120, 'states of a sink': 6, 'operations': 1000})
