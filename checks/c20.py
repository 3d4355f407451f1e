"""C20"""
from engine import apispec, build, locale, par
from engine.report import Report
from .reader import repo

RULE = ('from any state of the caller’s stream (every flag and the precision, fill and locale free; each float format; several widths) the writer and the reader are followed through every '
        'overload that takes a stream: the text written, the value read and the state left behind must be those of the default state, apart from indentation, precision and float format; '
        'and no function of the library calls an operation that depends on the global locale')


def run():
    rep = Report('C20', RULE)
    rep.is_repo = repo
    rep.assume = ['standard streams behave as the standard says (engine/models.py): a number is formatted from the flags, width, fill, precision and numeric facet of the stream it is put into',
                  'the formatting of the numbers of a document is decided by what the stream is told; the digits themselves are those of the C++ library']

    def calls(r):
        mod = build.load('api.cpp')
        for f in mod.funcs.values():
            if f.decl or not ("configor" in (f.qual or "") or "configor" in (f.ctxfull or "")):
                continue
            r.count('functions searched')
            r.funcs.add(f.qual)
            for I, n in locale.uses(f):
                r.violation('locale-call', '%s -> %s' % (f.qual, n), '%s uses %s, which depends on the global locale' % (f.qual, n), location='%s:%s' % (I.fl, I.l), stack=[f.dem[:200]])

    def write(j, x, ff):
        def f(r):
            R = apispec.Runner(build.load('api.cpp'), r)
            for w in (0, 1, 2, 5):
                r.count('stream states')
                for g in (0, 3, 4):
                    for o in (0, 2, 14, 15, 18, 21, 22, 24, 26) if g == 0 else (0,):
                        for cls in ('plain', 'uni') if o in (0, 18) else ('plain',):
                            R.against('write', j, x, g, o, cls, apispec.caller(ff, w))
        return 'write %s %s %d' % (j, x, ff), f

    def read(j, x):
        def f(r):
            R = apispec.Runner(build.load('api.cpp'), r)
            for ff in (0, 4, 260):
                for w in (0, 3):
                    r.count('stream states')
                    for g in (0, 1, 8):
                        for o in (0, 2, 10) if g < 8 else (0,):
                            R.against('read', j, x, g, o, apispec.caller(ff, w))
        return 'read %s %s' % (j, x), f
    build.load('api.cpp')
    pairs = [(j, x) for j in apispec.JS for x in apispec.CS]
    par.run(rep, [('calls', calls)] + [write(j, x, ff) for j, x in pairs for ff in (0, 4, 256, 260)] + [read(j, x) for j, x in pairs])
    return rep.finish(RULE, {'calls': 900, 'stream states': 80, 'obligations': 20000, 'functions searched': 300})
