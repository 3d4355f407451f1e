"""C21"""
from engine import apispec, build, par
from engine.report import Report
from .reader import repo

RULE = ('every overload of parse and dump, in place or returning, for both character types of the value and of the text, and every order and combination of options listed, is followed on a document with a free '
        'character and number and on a malformed one: the encodings that are called, the result or the text, the error handler and the exception must be those the options ask for')


def run():
    rep = Report('C21', RULE)
    rep.is_repo = repo
    rep.assume = ['the encodings, the error handler and the file are ports: each is a function that is given a unit and a stream and may be called any number of times',
                  'standard streams, strings and the formatting of numbers behave as the standard says (engine/models.py)']

    def part(kind, j, x, forms):
        def f(r):
            R = apispec.Runner(build.load('api.cpp'), r)
            for g in forms:
                if kind == 'read':
                    for o in range(len(apispec.R_OPTS) if g < 8 else 1):
                        R.read(j, x, g, o)
                else:
                    for o in range(len(apispec.W_OPTS) if g < 3 else 1):
                        for cls in ('plain', 'uni'):
                            R.write(j, x, g, o, cls)
        return '%s %s %s %s' % (kind, j, x, forms), f
    build.load('api.cpp')
    parts = [part('read', j, x, fs) for j in apispec.JS for x in apispec.CS for fs in ((0, 1, 8), (2, 3), (4, 5), (6, 7))]
    parts += [part('write', j, x, fs) for j in apispec.JS for x in apispec.CS for fs in ((0, 3), (1, 4), (2,))]
    par.run(rep, parts)
    return rep.finish(RULE, {'calls': 1500, 'paths': 1500, 'obligations': 10000})
