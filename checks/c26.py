"""C26"""
from engine import apispec, build, par
from engine.report import Report
from .reader import repo

RULE = ('the operators << and >> of the wrappers, for values and for a user’s type, const or not, for both character types, are followed from any state of the stream: the sink must receive exactly '
        'the document of the object, indented by width and fill, the object read into must become the result of the conversion of the document, and a failure at any of the listed points must leave it unchanged')


def run():
    rep = Report('C26', RULE)
    rep.is_repo = repo
    rep.assume = ['the user’s conversions are ports: to_value is given the object, from_value the value; they may throw',
                  'standard streams behave as the standard says; a sentry is false exactly when the stream has failed']

    def users(x):
        def f(r):
            R = apispec.Wrapped(build.load('api.cpp'), r)
            for ff, w in ((0, 0), (4, 3), (260, 1)):
                st = apispec.caller(ff, w)
                r.count('stream states')
                for fn, y, vs in (('user_in_c', 'c', 1), ('user_in_w', 'w', 4), ('user_in_cw', 'w', 1)):
                    if y == x:
                        R.user_in(fn, y, vs, st)
                R.val_in(x, st)
                for fn, y in (('user_out_c', 'c'), ('user_outc_c', 'c'), ('user_out_w', 'w'), ('user_out_cw', 'w')):
                    if y == x:
                        R.user_out(fn, x, st)
                        R.user_out(fn, x, st, True)
        return 'wrapped objects over %s' % x, f

    def values(j, x):
        def f(r):
            R = apispec.Runner(build.load('api.cpp'), r)
            for ff in (0, 4, 256, 260):
                for w in (0, 1, 2, 5):
                    r.count('stream states')
                    for g in (3, 4):
                        for cls in ('plain', 'uni'):
                            R.write(j, x, g, 0, cls, apispec.caller(ff, w))
                for w in (0, 3):
                    R.read(j, x, 8, 0, apispec.caller(ff, w))
        return 'wrapped values %s %s' % (j, x), f
    build.load('api.cpp')
    par.run(rep, [users(x) for x in apispec.CS] + [values(j, x) for j in apispec.JS for x in apispec.CS])
    return rep.finish(RULE, {'calls': 300, 'stream states': 60, 'obligations': 5000})
