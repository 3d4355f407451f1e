"""C17"""
from engine import build, convspec, par
from engine.report import Report
from .reader import repo

RULE = ('every conversion function is followed, through the code of the C++ container itself, for containers and values of up to five elements whose content is free, for every kind of value and every content '
        'the target had before: the value must hold exactly the elements of the object and the object exactly those of the value, and a value of another kind must be refused with the library’s exception')


def run():
    rep = Report('C17', RULE)
    rep.is_repo = repo
    rep.assume = ['the containers of the C++ library are analysed from the headers installed here; only their external functions (tree insertion, list hooks, the bucket policy) are models',
                  'element conversions are those of a user type that is an integer; loops of the conversions do not depend on the number of elements beyond five']

    def part(ty):
        def f(r):
            convspec.container(convspec.Runner(build.load('conv.cpp'), r), ty)
        return 'containers: %s' % ty, f

    def scal(r):
        convspec.scalars(convspec.Runner(build.load('conv.cpp'), r))
    build.load('conv.cpp')
    par.run(rep, [('scalars', scal)] + [part(ty) for ty in convspec.TYPES])
    return rep.finish(RULE, {'calls': 6000, 'decided': 5500, 'obligations': 9000})
