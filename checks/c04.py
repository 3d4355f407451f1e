"""C04"""
from engine import build, outspec
from engine.layout import Layout
from .value import *
from . import writer

RULE = 'on every path of every operation of a const value (kind queries, size, find, count, at, operator[], get, iteration, comparison, copying) and of dump, no store reaches the value, its payloads, or a variable with static storage outside its guarded initialisation; and no const operation has a type that gives mutable access'
DUMPS = [
    ('dump', 'h_dump', dict(depth=1, const=True)),
    ('dump of strings', 'h_dump', dict(depth=0, root=('string',), classes=writer.FEW, const=True)),
    ('dump of escaped strings', 'h_dump_esc', dict(depth=0, root=('string',), classes=writer.FEW, escape=True, const=True)),
    ('dump, indented', 'h_dump_indent', dict(depth=1, pretty='option', const=True)),
    ('dump that fails', 'h_dump_eh', dict(depth=1, sinkfail=True, const=True, **writer.FAIL)),
]


def types(rep):
    """const access is checked by the type system: the witnesses in harness/const_access.cpp must compile"""
    n = sum(l.strip().startswith('CONST') or l.strip().startswith('NONE') for l in open(os.path.join(build.VERIF, 'harness', 'const_access.cpp')))
    for msg, line in build.witness('const_access.cpp'):
        rep.violation('const-type', 'harness/const_access.cpp:%s' % line, 'a const value gives mutable access: %s' % msg, location='harness/const_access.cpp:%s' % line)
    rep.count('type witnesses', n)


def run():
    mod = build.load('json.cpp')
    L = Layout(mod)
    return run_value('C04', RULE, {'const-write', 'const-type'}, {'operations': 100, 'paths': 1000, 'type witnesses': 20, 'documents checked': 3},
                     lambda n: valspec.OPS[n].const, lambda rep: [('types', types)] + writer.tasks(mod, L, DUMPS, 420))
