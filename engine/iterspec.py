"""What every use of an iterator does, for every kind of value and every position: the specification the IR of each entry
point of harness/iter.cpp is compared with, path by path (the machinery is that of valspec.py)."""
from .valspec import *
from . import valspec

OPS = {}
SC = ('integer', 'floating', 'boolean', 'string')


def op(fn, *params, **kw):
    def d(spec):
        OPS[fn] = Operation(fn, [tuple(x.split(':')) for x in params], spec, **kw)
        return spec
    return d


def length(d):
    return 0 if d[0] == 'null' else d[2] if d[0] in ('array', 'object') else 1


def simp(r, x):
    return r.st.simp(x) if isinstance(x, Lin) else x


def index(r, node):
    m = r.pre['a'][4]
    return simp(r, binop(r.st, 'sdiv', 64, sub(64, node.o, m[2].o), NODE))


class Skip(Exception):
    pass


def position(r, s):
    """where the iterator starts, or the exception that is due"""
    d = r.pre['a']
    n = length(d)
    if s == 'b':
        return 0
    if s == 'e':
        return n
    if s == 'f':
        if d[0] != 'object':
            return n
        m = r.memo('a', keyatom(r, 'k'))
        r.check(m is not None, 'iterate', 'find() does not look the key up')
        return n if m == 'absent' else index(r, m)
    if d[0] == 'object':
        return None
    i = simp(r, r.arg['i'])
    if d[0] == 'null':
        return 0
    return i if s == 'p' else sub(64, n, i)


def outside(r, pos):
    """the position is not one of the value: what happens then is not specified"""
    n = length(r.pre['a'])
    if r.pre['a'][0] in SC or r.pre['a'][0] == 'null':
        return False
    return decide(r.st, 'ugt', 64, pos, n) is not False if isinstance(pos, (int, Lin)) else True


def deref(r, pos, key=False):
    d = r.pre['a']
    r.unchanged('a', 'iterate')
    if d[0] == 'null':
        return oneof(r, 'range', *(('iter',) if key else ()))
    n = length(d)
    for q, t in r.split('eq', pos, 0 if d[0] in SC else n):
        end = not t if d[0] in SC else t
        if end:
            oneof(q, 'range', *(('iter',) if key and d[0] != 'object' else ()))
        elif key:
            if d[0] != 'object':
                q.throws('iter', 'iterate')
            else:
                nd = containers.nodept(d[4], simp(q, pos))
                q.retptr(Ptr(nd.r, addoff(nd.o, 32)), 'iterate', 'the key at the position')
        elif d[0] in SC:
            q.retptr(Ptr('$a', 0), 'iterate', 'the value itself')
        elif d[0] == 'array':
            q.retptr(q.elem('a', simp(q, pos)), 'iterate', 'the element at the position')
        else:
            q.retptr(mapped(containers.nodept(d[4], simp(q, pos))), 'iterate', 'the member at the position')


def oneof(r, *kinds):
    ok = r.how == 'throw' and r.ti in [X[k] for k in kinds]
    r.check(ok, 'iterate', 'expected the exception %s, but the call %s' % (X[kinds[0]][4:], 'returns' if r.how == 'return' else 'throws %s' % (r.ti or '?')[4:]))


def inrange(run, st, x, lo, hi):
    return refine(st, 'sge', 64, x, lo) and refine(st, 'sle', 64, x, hi)


def within(run, st, x, n):
    return refine(st, 'sge', 64, x, 0) and refine(st, 'sle', 64, st.simp(x) if isinstance(x, Lin) else x, n)


def starts(s, move=0):
    """the start and the moved position lie in the value (for the kinds where leaving it is undefined)"""
    def f(run, st):
        d = run.pre['a']
        n = length(d)
        if 'i' in run.arg and not inrange(run, st, run.arg['i'], 0, n if d[0] == 'array' else BIGSZ):
            return False
        if d[0] in ('array', 'object') and move:
            if s in 'be':
                return (s == 'b') == (move > 0) and refine(st, 'ugt', 64, n, 0)
            if d[0] == 'array' and s in 'pq':
                i = run.arg['i']
                return refine(st, 'ult' if (s == 'p') == (move > 0) else 'ugt', 64, i, n if (s == 'p') == (move > 0) else 0)
        return True
    return f


def _use(c, s, name, move, what):
    par = {'p': ('i:i64',), 'q': ('i:i64',), 'f': ('k:S',)}.get(s, ())
    @op('i%s_%s_%s' % (c, s, name), 'a:V', *par, const=True, assume=starts(s, move))
    def f(r):
        pos = position(r, s)
        if pos is None:
            return r.throws('iter', 'iterate')
        d = r.pre['a']
        n = length(d)
        if s == 'f' and move and d[0] in ('object', 'array'):
            # before the first or past the last element there is nothing to go to
            if decide(r.st, 'eq', 64, pos, n if move > 0 else 0) is not False:
                return
        p = pos if d[0] == 'null' else add(64, pos, move & (1 << 64) - 1)
        if what == 'isend' or what == 'notend' or what == 'isbegin':
            r.unchanged('a', 'iterate')
            for q, t in r.split('eq', p, 0 if what == 'isbegin' else n):
                q.retbool(t != (what == 'notend'), 'iterate')
            return
        deref(r, pos if what == 'old' else p, what == 'key')


USES = [('deref', 0, ''), ('arrow', 0, ''), ('value', 0, ''), ('inc', 1, ''), ('incret', 1, ''), ('pincold', 1, 'old'), ('pincnew', 1, ''),
        ('dec', -1, ''), ('decret', -1, ''), ('pdecold', -1, 'old'), ('pdecnew', -1, ''), ('key', 0, 'key'), ('conv', 0, ''),
        ('convassign', 0, ''), ('copyassign', 0, ''), ('isend', 0, 'isend'), ('notend', 0, 'notend'), ('isbegin', 0, 'isbegin')]
for c_ in 'mck':
    for s_ in 'bepqf' if c_ != 'k' else 'be':
        for u_ in USES:
            _use(c_, s_, *u_)


# ---- reverse ---------------------------------------------------------------------------
def _ruse(c, s, name, move, what):
    def assume(run, st):
        d = run.pre['a']
        if d[0] not in ('array', 'object'):
            return True
        n = length(d)
        if what in ('isend', 'notend', 'isbegin'):
            return True
        # the element referred to lies before the position: it must exist
        if s == 'e' and (move <= 0 and what == 'old' or move < 0):
            return refine(st, 'ugt', 64, n, 0) if move < 0 else False
        if s == 'e' or move < 0:
            return False
        return refine(st, 'ugt', 64, n, move if what != 'old' else 0)

    @op('r%s_%s_%s' % (c, s, name), 'a:V', const=True, assume=assume)
    def f(r):
        d = r.pre['a']
        n = length(d)
        if what in ('isend', 'notend', 'isbegin'):
            r.unchanged('a', 'iterate')
            # position n for rbegin, 0 for rend
            for q, t in (r.split('eq', n, 0) if (what == 'isbegin') != (s == 'b') else [(r, True)]):
                q.retbool(t != (what == 'notend'), 'iterate')
            return
        cur = (n if s == 'b' else 0)
        if d[0] != 'null' and what != 'old':
            cur = sub(64, cur, move & (1 << 64) - 1)
        deref(r, sub(64, cur, 1), what == 'key')


RUSES = [('deref', 0, ''), ('arrow', 0, ''), ('value', 0, ''), ('inc', 1, ''), ('pincold', 1, 'old'), ('dec', -1, ''), ('key', 0, 'key'),
         ('isend', 0, 'isend'), ('notend', 0, 'notend'), ('isbegin', 0, 'isbegin')]
for c_ in 'mck':
    for s_ in 'be':
        for u_ in RUSES:
            _ruse(c_, s_, *u_)


# ---- offsets and order ------------------------------------------------------------------
def fwdback(fn, *params, **kw):
    """the offset is either not negative or not positive"""
    def d(spec):
        for t in 'pn':
            op(fn + ' ' + t, *params, 'd:%s64' % t, **kw)(spec)
            OPS[fn + ' ' + t].fn = fn
    return d


def _off(c, name, sign, keep=False):
    def assume(run, st):
        d = run.pre['a']
        i, x = run.arg['i'], run.arg['d']
        n = d[2] if d[0] == 'array' else BIGSZ
        if not inrange(run, st, i, 0, n):
            return False
        return d[0] != 'array' or within(run, st, add(64, i, x) if sign > 0 else sub(64, i, x), n)

    @fwdback('o%s_%s' % (c, name), 'a:V', 'i:i64', const=True, assume=assume)
    def f(r):
        d = r.pre['a']
        if d[0] == 'object':
            return r.throws('iter', 'iterate')
        i, x = simp(r, r.arg['i']), simp(r, r.arg['d'])
        deref(r, 0 if d[0] == 'null' else i if keep else add(64, i, x) if sign > 0 else sub(64, i, x))


def _objoff(c, name):
    @op('o%s_obj_%s' % (c, name), 'a:V', 'd:i64', const=True)
    def f(r):
        if r.pre['a'][0] == 'object':
            return r.throws('iter', 'iterate')


def _order(c, name):
    def assume(run, st):
        d = run.pre['a']
        n = d[2] if d[0] == 'array' else BIGSZ
        return all(inrange(run, st, run.arg[x], 0, n) for x in 'ij')

    @op('o%s_%s' % (c, name), 'a:V', 'i:i64', 'j:i64', const=True, assume=assume)
    def f(r):
        d = r.pre['a']
        r.unchanged('a', 'iterate')
        if d[0] == 'object':
            return r.throws('iter', 'iterate')
        if name == 'diff':
            if d[0] != 'array':
                return r.throws('iter', 'iterate')
            return r.retint(sub(64, simp(r, r.arg['i']), simp(r, r.arg['j'])), 'iterate')
        i, j = (0, 0) if d[0] == 'null' else (r.arg['i'], r.arg['j'])
        if d[0] == 'null' and name in ('lt', 'gt', 'le', 'ge'):
            if r.how == 'throw':
                return r.throws('iter', 'iterate')
        p = {'eq': 'eq', 'ne': 'ne', 'lt': 'slt', 'gt': 'sgt', 'le': 'sle', 'ge': 'sge'}[name]
        for q, t in r.split(p, i, j):
            q.retbool(t, 'iterate')


def _two(c, name):
    @op('o%s_two_%s' % (c, name), 'a:V', 'b:V', const=True)
    def f(r):
        if name in ('eq', 'ne'):
            return r.retbool(name == 'ne', 'iterate')
        r.throws('iter', 'iterate')


def _same(c, name):
    def f(r):
        d = r.pre['a']
        if name == 'lt':
            if d[0] == 'object' or d[0] == 'null' and r.how == 'throw':
                return r.throws('iter', 'iterate')
            for q, t in r.split('eq', length(d), 0):
                q.retbool(not t, 'iterate')
            return
        if d[0] != 'array':
            return r.throws('iter', 'iterate')
        r.retint(d[2], 'iterate')
    op('o%s_span%s' % (c, name), 'a:V', const=True)(f)


def _nil(c, name, *par):
    @op('z%s_%s' % (c, name), 'a:V', *par, const=True)
    def f(r):
        r.unchanged('a', 'iterate')
        if name in ('eq', 'req', 'ne'):
            return r.retbool(name == 'ne', 'iterate')
        r.throws('iter', 'iterate')


for c_ in 'mc':
    for n_, s_ in (('add', 1), ('addto', 1), ('addret', 1), ('sub', -1), ('subfrom', -1)):
        _off(c_, n_, s_)
    _off(c_, 'addkeep', 1, True)
    _objoff(c_, 'add')
    _objoff(c_, 'sub')
    for n_ in ('diff', 'eq', 'ne', 'lt', 'gt', 'le', 'ge'):
        _order(c_, n_)
        _two(c_, n_)
    _same(c_, '')
    _same(c_, 'lt')
    for n_ in ('deref', 'inc', 'dec', 'key', 'diff', 'rdiff', 'lt', 'gt', 'eq', 'req', 'ne'):
        _nil(c_, n_)
    _nil(c_, 'add', 'd:i64')
    _nil(c_, 'sub', 'd:i64')


# ---- whole traversals ---------------------------------------------------------------------
def ext_visit(c, v):
    c.st.mon['visit'] = c.st.mon.get('visit', ()) + (v,)
    return None


valspec.EXT['ext_visit'] = ext_visit


def _walk(fn, back):
    @op(fn, 'a:V', const=True)
    def f(r):
        r.returns('iterate')
        r.unchanged('a', 'iterate')
        d = r.pre['a']
        n = simp(r, length(d))
        v = r.st.mon.get('visit', ())
        r.check(eq(r.st, n, len(v)), 'iterate', '%d elements are visited of %r' % (len(v), n))
        for k, p in enumerate(v[::-1] if back else v):
            w = r.p('a') if d[0] not in ('array', 'object') else containers.elem(d[4], k) if d[0] == 'array' else mapped(containers.nodept(d[4], k))
            r.check(isinstance(p, Ptr) and p.r == w.r and offdiff(r.st, p.o, w.o) == 0, 'iterate', 'the elements are not visited in order')


for n_ in ('range', 'crange', 'loop', 'cloop'):
    _walk('t_' + n_, False)
for n_ in ('back', 'rev', 'crev', 'rback'):
    _walk('t_' + n_, n_ != 'rback')


def run_op(mod, L, rep, name):
    valspec.run_op(mod, L, rep, name, ops=OPS)
