"""What every operation of a value does, for every kind of operand: the specification the IR of each entry point of
harness/value.cpp is compared with, path by path.

A path is started for every combination of operand kinds; sizes, numbers and contents are symbols.  Contents of strings
and containers are tokens: a container that was not touched has the token it started with, a copy carries the token of
its source, and every modification wraps it (engine/containers.py).  At the end of a path the operands, the result and
every allocation are inspected."""
from .values import *
from .state import *
from .interp import *
from .models import Models, Monitor, Ctx
from . import containers, layout as lay
from .containers import NODE, tok
from .layout import KINDS, ValuePolicy

BIGSZ = 1 << 40
OWNED = ('string', 'array', 'object')
MODEL = {'string': 'str', 'array': 'vec', 'object': 'map'}
X = {'type': '_ZTIN8configor19configor_type_errorE', 'key': '_ZTIN8configor20configor_invalid_keyE',
     'iter': '_ZTIN8configor25configor_invalid_iteratorE', 'range': '_ZTISt12out_of_range', 'alloc': '_ZTISt9bad_alloc'}
CP = ('integer', 'floating', 'boolean')


class VMon(Monitor):
    watch_store = True

    def __init__(self, const):
        self.const = const

    def event(self, c, name, *d):
        st = c.st
        if name == 'alloc':
            st.mon['new'] = st.mon.get('new', ()) + (d[0].r,)
        elif name == 'free':
            g = st.mem[d[0].r]
            live = [k for k in g.cells if isinstance(k, tuple)]
            if live or g.lazy[0] == 'pay':
                c.it.violation(st, 'leak', 'a payload is deallocated without being destroyed')
        elif name == 'guard':
            st.mon['guard'] = st.mon.get('guard', 0) + d[0]
        elif name == 'cmp':
            x, y = c.getM(d[1]), c.getM(d[2])
            if x and y and x[0] == y[0] and x[0] in ('vec', 'map'):
                return c.it.bool(st, cterm(d[0], tok(st, x), tok(st, y)))
        return None

    def writes(self, it, st, p):
        if not self.const:
            return
        if p.r in st.mon['ro']:
            it.violation(st, 'const-write', 'an operation that only reads a value writes to it')
        if isinstance(p.r, str) and p.r[0] == '@' and not st.mon.get('guard') and not p.r.startswith('@_ZGV'):
            it.violation(st, 'const-write', 'an operation that only reads a value writes to the shared object %s' % p.r[1:])

    def on_store(self, it, st, p, v, size):
        self.writes(it, st, p)

    def on_setM(self, it, st, p, old, m):
        if old is None or m is None or old[:3] != m[:3]:
            self.writes(it, st, p)


def cterm(op, x, y):
    if op == '==':
        x, y = sorted((x, y), key=repr)
    return opk(1, 'c' + op, x, y)


# ---- denotations ---------------------------------------------------------------------
def den(it, st, p):
    """(kind, content...) of the value at p; ('undef',) when there is none"""
    L = it.layout
    k = L.kindof(it, st, p)
    if k is None or k == 'undef':
        return ('undef',)
    if k == 'null':
        return ('null',)
    v = L.payload(it, st, p, k)
    if k in CP:
        return (k, v)
    if not isinstance(v, Ptr):
        return (k, v)
    g = st.mem.get(v.r)
    if g is None or not g.alive:
        return (k, UNDEF)
    m = Ctx(it, st, None, None, None).getM(v, MODEL[k], st)
    if m is None:
        return (k, UNDEF)
    return (k, m[1] if k == 'string' else tok(st, m), m[2] if k == 'string' else m[1], v, m)


def eq(st, x, y):
    if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
        w = x.w if isinstance(x, Lin) else y.w if isinstance(y, Lin) else 64
        x, y = (st.simp(i) if isinstance(i, Lin) else i for i in (x, y))
        return decide(st, 'eq', w, x, y) is True
    return x == y


def tokeq(st, x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(tokeq(st, i, j) for i, j in zip(x, y))
    if x == '*' or y == '*':
        return True
    return eq(st, x, y)


def same(st, x, y):
    """the two denotations are the same value in every instance of this path"""
    if x[0] != y[0]:
        return False
    if x[0] == 'null':
        return True
    if x[0] in CP:
        return eq(st, x[1], y[1]) and x[1] is not UNDEF
    if len(x) < 3 or len(y) < 3:
        return False
    if not eq(st, x[2], y[2]):
        return False
    if eq(st, x[2], 0):
        return True
    return tokeq(st, x[1], y[1])


def show(d):
    if d[0] in OWNED and len(d) > 2:
        return '%s of %r' % (d[0], d[2])
    return ' '.join(str(x) for x in d)


class Fail(Exception):
    pass


class R:
    """one finished path of one entry point"""

    def __init__(self, run, it, st, how, v):
        self.run = run
        self.it = it
        self.st = st
        self.how = how
        self.v = v
        self.ti = v[0] if how == 'throw' else None
        self.pre = run.pre
        self.arg = run.arg
        self.op = run.op

    def p(self, n):
        return Ptr('$' + n, 0)

    def post(self, n):
        return den(self.it, self.st, self.p(n))

    def fail(self, rule, msg):
        self.run.report(self.st, rule, msg)
        raise Fail

    def check(self, cond, rule, msg):
        self.run.obl += 1
        if not cond:
            self.fail(rule, msg)

    def unchanged(self, n, rule='access', why='is changed'):
        x, y = self.pre[n], self.post(n)
        self.check(same(self.st, x, y) and (len(x) < 4 or x[3] == y[3] and (x[4][2] == y[4][2] or x[0] == 'string' or eq(self.st, y[2], 0))), rule,
                   'a value (%s) %s: it is %s afterwards' % (show(x), why, show(y)))

    def throws(self, kind, rule='access', unchanged=('a',)):
        """the path must end in this exception and leave the operands alone"""
        self.check(self.how == 'throw' and self.ti == X[kind], rule, 'expected the exception %s, but the call %s' % (
            X[kind][4:], 'returns' if self.how == 'return' else 'throws %s' % (self.ti or '?')[4:]))
        for n in unchanged:
            self.unchanged(n, rule, 'is changed by a call that fails')

    def returns(self, rule='access'):
        self.check(self.how == 'return', rule, 'the call throws %s' % (self.ti or '?')[4:])

    def retptr(self, q, rule='access', what='the element'):
        self.returns(rule)
        v = self.v
        if q == 0:
            self.check(isinstance(v, int) and v == 0, rule, 'a result is returned where there is none')
            return
        ok = isinstance(v, Ptr) and v.r == q.r and offdiff(self.st, v.o, q.o) == 0
        self.check(ok, rule, 'the call does not return %s (%r, not %r)' % (what, v, q))

    def isval(self, n, d, rule, what):
        x = self.post(n)
        self.check(same(self.st, x, d), rule, '%s is %s, not %s' % (what, show(x), show(d)))

    def split(self, p, a, b, w=64):
        """continue the check separately for both outcomes of an open condition"""
        if isinstance(a, Lin) or isinstance(b, Lin):
            r = relknown(self.st, p, w, a, b)
            if r is not None:
                return [(self, r)]
        c = Ctx(self.it, self.st, None, None, None)
        return [(self.at(s), t) for s, t in c.split(self.st, p, a, b, w)]

    def at(self, s):
        r = R.__new__(R)
        r.__dict__ = dict(self.__dict__)
        r.st = s
        return r

    def term(self, *ts):
        """truth of a condition that the code may have consulted through any of these equivalent terms"""
        for t, neg in ts:
            t = self.st.simp(t)
            if isinstance(t, int):
                return [(self, bool(t) != neg)]
            r = self.st.ranges(t)
            if r in (((0, 0),), ((1, 1),)):
                return [(self, bool(r[0][0]) != neg)]
        t, neg = ts[0]
        out = []
        for b in (0, 1):
            s = self.st.fork()
            if assume_in(s, t, ((b, b),))[0]:
                out.append((self.at(s), bool(b) != neg))
        return out

    def retbool(self, want, rule):
        self.returns(rule)
        v = self.v
        v = self.st.simp(v) if isinstance(v, Lin) else v
        ok = isinstance(v, (int, Lin)) and decide(self.st, 'eq', v.w if isinstance(v, Lin) else 8, v, int(want)) is True
        self.check(ok, rule, 'the result is %r where it must be %r' % (v, bool(want)))

    def retint(self, want, rule='access'):
        self.returns(rule)
        self.check(eq(self.st, self.v, want), rule, 'the result is %r, not %r' % (self.v, want))

    # parts
    def memo(self, n, key):
        """how the member `key` of the object was looked up: node pointer, 'absent' or None"""
        d = self.post(n)
        for k, res in d[4][4] if len(d[4]) > 4 else ():
            if k == key:
                return res
        return None

    def elem(self, n, i):
        return containers.elem(self.pre[n][4], i)


def mapped(node):
    return Ptr(node.r, addoff(node.o, 32 + 32))


# ---- well-formedness and ownership ----------------------------------------------------
def values_in(it, st, r, stride, hdr, n=None, base=0):
    """addresses of the values whose kind is known in the storage of a container"""
    L = it.layout
    out = []
    for o, c in list(st.mem[r].cells.items()):
        if isinstance(o, tuple) or c[1] != L.tagsize:
            continue
        x = (o if isinstance(o, int) else o.c) - L.tag - hdr
        if x % stride == 0:
            if n is not None:
                i = binop(st, 'sdiv', 64, sub(64, addoff(o, -L.tag), base), stride)
                if decide(st, 'ult', 64, st.simp(i) if isinstance(i, Lin) else i, n) is not True:
                    continue
            out.append(Ptr(r, addoff(o, -L.tag)))
    return out


def ownership(r, roots, always=()):
    """every value reachable from the roots is well formed, and every payload has exactly one owner"""
    it, st, L = r.it, r.st, r.it.layout
    own = {}
    work = [(p, what, True) for p, what in roots]
    while work:
        p, what, top = work.pop()
        k = L.kindof(it, st, p)
        if k == 'undef' or k is None:
            r.fail('kind-payload', '%s has no defined kind' % what)
        if k == 'null':
            continue
        v = L.payload(it, st, p, k)
        r.run.obl += 1
        if k in CP:
            okay = isinstance(v, Op) if k == 'floating' else isinstance(v, (int, Lin))
            if v is UNDEF or not okay:
                r.fail('kind-payload', '%s is of kind %s, but the payload is not' % (what, k))
            if k == 'boolean' and not all(b <= 1 for a, b in (st.ranges(v) if isinstance(v, Lin) else ((v, v),))):
                r.fail('kind-payload', '%s is a boolean that is neither true nor false' % what)
            continue
        if not isinstance(v, Ptr):
            r.fail('kind-payload', '%s is of kind %s, but has no payload' % (what, k))
        g = st.mem.get(v.r)
        if g is None or not g.alive:
            r.fail('dead-access', '%s refers to a payload that was released' % what)
        lz = g.lazy[1] if g.lazy[0] == 'pay' else None
        m = g.cells.get(('M', 0))
        have = m[0] if m else lz
        if have != MODEL[k] or v.o != 0:
            r.fail('kind-payload', '%s is of kind %s, but its payload is %s' % (what, k, have or 'not constructed'))
        if g.kind != 'heap':
            r.fail('kind-payload', '%s refers to a payload it does not own' % what)
        if v.r in own:
            r.fail('shared', 'one payload belongs to two values: %s and %s' % (own[v.r], what))
        own[v.r] = what
        if m and m[0] == 'vec' and m[2].r in st.mem:
            for q in values_in(it, st, m[2].r, L.size, 0, m[1], m[2].o):
                if isinstance(m[3][1], int) and m[3][1] == L.size:
                    work.append((q, 'an element of ' + what, False))
        elif m and m[0] == 'map':
            for reg in {m[2].r} | {x.r for _, x in (m[4] if len(m) > 4 else ()) if isinstance(x, Ptr)}:
                if reg in st.mem:
                    for q in values_in(it, st, reg, NODE, 64):
                        work.append((q, 'a member of ' + what, False))
    for reg in st.mon.get('new', ()) + r.run.payloads:
        g = st.mem.get(reg)
        if g is None or not g.alive or g.kind != 'heap' or reg in own or g.info == 'absorbed':
            continue
        r.fail('leak', 'a payload is never released (%s)' % ('allocated here' if reg in st.mon.get('new', ()) else 'of an operand'))


# ---- running one entry ----------------------------------------------------------------
class Run:
    def __init__(self, mod, L, rep, op, kinds, fail=True):
        self.mod, self.L, self.rep, self.op, self.kinds = mod, L, rep, op, kinds
        self.fail = fail
        self.obl = 0
        self.paths = 0

    def report(self, st, rule, msg):
        it = self.it
        if st.imp:
            k = 'suppressed: %s (%s)' % (rule, st.why)
            it.notes[k] = it.notes.get(k, 0) + 1
            return
        fn = self.mod.funcs[self.op.fn]
        tgt = None
        for b in fn.blocks:
            for I in b:
                if tgt is None and I.o in ('call', 'invoke') and isinstance(I.f[1], Fn):
                    t = self.mod.funcs.get(I.f[1].n)
                    if t is not None and t.qual.startswith('configor::'):
                        tgt = t
        name = tgt.qual if tgt else self.op.fn
        loc = '%s:%s' % (tgt.blocks[0][0].fl, tgt.blocks[0][0].l) if tgt and not tgt.decl else 'harness/value.cpp (%s)' % self.op.fn
        tr = []
        t = st.trace
        while t:
            tr.append(str(t[1]))
            t = t[0]
        key = (rule, name, self.op.fn)
        if key not in it.violations:
            it.violations[key] = dict(rule=rule, message='%s [%s%s]: %s' % (self.op.fn, ', '.join('%s is %s' % x for x in sorted(self.kinds.items())),
                                      '' if self.kinds else 'any', msg), location=loc, function='%s (%s)' % (name, self.op.fn), stack=[], path=tr[::-1])

    def go(self, limit=4000):
        op, L = self.op, self.L
        it = self.it = Interp(self.mod, Models(dict(EXT)), VMon(op.const))
        it.layout = L
        it.tokens = True
        it.alloc_fail = self.fail
        it.float_opaque = True
        st = State()
        c = Ctx(it, st, None, None, None)
        args, self.arg = [], {}
        pays = []
        for n, t in op.params:
            if n == 'self':
                args.append(Ptr('$a', 0))
                continue
            if t == 'V':
                st.new_region('obj', L.size, ('undef',), name='$' + n)
                k = self.kinds[n]
                v = None
                if k in OWNED:
                    v = L.newpayload(st, k, name='$%s.%s' % (n, k))
                    pays.append(v.r)
                L.write(it, st, Ptr('$' + n, 0), k, v)
                if v is not None:
                    c.getM(v, MODEL[k], st)
                args.append(Ptr('$' + n, 0))
            elif t == 'raw':
                st.new_region('obj', L.size, ('undef',), name='$' + n)
                args.append(Ptr('$' + n, 0))
            elif t == 'raw8':
                st.new_region('obj', 8, ('any',), name='$' + n)
                args.append(Ptr('$' + n, 0))
            elif t in ('A', 'O'):
                st.new_region('obj', 48, ('pay', MODEL['array' if t == 'A' else 'object']), name='$' + n)
                m = c.getM(Ptr('$' + n, 0), MODEL['array' if t == 'A' else 'object'], st)
                self.arg[n] = ('array' if t == 'A' else 'object', tok(st, m), m[1], Ptr('$' + n, 0), m)
                args.append(Ptr('$' + n, 0))
            elif t == 'S':
                st.new_region('obj', 32, ('any',), name='$' + n)
                m = c.getM(Ptr('$' + n, 0), 'str', st)
                self.arg[n] = ('string', m[1], m[2])
                args.append(Ptr('$' + n, 0))
            elif t == 'cstr':
                st.new_region('obj', None, ('sym', '$' + n, 'chars'), name='$' + n)
                a = st.fresh(64, tag='str', name='$%s+0.cstr' % n)
                ln = st.fresh(64, ((0, BIGSZ),), name='$%s+0.strlen' % n)
                self.arg[n] = ('string', a, ln)
                args.append(Ptr('$' + n, 0))
            elif t == 'kind':
                args.append(L.kind[self.kinds[n]])
            elif t in ('f32', 'f64'):
                v = Op('arg', n)
                self.arg[n] = v
                args.append(v)
            else:
                w = int(t[1:])
                v = st.fresh(w, name='$' + n) if t[0] in 'iu' else st.fresh(w, ((0, BIGSZ),), name='$' + n)
                if t[0] == 'n':
                    v = sub(w, 0, v)
                self.arg[n] = v
                args.append(v)
        self.payloads = tuple(pays)
        self.pre = {n: den(it, st, Ptr('$' + n, 0)) for n, t in op.params if t == 'V' and n != 'self'}
        if 'e' in self.kinds:
            self.makepart(c, st)
        st.mon['ro'] = frozenset(st.mem) - {'$' + n for n, t in op.params if t == 'raw'}
        if op.assume is not None and op.assume(self, st) is False:
            return it
        ends = []
        it.finish = lambda i, s, how, v: ends.append((s, how, v))
        it.enter(st, self.mod.funcs[op.fn], args)
        work = [st]
        heads = {}
        n = 0
        while work:
            s = work.pop()
            if s.pend == 'H' or s.frames and self._athead(s):
                k = tuple((id(f.fn), f.b) for f in s.frames)
                h = s.mon.get('heads', ())
                if h.count(k) >= 3:
                    it.notes['loop cut after three rounds'] = it.notes.get('loop cut after three rounds', 0) + 1
                    continue
                s.mon['heads'] = h + (k,)
            n += 1
            if n > limit:
                it.notes['path limit'] = it.notes.get('path limit', 0) + 1
                break
            work.extend(it.run(s))
            while ends:
                self.end(*ends.pop())
        it.stats['obligations'] = it.stats.get('obligations', 0) + self.obl
        return it

    def makepart(self, c, st):
        """the element under the index i or the member under the key k, of the kind to be examined"""
        it, L, d = self.it, self.L, self.pre['a']
        k = self.kinds['e']
        v = L.newpayload(st, k, name='$e.' + k) if k in OWNED else None
        if v is not None:
            self.payloads += (v.r,)
            c.getM(v, MODEL[k], st)
        if d[0] == 'array':
            refine(st, 'ult', 64, self.arg['i'], d[2])
            p = containers.elem(d[4], self.arg['i'])
        else:
            refine(st, 'ugt', 64, d[2], 0)
            j = st.fresh(64, ((0, BIGSZ),))
            refine(st, 'ult', 64, j, d[2])
            node = containers.nodept(d[4], j)
            c.setM(d[3], d[4][:4] + (d[4][4] + ((('s', self.arg['k'][1]), node),),), st)
            p = mapped(node)
        L.write(it, st, p, k, v)
        self.pre['e'] = den(it, st, p)
        self.pre['a'] = den(it, st, Ptr('$a', 0))

    def _athead(self, s):
        f = s.frames[-1]
        return f.ip == 0 and f.b in f.fn.heads

    def end(self, st, how, v):
        self.paths += 1
        r = R(self, self.it, st, how, v)
        try:
            if how == 'return':
                pass
            roots = [(Ptr('$' + n, 0), 'the operand ' + n) for n, t in self.op.params if t == 'V' and n != 'self' and not (n in self.op.consumed and how == 'return')]
            roots += [(Ptr('$' + n, 0), 'the result') for n, t in self.op.params if t == 'raw' and how == 'return']
            ownership(r, roots)
            if how == 'throw' and r.ti == X['alloc'] and self.fail:
                return
            self.op.spec(r)
        except Fail:
            pass
        except Dead:
            pass
        except ForkTo as e:
            for s in e.states:
                self.end(s, how, v)


class Operation:
    def __init__(self, fn, params, spec, const=False, consumed=(), assume=None, only=None, part=None, ext=None, kinds=None):
        self.fn = fn
        self.params = params
        self.spec = spec
        self.const = const
        self.consumed = consumed
        self.assume = assume
        self.only = only
        self.part = part        # the operand a is a container with a part `e` whose kind is enumerated, too
        self.ext = ext
        self.kinds = kinds

    def combos(self):
        ks = [n for n, t in self.params if t in ('V', 'kind') and n != 'self']
        out = [{}]
        for n in ks:
            out = [dict(d, **{n: k}) for d in out for k in (self.only or KINDS if n == 'a' or self.only is None else KINDS)]
        if self.part:
            out = [dict(d, **x) for d in out for x in ([dict(e=k) for k in KINDS] if d['a'] == self.part else [{}])]
        return out


OPS = {}


def op(fn, *params, **kw):
    def d(spec):
        OPS[fn] = Operation(fn, [tuple(x.split(':')) for x in params], spec, **kw)
        return spec
    return d


ZERO = {'null': ('null',), 'integer': ('integer', 0), 'floating': ('floating', Op('fc', 0.0)), 'boolean': ('boolean', 0),
        'string': ('string', ('lit', ()), 0), 'array': ('array', '*', 0), 'object': ('object', '*', 0)}


# ---- the caller's own conversions ------------------------------------------------------
def ext_to_value(c, v, u):
    """a conversion may throw at once, fail half way, or leave any kind of value behind"""
    st, it, L = c.st, c.it, c.it.layout
    def put(s, k, name):
        pl = None
        if k in OWNED:
            pl = L.newpayload(s, k, name=name)
            Ctx(it, s, None, None, None).getM(pl, MODEL[k], s)
            s.mon['new'] = s.mon.get('new', ()) + (pl.r,)
        L.write(it, s, v, k, pl)
    old = L.kindof(it, st, v)
    it.mark(st, 'the conversion starts on a value that is %s' % old)
    st.mon['ext'] = old
    out = []
    s = st.fork()
    it.mark(s, 'and throws')
    out.append((s, Throw('_ZTI7failure')))
    if old != 'null':
        it.violation(st, 'wrong-kind', 'a conversion is given a value that is %s, not null' % old)
    for k in KINDS:
        for bad in (False, True):
            s = st.fork()
            put(s, k, '$new.' + k)
            s.mon['made'] = den(it, s, v)
            it.mark(s, 'and makes it %s%s' % (k, ', then throws' if bad else ''))
            out.append((s, Throw('_ZTI7failure') if bad else None))
    return Forks(out)


def ext_from_value(c, v, u):
    st = c.st
    st.mon['from'] = (v, u)
    s = st.fork()
    s.mon['failed'] = True
    c.it.mark(s, 'the conversion throws')
    return Forks([(st, None), (s, Throw('_ZTI7failure'))])


EXT = {'ext_to_value': ext_to_value, 'ext_from_value': ext_from_value}
X['user'] = '_ZTI7failure'


# ---- construction, assignment -----------------------------------------------------------
@op('v_default', 'r:raw')
@op('v_null', 'r:raw')
def _(r):
    r.returns('value')
    r.isval('r', ZERO['null'], 'value', 'a default constructed value')


@op('v_kind', 'r:raw', 't:kind')
def _(r):
    r.returns('value')
    r.isval('r', ZERO[r.run.kinds['t']], 'value', 'a value constructed from a kind')


@op('v_copy', 'r:raw', 'a:V', const=True)
@op('q_get_value', 'r:raw', 'a:V', const=True)
def _(r):
    r.returns('copy')
    r.isval('r', r.pre['a'], 'copy', 'the copy')
    r.unchanged('a', 'copy', 'is changed by being copied')


@op('v_move', 'r:raw', 'a:V')
def _(r):
    r.returns('move')
    r.isval('r', r.pre['a'], 'move', 'the value moved to')
    taken(r, 'r', 'a')
    r.isval('a', ('null',), 'move', 'the value moved from')


def taken(r, to, frm):
    x = r.pre[frm]
    if len(x) > 3:
        r.check(r.post(to)[3] == x[3], 'move', 'the payload is not transferred')


@op('v_dtor', 'a:V', consumed=('a',))
def _(r):
    r.returns('terminate')


@op('v_assign', 'a:V', 'b:V')
def _(r):
    r.isval('a', r.pre['b'], 'copy', 'the value assigned to')
    r.unchanged('b', 'copy', 'is changed by being copied')
    r.retptr(Ptr('$a', 0), 'copy', 'the value assigned to')


@op('v_massign', 'a:V', 'b:V')
def _(r):
    r.isval('a', r.pre['b'], 'move', 'the value assigned to')
    taken(r, 'a', 'b')
    r.isval('b', ('null',), 'move', 'the value moved from')
    r.retptr(Ptr('$a', 0), 'move', 'the value assigned to')


def _self(fn, what, two=True):
    @op(fn + ' self', 'a:V', 'self:V')
    def f(r):
        r.returns('self')
        r.unchanged('a', 'self', 'is changed by %s' % what)
    OPS[fn + ' self'].fn = fn


_self('v_assign', 'assigning it to itself')
_self('v_massign', 'move assigning it to itself')
_self('v_swap', 'swapping it with itself')
_self('v_stdswap', 'swapping it with itself')


@op('v_kassign', 'a:V', 't:kind')
def _(r):
    r.isval('a', ZERO[r.run.kinds['t']], 'value', 'a value assigned from a kind')
    r.retptr(Ptr('$a', 0), 'value', 'the value assigned to')


@op('v_swap', 'a:V', 'b:V')
@op('v_stdswap', 'a:V', 'b:V')
def _(r):
    r.returns('swap')
    for n, o in (('a', 'b'), ('b', 'a')):
        r.isval(n, r.pre[o], 'swap', 'a swapped value')
        x = r.pre[o]
        if len(x) > 3:
            r.check(r.post(n)[3] == x[3], 'swap', 'the payload is not exchanged')


@op('v_clear', 'a:V')
def _(r):
    r.returns('value')
    r.isval('a', ZERO[r.pre['a'][0]], 'value', 'a cleared value')


def _part(fn, key, rule, moved=False):
    kind = 'array' if key == 'i:i64' else 'object'
    @op(fn, 'a:V', key, part=kind)
    def f(r):
        if r.pre['a'][0] != kind:
            return r.throws('key', rule)
        if r.how == 'throw' and r.ti == X['range']:
            return r.fail(rule, 'the part exists, but is not found')
        r.returns(rule)
        r.isval('a', r.pre['e'], rule, 'a value assigned from a part of itself')
        if moved and len(r.pre['e']) > 3:
            r.check(r.post('a')[3] == r.pre['e'][3], rule, 'the payload is not transferred')


_part('v_assign_elem', 'i:i64', 'self')
_part('v_massign_elem', 'i:i64', 'self', True)
_part('v_assign_member', 'k:S', 'self')
_part('v_massign_member', 'k:S', 'self', True)
_part('v_swap_elem', 'i:i64', 'self', True)


def _reset(fn, kind, t):
    @op(fn, *(['a:V'] + (['x:' + t] if t else [])))
    def f(r):
        r.returns('value')
        if t in ('A', 'O'):
            d = r.arg['x']
        elif t:
            d = scalar(r, 'x', t)
        else:
            d = ZERO[kind]
        r.isval('a', d, 'value', 'a value reset to %s' % kind)


for f_, k_, t_ in (('null', 'null', ''), ('bool', 'boolean', 'i1'), ('int', 'integer', 'i64'), ('float', 'floating', 'f64'), ('string', 'string', 'S'),
                   ('array', 'array', 'A'), ('object', 'object', 'O'), ('array0', 'array', ''), ('object0', 'object', '')):
    _reset('v_reset_' + f_, k_, t_)


# ---- the caller's conversions -----------------------------------------------------------
@op('v_from_user', 'r:raw', 'u:raw8')
def _(r):
    if r.how == 'throw':
        return r.check(r.ti == X['user'], 'value', 'the exception of the conversion is replaced')
    r.isval('r', r.st.mon['made'], 'value', 'a value made by a conversion')


@op('v_set_user', 'a:V', 'u:raw8')
def _(r):
    if r.how == 'throw':
        r.check(r.ti == X['user'], 'value', 'the exception of the conversion is replaced')
        return r.unchanged('a', 'value', 'is changed by a call that fails')
    r.isval('a', r.st.mon['made'], 'value', 'a value assigned from a conversion')


@op('m_push_user', 'a:V', 'u:raw8')
@op('m_emplace_user', 'a:V', 'u:raw8')
def _(r):
    if r.how == 'throw' and r.ti == X['user']:
        if r.pre['a'][0] == 'null' and r.post('a')[0] == 'array':
            return r.isval('a', ZERO['array'], 'access', 'the array of a call that fails')
        return r.unchanged('a', 'access', 'is changed by a call that fails')
    if r.pre['a'][0] not in ('array', 'null'):
        return r.throws('type')
    r.returns()
    pushed(r, r.st.mon['made'])


@op('q_get_user', 'a:V', 'u:raw8')
def _(r):
    r.unchanged('a')
    v, u = r.st.mon['from']
    r.check(v == Ptr('$a', 0) and u == Ptr('$u', 0), 'access', 'the conversion is not given the value and the target')
    r.retbool(not r.st.mon.get('failed'), 'access')


# ---- construction from scalars and strings ----------------------------------------------
def scalar(r, n, t):
    v, st, it = r.arg[n], r.st, r.it
    if t == 'f64':
        return ('floating', v)
    if t == 'f32':
        return ('floating', Op('fpext', v))
    if t == 'i1':
        return ('boolean', zext(st, v, 1, 8))
    if t[0] in 'iu':
        w = int(t[1:])
        return ('integer', v if w == 64 else it.sext(st, v, w, 64) if t[0] == 'i' else zext(st, v, w, 64))
    return v


def _from(fn, t, const=False):
    @op(fn, 'r:raw', 'x:' + t, const=const)
    def f(r):
        r.returns('value')
        try:
            d = scalar(r, 'x', t)
        except ForkTo as e:
            for s in e.states:
                q = r.at(s)
                q.isval('r', scalar(q, 'x', t), 'value', 'a value constructed from a %s' % fn[7:])
            return
        r.isval('r', d, 'value', 'a value constructed from a %s' % fn[7:])


for f_, t_ in (('bool', 'i1'), ('char', 'i8'), ('short', 'i16'), ('int', 'i32'), ('uint', 'u32'), ('long', 'i64'), ('llong', 'i64'),
               ('float', 'f32'), ('double', 'f64'), ('string', 'S'), ('mstring', 'S'), ('cstr', 'cstr')):
    _from('v_from_' + f_, t_)


def _set(fn, t):
    @op(fn, *(['a:V'] + (['x:' + t] if t else [])))
    def f(r):
        d = ZERO['null'] if not t else None
        try:
            d = d or scalar(r, 'x', t)
        except ForkTo as e:
            for s in e.states:
                q = r.at(s)
                q.isval('a', scalar(q, 'x', t), 'value', 'a value assigned from a %s' % fn[6:])
            return
        r.isval('a', d, 'value', 'a value assigned from a %s' % fn[6:])
        r.retptr(Ptr('$a', 0), 'value', 'the value assigned to')


for f_, t_ in (('int', 'i32'), ('double', 'f64'), ('bool', 'i1'), ('string', 'S'), ('cstr', 'cstr'), ('null', '')):
    _set('v_set_' + f_, t_)


# ---- queries ------------------------------------------------------------------------------
@op('q_type', 'a:V', const=True)
def _(r):
    r.retint(r.it.layout.kind[r.pre['a'][0]], 'query')


def _is(fn, *ks):
    @op(fn, 'a:V', const=True)
    def f(r):
        r.retbool(r.pre['a'][0] in ks, 'query')


for k_ in ('object', 'array', 'string', 'integer', 'floating', 'null'):
    _is('q_is_' + k_, k_)
_is('q_is_bool', 'boolean')
_is('q_is_number', 'integer', 'floating')


@op('q_size', 'a:V', const=True)
def _(r):
    d = r.pre['a']
    r.retint(0 if d[0] == 'null' else d[2] if d[0] in ('array', 'object') else 1, 'query')


@op('q_empty', 'a:V', const=True)
def _(r):
    d = r.pre['a']
    if d[0] in ('array', 'object'):
        for q, t in r.split('eq', d[2], 0):
            q.retbool(t, 'query')
    else:
        r.retbool(d[0] == 'null', 'query')


def keyatom(r, n):
    return ('s', r.arg[n][1])


@op('q_count', 'a:V', 'k:S', const=True)
def _(r):
    if r.pre['a'][0] != 'object':
        return r.retint(0)
    m = r.memo('a', keyatom(r, 'k'))
    r.check(m is not None, 'access', 'count() does not look the key up')
    r.retint(0 if m == 'absent' else 1)


def _find(fn, const):
    @op(fn, 'a:V', 'k:S', const=const)
    def f(r):
        r.unchanged('a')
        if r.pre['a'][0] != 'object':
            return r.retptr(0)
        m = r.memo('a', keyatom(r, 'k'))
        r.check(m is not None, 'access', 'find() does not look the key up')
        r.retptr(0 if m == 'absent' else mapped(m), what='the member found')


_find('q_find', True)
_find('m_find', False)


def _at_i(fn, const):
    @op(fn, 'a:V', 'i:i64', const=const)
    def f(r):
        d = r.pre['a']
        if d[0] != 'array':
            return r.throws('key')
        for q, t in r.split('ult', r.arg['i'], d[2]):
            if t:
                q.unchanged('a')
                q.retptr(q.elem('a', q.st.simp(q.arg['i']) if isinstance(q.arg['i'], Lin) else q.arg['i']), what='the element at the index')
            else:
                q.throws('range')


def _at_k(fn, t, const):
    @op(fn, 'a:V', 'k:' + t, const=const)
    def f(r):
        if r.pre['a'][0] != 'object':
            return r.throws('key')
        m = r.memo('a', keyatom(r, 'k'))
        r.check(m is not None, 'access', 'the key is not looked up')
        if m == 'absent':
            return r.throws('range')
        r.unchanged('a')
        r.retptr(mapped(m), what='the member under the key')


for f_ in ('q_at', 'q_idx', 'm_at'):
    _at_i(f_ + '_i', f_[0] == 'q')
    _at_k(f_ + '_k', 'S', f_[0] == 'q')
    _at_k(f_ + '_cs', 'cstr', f_[0] == 'q')

PAY = {'bool': 'boolean', 'int': 'integer', 'float': 'floating', 'string': 'string', 'array': 'array', 'object': 'object'}


def _ptr(fn, k, const, ref):
    @op(fn, 'a:V', const=const)
    def f(r):
        d = r.pre['a']
        if d[0] != k:
            if ref:
                return r.throws('type')
            r.unchanged('a')
            return r.retptr(0)
        r.unchanged('a')
        r.retptr(d[3] if k in OWNED else Ptr('$a', r.it.layout.off[k]), what='the payload')


for n_, k_ in PAY.items():
    for f_ in ('q', 'm'):
        _ptr('%s_ptr_%s' % (f_, n_), k_, f_ == 'q', False)
        _ptr('%s_get_%s' % (f_, n_), k_, f_ == 'q', False)
        _ptr('%s_ref_%s' % (f_, n_), k_, f_ == 'q', True)


# ---- mutable access -------------------------------------------------------------------------
@op('m_idx_i', 'a:V', 'i:i64')
def _(r):
    d = r.pre['a']
    if d[0] not in ('array', 'null'):
        return r.throws('key')
    mx = ((1 << 63) - 1) // r.it.layout.size
    for q, t in r.split('ult', r.arg['i'], mx):
        if not t:
            q.throws('range', unchanged=('a',) if d[0] == 'array' else ())
            continue
        n0 = d[2] if d[0] == 'array' else 0
        for z, u in q.split('ult', r.arg['i'], n0):
            z.returns()
            i = z.st.simp(z.arg['i']) if isinstance(z.arg['i'], Lin) else z.arg['i']
            if u:
                z.unchanged('a')
                z.retptr(z.elem('a', i), what='the element at the index')
                continue
            x = z.post('a')
            z.check(x[0] == 'array' and len(x) > 3, 'access', 'a null value is not turned into an array')
            z.check(eq(z.st, x[2], add(64, i, 1)), 'access', 'the array has %r elements, not %r' % (x[2], add(64, i, 1)))
            z.check(appended(z, x, d[1] if d[0] == 'array' else '*', n0, sub(64, add(64, i, 1), n0)), 'access', 'the array is not extended with nulls up to the index (%r)' % (x[1],))
            z.retptr(containers.elem(x[4], i), what='the new element')
            if d[0] == 'array':
                z.check(x[3] == d[3], 'access', 'the array is replaced')


def appended(r, x, base, n0, k):
    """x is the content `base` of n0 elements followed by k nulls"""
    t, n = x[1], x[2]
    while t[0] in ('fill', 'push') and not eq(r.st, k, 0):
        if t[0] == 'fill':
            if t[4] != ('null',) or not eq(r.st, add(64, t[2], t[3]), n):
                return False
            j = t[3]
        else:
            j = 1
            if den(r.it, r.st, containers.elem(x[4], sub(64, n, 1))) != ('null',):
                return False
        n, k, t = sub(64, n, j), sub(64, k, j), t[1]
    return eq(r.st, k, 0) and (eq(r.st, n0, 0) or tokeq(r.st, t, base))


def _idx_k(fn, t):
    @op(fn, 'a:V', 'k:' + t)
    def f(r):
        d = r.pre['a']
        if d[0] not in ('object', 'null'):
            return r.throws('key')
        r.returns()
        x = r.post('a')
        r.check(x[0] == 'object' and len(x) > 3, 'access', 'a null value is not turned into an object')
        key = keyatom(r, 'k')
        m = r.memo('a', key)
        r.check(isinstance(m, Ptr), 'access', 'the member under the key is neither found nor created')
        r.retptr(mapped(m), what='the member under the key')
        if d[0] == 'object' and tokeq(r.st, x[1], d[1]):
            return r.unchanged('a')
        n0 = d[2] if d[0] == 'object' else 0
        r.check(eq(r.st, x[2], add(64, n0, 1)), 'access', 'the object has %r members, not one more than %r' % (x[2], n0))
        r.check(tokeq(r.st, x[1], ('put', d[1] if d[0] == 'object' else '*', key)), 'access', 'the object is changed otherwise than by the new member')
        r.check(den(r.it, r.st, mapped(m)) == ('null',), 'access', 'the new member is not null')
        if d[0] == 'object':
            r.check(x[3] == d[3], 'access', 'the object is replaced')


_idx_k('m_idx_k', 'S')
_idx_k('m_idx_cs', 'cstr')


def pushed(r, d, rule='access'):
    a = r.pre['a']
    x = r.post('a')
    n0 = a[2] if a[0] == 'array' else 0
    r.check(x[0] == 'array' and len(x) > 3, rule, 'the value is not an array afterwards')
    r.check(eq(r.st, x[2], add(64, n0, 1)), rule, 'the array has %r elements, not one more than %r' % (x[2], n0))
    r.check(tokeq(r.st, x[1], ('push', a[1] if a[0] == 'array' else '*', '*')), rule, 'the array is changed otherwise than by the new element')
    e = den(r.it, r.st, containers.elem(x[4], n0))
    r.check(same(r.st, e, d), rule, 'the new element is %s, not %s' % (show(e), show(d)))


def _push(fn, t, move=False):
    @op(fn, 'a:V', 'b:' + t)
    def f(r):
        if r.pre['a'][0] not in ('array', 'null'):
            return r.throws('type', unchanged=('a', 'b') if t == 'V' else ('a',))
        r.returns()
        try:
            d = r.pre['b'] if t == 'V' else scalar(r, 'b', t)
        except ForkTo as e:
            for s in e.states:
                q = r.at(s)
                pushed(q, scalar(q, 'b', t))
            return
        pushed(r, d)
        if move:
            r.isval('b', ('null',), 'move', 'the value moved from')
        elif t == 'V':
            r.unchanged('b')


_push('m_push', 'V')
_push('m_pushm', 'V', True)
_push('m_emplace_copy', 'V')
_push('m_emplace_int', 'i32')
_push('m_emplace_cstr', 'cstr')
_push('m_push_cstr', 'cstr')


@op('m_erase_k', 'a:V', 'k:S')
def _(r):
    d = r.pre['a']
    if d[0] != 'object':
        return r.throws('key')
    key = keyatom(r, 'k')
    x = r.post('a')
    if tokeq(r.st, x[1], d[1]) and x[4][2] == d[4][2]:
        r.check(r.memo('a', key) == 'absent', 'access', 'an object that may have the member is left unchanged')
        r.unchanged('a')
        return r.retint(0)
    r.check(tokeq(r.st, x[1], ('del', d[1], key)), 'access', 'the object is changed otherwise than by removing the member')
    r.check(x[3] == d[3], 'access', 'the object is replaced')
    r.retint(1)


def removed(r, at, n):
    d, x = r.pre['a'], r.post('a')
    r.returns()
    if eq(r.st, n, 0):
        return r.check(same(r.st, x, d) or tokeq(r.st, x[1], ('erase', d[1], '*', 0)), 'access', 'erasing nothing changes the value')
    z = eq(r.st, d[2], n)
    r.check(x[0] == d[0] and len(x) > 3 and x[3] == d[3], 'access', 'the value is replaced')
    r.check(eq(r.st, x[2], sub(64, d[2], n)), 'access', '%r elements remain, not %r' % (x[2], sub(64, d[2], n)))
    r.check(z or tokeq(r.st, x[1], ('erase', d[1], at, n)), 'access', 'other elements than the named ones are removed (%r)' % (x[1],))


@op('m_erase_i', 'a:V', 'i:i64')
def _(r):
    d = r.pre['a']
    if d[0] != 'array':
        return r.throws('key')
    for q, t in r.split('ult', r.arg['i'], d[2]):
        if t:
            removed(q, q.st.simp(q.arg['i']) if isinstance(q.arg['i'], Lin) else q.arg['i'], 1)
        else:
            q.throws('range')


def nonempty(run, st):
    d = run.pre['a']
    return refine(st, 'ugt', 64, d[2], 0) if d[0] in ('array', 'object') else True


def bound(p):
    def f(run, st):
        d = run.pre['a']
        return refine(st, p, 64, run.arg['i'], d[2]) if d[0] in ('array', 'object') else True
    return f


@op('m_erase_begin', 'a:V', assume=nonempty)
def _(r):
    if r.pre['a'][0] not in ('array', 'object'):
        return r.throws('iter')
    removed(r, 0, 1)


@op('m_erase_all', 'a:V')
def _(r):
    if r.pre['a'][0] not in ('array', 'object'):
        return r.throws('iter')
    removed(r, 0, r.pre['a'][2])


@op('m_erase_none', 'a:V')
def _(r):
    if r.pre['a'][0] not in ('array', 'object'):
        return r.throws('iter')
    removed(r, r.pre['a'][2], 0)


def _erase(fn, p, at, n):
    @op(fn, 'a:V', 'i:i64', assume=bound(p))
    def f(r):
        d = r.pre['a']
        if d[0] != 'array':
            return r.throws('iter')
        i = r.st.simp(r.arg['i'])
        for q, t in r.split('eq', n(d, i), 0):
            removed(q, at(d, i), n(d, i))


_erase('m_erase_tail', 'ule', lambda d, i: i, lambda d, i: sub(64, d[2], i))
_erase('m_erase_head', 'ule', lambda d, i: 0, lambda d, i: i)
_erase('m_erase_at', 'ult', lambda d, i: i, lambda d, i: 1)


# ---- comparison -----------------------------------------------------------------------------
def fl(v):
    return Op('fc', float(cen(v, 64))) if isinstance(v, int) else Op('sitofp', v)


def equal(r, x, y):
    if x[0] != y[0]:
        if {x[0], y[0]} == {'integer', 'floating'}:
            a = fl(x[1]) if x[0] == 'integer' else x[1]
            b = fl(y[1]) if y[0] == 'integer' else y[1]
            return fcmp(r, 'eq', a, b)
        return [(r, False)]
    k = x[0]
    if k == 'null':
        return [(r, True)]
    if k == 'floating':
        return fcmp(r, 'eq', x[1], y[1])
    if k in CP:
        return r.split('eq', x[1], y[1], 8 if k == 'boolean' else 64)
    if k == 'string':
        return streq(r, x, y)
    if decide(r.st, 'eq', 64, x[2], y[2]) is False or relknown(r.st, 'eq', 64, x[2], y[2]) is False:
        return [(r, False)]
    if eq(r.st, x[2], 0) and eq(r.st, y[2], 0):
        return [(r, True)]
    return r.term((cterm('==', x[1], y[1]), False))


def known(st, t):
    t = st.simp(t)
    if isinstance(t, int):
        return bool(t)
    k = st.ranges(t)
    return bool(k[0][0]) if k in (((0, 0),), ((1, 1),)) else None


def both(r, t):
    out = []
    for b in (0, 1):
        s = r.st.fork()
        if assume_in(s, t, ((b, b),))[0]:
            out.append((r.at(s), bool(b)))
    return out


def strfacts(r, x, y):
    e, l, g = opk(1, 'streq', *sorted((x[1], y[1]), key=repr)), opk(1, 'strlt', x[1], y[1]), opk(1, 'strlt', y[1], x[1])
    return e, known(r.st, e), l, known(r.st, l), known(r.st, g)


def streq(r, x, y):
    if x[1] == y[1]:
        return [(r, True)]
    e, ke, l, kl, kg = strfacts(r, x, y)
    if ke is None and (kl or kg):
        ke = False
    if ke is None and kl is False and kg is False:
        ke = True
    return [(r, ke)] if ke is not None else both(r, e)


def strlt(r, x, y):
    if x[1] == y[1]:
        return [(r, False)]
    e, ke, l, kl, kg = strfacts(r, x, y)
    if kl is None and (ke or kg):
        kl = False
    if kl is None and ke is False and kg is False:
        kl = True
    return [(r, kl)] if kl is not None else both(r, l)


def less(r, x, y):
    if x[0] != y[0]:
        if {x[0], y[0]} == {'integer', 'floating'}:
            a = fl(x[1]) if x[0] == 'integer' else x[1]
            b = fl(y[1]) if y[0] == 'integer' else y[1]
            return fcmp(r, 'lt', a, b)
        return [(r, False)]
    k = x[0]
    if k == 'null':
        return [(r, False)]
    if k == 'floating':
        return fcmp(r, 'lt', x[1], y[1])
    if k in CP:
        return r.split('ult' if k == 'boolean' else 'slt', x[1], y[1], 8 if k == 'boolean' else 64)
    if k == 'string':
        return strlt(r, x, y)
    return r.term((cterm('<', x[1], y[1]), False))


def fcmp(r, p, a, b):
    if a.n == 'fc' and b.n == 'fc':
        return [(r, a.a[0] == b.a[0] if p == 'eq' else a.a[0] < b.a[0])]
    k = relknown(r.st, 'o' + p, 0, a, b)
    if k is not None:
        return [(r, k)]
    return [(r, True), (r, False)]


def _cmp(fn, name, xa, xb):
    """xa, xb: what the two sides are: 'a', 'b' (operands) or a scalar type"""
    ps = [(n + ':V') if n in ('a', 'b') else 'x:' + n for n in (xa, xb) if n != 'null']
    @op(fn, *ps, const=True)
    def f(r, done=False):
        for n in ('a', 'b'):
            if n in r.pre:
                r.unchanged(n, 'compare')
        def side(q, n):
            return q.pre[n] if n in ('a', 'b') else ('null',) if n == 'null' else scalar(q, 'x', n)
        try:
            x, y = side(r, xa), side(r, xb)
        except ForkTo as e:
            for s in e.states:
                f(r.at(s))
            return
        neg = name in ('ne', 'le', 'ge')
        if name in ('eq', 'ne'):
            res = equal(r, x, y)
        elif name in ('lt', 'ge'):
            res = less(r, x, y)
        else:
            res = less(r, y, x)
        for q, t in res:
            q.retbool(t != neg, 'compare')


for n_ in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    _cmp('c_' + n_, n_, 'a', 'b')
    for s_, t_ in (('int', 'i32'), ('bool', 'i1'), ('double', 'f64'), ('cstr', 'cstr'), ('null', 'null')):
        _cmp('c_%s_%s' % (n_, s_), n_, 'a', t_)
        _cmp('r_%s_%s' % (n_, s_), n_, t_, 'a')


def run_op(mod, L, rep, name, fail=True, ops=None):
    o = (ops or OPS)[name]
    for kinds in o.combos():
        r = Run(mod, L, rep, o, kinds, fail)
        it = r.go()
        rep.engine(it, name)
        rep.count('paths', r.paths)
        rep.count('operand combinations')
