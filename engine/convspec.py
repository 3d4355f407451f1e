"""What conversions between C++ objects and values must do.

The containers of the C++ library are analysed from their own code here (only their external functions are models), with a
concrete number of elements that are themselves free; so whatever way the library walks or fills a container is followed."""
from .values import *
from .state import *
from .interp import *
from .models import Models, Ctx, Monitor, REG, WILD
from . import build

KINDS = ('null', 'integer', 'floating', 'string', 'array', 'object', 'boolean')
NATIVE = ('std::vector', 'std::deque', 'std::list', 'std::forward_list', 'std::set', 'std::map', 'std::unordered_set', 'std::unordered_map', 'std::array',
          'std::_Rb_tree', 'std::__detail', 'std::_List', 'std::_Fwd_list', 'std::_Deque', 'std::_Vector', 'std::unique_ptr', 'std::shared_ptr', 'std::__shared',
          '__gnu_cxx::__normal_iterator', 'std::_Hashtable', 'std::pair', 'std::tuple')


class Native(Models):
    def __init__(self, extra):
        super().__init__()
        self.d = {k: f for k, f in REG.items() if not k.startswith(NATIVE)}
        self.d.update(extra)

    def wild(self, fn):
        if fn.qual.startswith(NATIVE) or fn.ctx.startswith(NATIVE):
            return None
        return super().wild(fn)


def say(tag):
    def f(c, *a):
        c.st.mon['said'] = c.st.mon['said'] + ((tag,) + a,)
        return None
    return f


def ext_item(c, i):
    return c.st.mon['items'][i]


def ext_old(c, i):
    return c.st.mon['olds'][i]


def rank(c, x):
    st = c.st
    for n in ('items', 'olds'):
        for i, y in enumerate(st.mon[n]):
            if x == y:
                return ORDER[i] + (100 if n == 'olds' else 0)
    st.note(2, 'comparison of unknown elements')
    raise Dead()


ORDER = tuple((7 * i + 3) % 20 for i in range(20))


def ext_less(c, a, b):
    return int(rank(c, a) < rank(c, b))


def ext_same(c, a, b):
    return int(rank(c, a) == rank(c, b))


def ext_key(c, p):
    m = c.getM(p, 'str')
    x = m and m[1]
    c.st.mon['said'] = c.st.mon['said'] + (('key', bytes(x[1]).decode('latin1') if isinstance(x, tuple) and x[0] == 'lit' else None),)
    return None


# ---- the library's external functions, for the containers analysed natively

class N:
    """a node of a library container: words of it, by their offset"""

    def __init__(self, c, p):
        self.c, self.p = c, p

    def at(self, o, ty='ptr'):
        return self.c.it.load(self.c.st, Ptr(self.p.r, addoff(self.p.o, o)), 8 if ty == 'ptr' else 4, ty)

    def to(self, o, v, size=8):
        self.c.it.store(self.c.st, Ptr(self.p.r, addoff(self.p.o, o)), v, size)


PARENT, LEFT, RIGHT = 8, 16, 24


def tree_insert(c, left, x, p, head):
    """the tree is not rebalanced: nothing but time depends on its shape"""
    n, q, h = N(c, x), N(c, p), N(c, head)
    n.to(PARENT, p), n.to(LEFT, 0), n.to(RIGHT, 0), n.to(0, 1, 4)
    if not isinstance(left, int):
        left = c.test('ne', left, 0)
    if left:
        q.to(LEFT, x)
        if p == head:
            h.to(PARENT, x), h.to(RIGHT, x)
        elif p == h.at(LEFT):
            h.to(LEFT, x)
    else:
        q.to(RIGHT, x)
        if p == h.at(RIGHT):
            h.to(RIGHT, x)
    return None


def tree_increment(c, x):
    y = N(c, x).at(RIGHT)
    if isinstance(y, Ptr):
        while isinstance(N(c, y).at(LEFT), Ptr):
            y = N(c, y).at(LEFT)
        return y
    y = N(c, x).at(PARENT)
    while x == N(c, y).at(RIGHT):
        x, y = y, N(c, y).at(PARENT)
    return y if N(c, x).at(RIGHT) != y else x


def tree_decrement(c, x):
    if N(c, x).at(0, 'i32') == 0:                  # the header is the only red node: from the end to the last
        return N(c, x).at(RIGHT)
    y = N(c, x).at(LEFT)
    if isinstance(y, Ptr):
        while isinstance(N(c, y).at(RIGHT), Ptr):
            y = N(c, y).at(RIGHT)
        return y
    y = N(c, x).at(PARENT)
    while x == N(c, y).at(LEFT):
        x, y = y, N(c, y).at(PARENT)
    return y


def list_hook(c, this, pos):
    prev = N(c, pos).at(8)
    N(c, this).to(0, pos), N(c, this).to(8, prev)
    N(c, prev).to(0, this), N(c, pos).to(8, this)
    return None


def list_unhook(c, this):
    a, b = N(c, this).at(0), N(c, this).at(8)
    N(c, b).to(0, a), N(c, a).to(8, b)
    return None


def list_transfer(c, this, first, last):
    if this != last and first != last:
        before, pre, end = N(c, this).at(8), N(c, first).at(8), N(c, last).at(8)
        N(c, end).to(0, this), N(c, pre).to(0, last), N(c, before).to(0, first)
        N(c, this).to(8, end), N(c, last).to(8, pre), N(c, first).to(8, before)
    return None


def list_swap(c, x, y):
    xe, ye = N(c, x).at(0) == x, N(c, y).at(0) == y
    xs, ys = (N(c, x).at(0), N(c, x).at(8)), (N(c, y).at(0), N(c, y).at(8))
    for p, e, (a, b) in ((x, ye, ys), (y, xe, xs)):
        if e:
            N(c, p).to(0, p), N(c, p).to(8, p)
        else:
            N(c, p).to(0, a), N(c, p).to(8, b), N(c, a).to(8, p), N(c, b).to(0, p)
    return None


def list_reverse(c, this):
    x = this
    while True:
        a, b = N(c, x).at(0), N(c, x).at(8)
        N(c, x).to(0, b), N(c, x).to(8, a)
        x = a
        if x == this:
            return None


def need_rehash(c, this, bkt, elt, ins):
    """the table always has thirteen buckets once it has any: more elements only make it slower"""
    if isinstance(bkt, int) and bkt >= 13:
        return ('agg', (0, 0))
    return ('agg', (1, 13))


def next_bkt(c, this, n):
    return max(n, 13) if isinstance(n, int) else 13


LIT = lambda x: isinstance(x, tuple) and x[0] == 'lit' and all(isinstance(i, int) for i in x[1])


def lits(c, a, b):
    x, y = c.getM(a, 'str'), c.getM(b, 'str')
    if not (x and y and LIT(x[1]) and LIT(y[1])):
        return None
    return tuple(x[1][1]), tuple(y[1][1])


def str_compare(c, this, *a):
    xy = isinstance(this, Ptr) and len(a) == 1 and isinstance(a[0], Ptr) and lits(c, this, a[0])
    if not xy:
        return REG['std::basic_string::compare'](c, this, *a)
    x, y = xy
    return 0 if x == y else M32 if x < y else 1


M32 = (1 << 32) - 1


def str_rel(name, f):
    def g(c, a, b):
        xy = 'basic_string' in c.f.prm and isinstance(a, Ptr) and isinstance(b, Ptr) and c.getM(a, 'str') and c.getM(b, 'str') and lits(c, a, b)
        if xy:
            return int(f(*xy))
        return REG[name](c, a, b)
    return g


def exchange_add(c, p, d):
    v = c.it.load(c.st, p, 4, 'i32')
    c.it.store(c.st, p, add(32, v, d), 4)
    return v


def word_add(c, p, d):
    exchange_add(c, p, d)
    return None


EXTERN = {
    'std::_Rb_tree_insert_and_rebalance': tree_insert,
    'std::_Rb_tree_increment': tree_increment,
    'std::_Rb_tree_decrement': tree_decrement,
    'std::__detail::_List_node_base::_M_hook': list_hook,
    'std::__detail::_List_node_base::_M_unhook': list_unhook,
    'std::__detail::_List_node_base::_M_transfer': list_transfer,
    'std::__detail::_List_node_base::swap': list_swap,
    'std::__detail::_List_node_base::_M_reverse': list_reverse,
    'std::__detail::_Prime_rehash_policy::_M_need_rehash': need_rehash,
    'std::__detail::_Prime_rehash_policy::_M_next_bkt': next_bkt,
    '__gnu_cxx::__exchange_and_add': exchange_add,
    '__gnu_cxx::__exchange_and_add_dispatch': exchange_add,
    '__gnu_cxx::__atomic_add': word_add,
    '__gnu_cxx::__atomic_add_dispatch': word_add,
    'std::_Hash_bytes': lambda c, *a: 5,
    'std::basic_string::compare': str_compare,
    'std::operator<': str_rel('std::operator<', lambda x, y: x < y),
    'std::operator==': str_rel('std::operator==', lambda x, y: x == y),
}


EXT = dict(ext_item=ext_item, ext_old=ext_old, ext_less=ext_less, ext_same=ext_same, ext_kind=say('kind'), ext_key=ext_key, ext_int=say('int'), ext_flag=say('flag'), ext_real=say('real'),
           ext_double=lambda c: c.st.mon['double'], ext_float=lambda c: c.st.mon['float'], ext_bit=lambda c: c.st.mon['bit'],
           ext_begin=lambda c, x: c.st.mon.__setitem__('lib', x))


# ---- the types: (shape, order, element); what they hold is a tree
F = ('int',)
V = ('value',)
vec = lambda e: ('seq', 'kept', e)
TYPES = dict(vec=vec(F), deq=vec(F), lst=vec(F), fwd=vec(F), set_=('seq', 'sorted', F), uset=('seq', 'bag', F), map_=('dict', 'sorted', F), umap=('dict', 'bag', F),
             arr=('fixed', 3, F), carr=('fixed', 3, F), uptr=('ptr', None, F), sptr=('ptr', None, F), avals=vec(V), ovals=('dict', 'sorted', V), vecvec=vec(vec(F)),
             mapvec=('dict', 'sorted', vec(F)), vecptr=vec(('ptr', None, F)), mapmap=('dict', 'sorted', ('dict', 'sorted', F)), lstset=vec(('seq', 'sorted', F)))
NAMES, OLDS = 'dbeacrtykgqnpmshjoif', 'bzf'
BUILDS = ('array', 'object', 'null', 'integer', 'floating', 'boolean', 'string', 'array with a string', 'object with a string', 'array of arrays', 'object of arrays', 'object of objects',
          'array with nulls', 'array of doubled elements')
NULL = ('null',)
ANY = ('any',)


def put(t, c, i, x, names):
    """the model of put() in the harness: c is the tree so far"""
    sh, order, e = t
    k = names[i]
    if sh == 'fixed':
        return ('seq', c[1][:i] + (x,) + c[1][i + 1:]) if i < 3 else c
    if sh == 'ptr':
        return ('ptr', x)
    if len(e) == 3 and e[0] == 'ptr':
        return ('seq', c[1] + (put(e, ('ptr', None), i, x, names) if i % 2 == 0 else ('ptr', None),))
    if sh == 'seq':
        if len(e) == 3:
            es = c[1] + (empty(e),) if i % 2 == 0 else c[1]
            return ('seq', es[:-1] + (put(e, es[-1], i, x, names),))
        return ('seq', c[1] + (x,)) if order == 'kept' or x not in c[1] else c
    d = dict(c[1])
    if len(e) == 3:
        k2 = NAMES[i // 2]
        d[k2] = put(e, d.get(k2, empty(e)), i, x, names)
    else:
        d[k] = x
    return ('dict', tuple(d.items()))


def empty(t):
    return ('ptr', None) if t[0] == 'ptr' else ('seq', (ANY,) * 3) if t[0] == 'fixed' else (t[0], ()) if t[0] != 'int' else ANY


def filled(t, n, item, names=NAMES, start=None):
    c = start or empty(t)
    for i in range(n):
        c = put(t, c, i, item(i), names)
    return c


def value_of(t, c):
    """what value the object c of type t converts to"""
    if t in (F, V):
        return c
    if t[0] == 'ptr':
        return NULL if c[1] is None else value_of(t[2], c[1])
    if t[0] == 'dict':
        return ('obj', tuple((k, value_of(t[2], x)) for k, x in c[1]))
    return ('arr', tuple(value_of(t[2], x) for x in c[1]), t[1])


class Wrong(Exception):
    pass


def object_of(t, v, old=None):
    """what object of type t the value v converts to; Wrong when it is of another kind"""
    if t == V:
        return v
    if t == F:
        if v[0] != 'int':
            raise Wrong()
        return v
    if t[0] == 'ptr':
        return ('ptr', None if v == NULL else object_of(t[2], v))
    if t[0] == 'dict':
        if v == NULL or v[0] == 'arr' and not v[1] and t[2] != V:
            return ('dict', ())
        if v[0] != 'obj':
            raise Wrong()
        return ('dict', tuple((k, object_of(t[2], x)) for k, x in v[1]))
    if v == NULL or v[0] == 'obj' and not v[1] and t[2] != V:
        es = ()
    elif v[0] != 'arr':
        raise Wrong()
    else:
        es = tuple(object_of(t[2], x) for x in (v[1][:3] if t[0] == 'fixed' else v[1]))
    if t[0] == 'fixed':
        return ('seq', es + (old or empty(t))[1][len(es):])
    if t[1] != 'kept':
        es = tuple(x for i, x in enumerate(es) if x not in es[:i])
    return ('seq', es)


def built(kind, n, item):
    s = ('str', 'text')
    x = lambda i: ('int', item(i))
    if kind in (0, 1):
        return ('arr', tuple(x(i) for i in range(n)), 'kept') if kind == 0 else ('obj', tuple((NAMES[i], x(i)) for i in range(n)))
    if 2 <= kind <= 6:
        return (NULL, x(0), ('real', ANY), ('flag', ANY), s)[kind - 2]
    if kind == 7:
        return ('arr', (x(0), s), 'kept')
    if kind == 8:
        return ('obj', (('a', x(0)), ('b', s)))
    if kind in (12, 13):
        return ('arr', tuple(NULL if i % 2 else x(i) for i in range(n)) if kind == 12 else tuple(x(i) for i in range(n)) * 2, 'kept')
    t = {9: vec(F), 10: ('dict', 'sorted', F), 11: ('dict', 'sorted', F)}[kind]
    out = []
    for j in range((n + 1) // 2):
        ii = [i for i in (2 * j, 2 * j + 1) if i < n]
        out.append(('obj', tuple((NAMES[i], x(i)) for i in ii)) if kind == 11 else ('arr', tuple(x(i) for i in ii), 'kept'))
    return ('arr', tuple(out), 'kept') if kind == 9 else ('obj', tuple((NAMES[j], o) for j, o in enumerate(out)))


class Bad(Exception):
    pass


class Read:
    """reads what the harness said as trees"""

    def __init__(self, said, kinds):
        self.l, self.i, self.kinds = said, 0, kinds

    def next(self, tag):
        if self.i == len(self.l) or self.l[self.i][0] != tag:
            raise Bad('%s was expected after %s' % (tag, self.l[:self.i]))
        self.i += 1
        return self.l[self.i - 1][1:]

    def value(self):
        k, n = self.next('kind')
        k = self.kinds.get(k)
        if k == 'array':
            return ('arr', tuple(self.value() for _ in range(n)), 'kept')
        if k == 'object':
            return ('obj', tuple((self.next('key')[0], self.value()) for _ in range(n)))
        if k == 'integer':
            return ('int', self.next('int')[0])
        if k == 'string':
            return ('str', self.next('key')[0])
        if k == 'floating':
            return ('real', self.next('real')[0])
        if k == 'boolean':
            return ('flag', self.next('flag')[0])
        if k == 'null':
            return NULL
        raise Bad('a value of no kind')

    def object(self, t):
        if t == V:
            return self.value()
        if t == F:
            return ('int', self.next('int')[0])
        k, n = self.next('kind')
        if k == 102:
            return ('ptr', self.object(t[2]) if n else None)
        if k == 101:
            return ('dict', tuple((self.next('key')[0], self.object(t[2])) for _ in range(n)))
        return ('seq', tuple(self.object(t[2]) for _ in range(n)))

    def end(self):
        if self.i != len(self.l):
            raise Bad('more was said: %s' % (self.l[self.i:],))


def match(want, have):
    if want == ANY or want == have:
        return True
    if want[0] != have[0]:
        return False
    if want[0] in ('seq', 'arr'):
        return len(want[1]) == len(have[1]) and all(match(a, b) for a, b in zip(want[1], have[1]))
    if want[0] in ('dict', 'obj'):
        d = dict(have[1])
        return len(d) == len(have[1]) == len(want[1]) and all(k in d and match(x, d[k]) for k, x in want[1])
    if want[0] == 'ptr':
        return want[1] is not None and have[1] is not None and match(want[1], have[1])
    return len(want) == len(have) and all(a == ANY or a == b for a, b in zip(want[1:], have[1:]))


def same(order, want, have):
    """elements in the order of the type"""
    if order != 'bag':
        return match(want, have)
    l = list(have[1])
    for x in want[1]:
        y = [y for y in l if match(x, y)]
        if not y:
            return False
        l.remove(y[0])
    return not l and want[0] == have[0]


SCALARS = dict(bool=('boolean', 'flag'), schar=('integer', 'int'), uchar=('integer', 'int'), short=('integer', 'int'), ushort=('integer', 'int'), int=('integer', 'int'), uint=('integer', 'int'),
               long=('integer', 'int'), ulong=('integer', 'int'), float=('floating', 'real'), double=('floating', 'real'), string=('string', 'str'), made=('integer', 'int'))
WIDTH = dict(schar=8, uchar=8, short=16, ushort=16, int=32, uint=32, long=64, ulong=64)


def show(x):
    if isinstance(x, tuple) and x and x[0] == 'int':
        return show(x[1])
    if isinstance(x, tuple) and x and x[0] in ('seq', 'arr'):
        return '[%s]' % ', '.join(show(y) for y in x[1])
    if isinstance(x, tuple) and x and x[0] in ('dict', 'obj'):
        return '{%s}' % ', '.join('%s: %s' % (k, show(y)) for k, y in x[1])
    if isinstance(x, tuple) and x and x[0] == 'ptr':
        return 'no object' if x[1] is None else 'a pointer to %s' % show(x[1])
    if isinstance(x, tuple) and x and x[0] in ('str', 'real', 'flag', 'null', 'any'):
        return ' '.join(str(y) for y in x)
    return str(x).replace('x$', '').split(':')[0]


class Runner:
    def __init__(self, mod, rep):
        self.mod, self.rep = mod, rep
        self.kinds = None
        self.kinds = {self.run('kind_of', [i])[0][3]: k for i, k in enumerate(KINDS)}

    def run(self, fn, args):
        it = self.it = Interp(self.mod, Native(dict(EXT, **EXTERN)), Monitor())
        it.tokens = False
        it.alloc_fail = False
        st = State()
        st.mon.update(said=(), lib=0, items=tuple(st.fresh(64, name='$item%d' % i) for i in range(20)), olds=tuple(st.fresh(64, name='$old%d' % i) for i in range(3)),
                      double=Op('symf', 'double', 0), float=Op('symf', 'float', 0), bit=st.fresh(1, name='$bit'))
        self.items, self.olds = st.mon['items'], st.mon['olds']
        self.fn, self.args = fn, args
        self.bad = {}
        ends = []
        it.finish = lambda i, s, how, v: ends.append((s, how, v))
        it.enter(st, self.mod.funcs[fn], list(args))
        work, steps = [st], 0
        while work and not it.violations:
            steps += 1
            if steps > 3000:
                it.notes['a call was not followed to the end'] = 1
                break
            work.extend(it.run(work.pop()))
        self.rep.count('calls')
        return [(s, s.imp, how, v, s.mon['said']) for s, how, v in ends] if self.kinds is not None else [(s, s.imp, how, v if isinstance(v, int) else None, ()) for s, how, v in ends]

    def done(self):
        self.it.notes = {k: v for k, v in self.it.notes.items()}
        for k, v in self.bad.items():
            self.it.violations[k] = v
        self.rep.engine(self.it, '%s(%s)' % (self.fn, ', '.join(map(str, self.args))))

    def fail(self, rule, msg, st=None):
        tgt = None
        fn = self.mod.funcs[self.fn]
        for b in fn.blocks:
            for I in b:
                if tgt is None and I.o in ('call', 'invoke') and isinstance(I.f[1], Fn):
                    t = self.mod.funcs.get(I.f[1].n)
                    if t is not None and t.qual.startswith('configor::') and not t.decl:
                        tgt = t
        what = '%s (%s)' % (tgt.qual if tgt else '', self.fn)
        self.bad[rule, self.fn] = dict(rule=rule, message='%s: %s' % (self.name(), msg), location='%s:%s' % (tgt.blocks[0][0].fl, tgt.blocks[0][0].l) if tgt else 'harness/conv.cpp',
                                       function=what, stack=[], path=['%s(%s)' % (self.fn, ', '.join(map(str, self.args)))])

    def name(self):
        op, ty = self.fn.split('_', 1)
        h = {'to': 'a %s is made a value', 'set': 'a %s is assigned to a value', 'over': 'a %s is converted into a value', 'from': 'a value is read as a %s', 'into': 'a value is read into a %s', 'impl': 'a value is converted to a %s', 'bind': 'a value is converted into a %s',
             'rt': 'a %s is made a value and read back', 'ptr': 'the %s of a value is reached', 'cptr': 'the %s of a value is reached', 'ref': 'the %s of a value is referred to', 'cref': 'the %s of a value is referred to'}[op] % PRETTY.get(ty, ty)
        return h + (' (%s)' % self.what if self.what else '')

    def need(self, ok, rule, msg):
        self.rep.count('obligations')
        if not ok:
            self.fail(rule, msg)

    def library(self, v):
        return isinstance(v, tuple) and isinstance(v[0], str) and self.it.isbase(v[0], '_ZTIN8configor18configor_exceptionE')

    # -- the questions
    def each(self, fn, args, f):
        ends = self.run(fn, args)
        n = 0
        for st, imp, how, v, said in ends:
            if imp:
                self.it.notes['a path was not decided: %s' % st.why] = 1
                continue
            n += 1
            self.rep.count('paths')
            self.cur = st
            try:
                self.leaks(st, how)
                f(how, v, Read(tuple((x[0],) + tuple(st.simp(y) if isinstance(y, Lin) else y for y in x[1:]) for x in said), self.kinds))
            except Bad as e:
                self.need(False, 'conversion', 'the result is not complete: %s' % e)
        if n:
            self.rep.count('decided')
        self.done()

    def leaks(self, st, how):
        if how != 'return':
            return
        l = [r for r, g in st.mem.items() if g.kind == 'heap' and g.alive]
        self.need(not l, 'leak', 'an object is never released')

    def order(self, t, c):
        """sorted containers in their order"""
        if c in (ANY, NULL) or t in (F, V) or c == ('ptr', None):
            return c
        if t[0] == 'ptr':
            return ('ptr', self.order(t[2], c[1]))
        if t[0] == 'dict':
            return ('dict', tuple((k, self.order(t[2], x)) for k, x in c[1]))
        es = tuple(self.order(t[2], x) for x in c[1])
        if t[1] == 'sorted':
            es = tuple(sorted(es, key=self.rank))
        return ('seq', es)

    def rank(self, x):
        for l, b in ((self.items, 0), (self.olds, 100)):
            for i, y in enumerate(l):
                if ('int', y) == x:
                    return ORDER[i] + b
        raise Bad('an element that nobody gave')

    item = lambda self, i: ('int', self.items[i])
    old = lambda self, i: ('int', self.olds[i])

    def threw(self, how, v):
        self.need(False, 'conversion', 'an exception is thrown (%s)' % (v[0] if isinstance(v, tuple) else v))

    def expect(self, t, want, have, rule='conversion', what='the result'):
        self.need(same(t and t[1], want, have), rule, '%s is %s instead of %s' % (what, show(have), show(want)))

    def to(self, ty, n, op='to', kind=None):
        t, self.what = TYPES[ty], '%d elements' % n + ('' if kind is None else ' over %s' % BUILDS[kind])

        def f(how, v, r):
            c = self.order(t, filled(t, 3 if ty == 'carr' else n, self.item))
            if how != 'return':
                return self.threw(how, v)
            if op == 'rt':
                self.expect(t, c, r.object(t), what='what is read back')
            else:
                self.expect(t, value_of(t, c), r.value(), what='the value')
                if op == 'to':
                    self.expect(t, c, r.object(t), 'source', 'the object afterwards')
            r.end()
        self.each('%s_%s' % (op, ty), [n] if kind is None else [n, kind], f)

    def get(self, op, ty, kind, n, pre=0):
        t, self.what = TYPES[ty], 'the value is %s %s of %d elements%s' % ('an' if BUILDS[kind][0] in 'aio' else 'a', BUILDS[kind], n, ', %d were there' % pre if pre else '')

        def f(how, v, r):
            x = built(kind, n, lambda i: self.items[i])
            start = None
            if pre or op != 'from':
                start = filled(t, 3 if ty == 'carr' else pre, self.old, OLDS)
            try:
                want = self.order(t, object_of(t, x, start))
            except Wrong:
                want = None
            if op == 'into':
                if how != 'return':
                    return self.threw(how, v)
                ok = r.next('flag')[0]
                self.need(ok == int(want is not None), 'kind', 'the success is reported as %s' % bool(ok) if isinstance(ok, int) else 'the success is reported at random')
                if want is not None:
                    self.expect(t, want, r.object(t))
                return
            if want is None:
                if how == 'return':
                    self.need(False, 'kind', 'a value of another kind is accepted as %s' % show(r.object(t)))
                else:
                    self.need(self.library(v), 'kind', 'a value of another kind is reported as %s' % (v[0] if isinstance(v, tuple) else v))
                return
            if how != 'return':
                return self.threw(how, v)
            self.expect(t, want, r.object(t))
            if op == 'from':
                self.expect(None, x, r.value(), 'source', 'the value afterwards')
            r.end()
        self.each('%s_%s' % (op, ty), [kind, n] + ([pre] if op != 'from' else []), f)

    # -- scalars
    def word(self, r, tag):
        return ('str', r.next('key')[0]) if tag == 'str' else (tag, r.next(tag)[0])

    def scalar_to(self, ty, kind=None):
        k, tag = SCALARS[ty]
        op = 'to' if kind is None else 'set'
        self.what = '' if kind is None else 'it held %s' % BUILDS[kind]

        def f(how, v, r):
            if how != 'return':
                return self.threw(how, v)
            x = self.word(r, tag)
            self.expect(None, x, r.value(), what='the value')
            if op == 'to':
                self.expect(None, x, self.word(r, tag), 'source', 'the object afterwards')
            r.end()
        self.each('%s_%s' % (op, ty), [kind or 0], f)

    def scalar_back(self, ty):
        self.what = ''

        def f(how, v, r):
            if how != 'return':
                return self.threw(how, v)
            x = self.word(r, SCALARS[ty][1])
            self.expect(None, x, self.word(r, SCALARS[ty][1]), what='what is read back')
        self.each('rt_' + ty, [0], f)

    def scalar_get(self, op, ty, kind):
        k, tag = SCALARS[ty]
        self.what = 'the value is %s' % BUILDS[kind]

        def f(how, v, r):
            old = self.word(r, tag) if op == 'into' else None
            x = r.value()
            good = BUILDS[kind].split()[0] == k
            if op == 'into':
                if how != 'return':
                    return self.threw(how, v)
                ok = r.next('flag')[0]
                self.need(ok == int(good), 'kind', 'the success is reported as %s' % ok)
                if good:
                    self.fits(ty, x, self.word(r, tag))
                return
            if not good:
                if how == 'return':
                    self.need(False, 'kind', 'a value of another kind is accepted')
                else:
                    self.need(isinstance(v, tuple) and self.it.isbase(v[0], '_ZTIN8configor19configor_type_errorE'), 'kind', 'a value of another kind is reported as %s' % (v[0] if isinstance(v, tuple) else v))
                return
            if how != 'return':
                return self.threw(how, v)
            self.fits(ty, x, self.word(r, tag))
            self.expect(None, x, r.value(), 'source', 'the value afterwards')
        self.each('%s_%s' % (op, ty), [kind] + ([0, 0] if op == 'into' else [0]), f)

    def fits(self, ty, x, have):
        """a type that can hold every payload holds the payload; of a narrower one only what it can hold is asked"""
        if ty in ('long', 'ulong', 'double', 'string', 'bool', 'made'):
            self.expect(None, x, have)
        elif ty in WIDTH and isinstance(have[1], Lin):
            w = WIDTH[ty]
            low = lambda l: slice_(self.cur, l, 0, w)
            self.need(rew(low(x[1]), w) == rew(low(have[1]), w), 'conversion', 'the result is not the payload of the value')
        self.rep.count('payloads')

    def fixed_to(self, what, kind=None):
        self.what = '' if kind is None else 'it held %s' % BUILDS[kind]
        want = ('str', 'text') if what == 'text' else NULL

        def f(how, v, r):
            if how != 'return':
                return self.threw(how, v)
            self.expect(None, want, r.value(), what='the value')
            r.end()
        self.each('%s_%s' % ('to' if kind is None else 'set', what), [kind or 0], f)


    def pointer(self, op, ty, kind):
        """pointers and references to the payload: null or an exception for a value of another kind"""
        self.what = 'the value is %s' % BUILDS[kind]
        k = SCALARS[ty][0] if ty in SCALARS else 'array' if ty == 'avals' else 'object'

        def f(how, v, r):
            x = r.value()
            good = BUILDS[kind].split()[0] == k
            if how != 'return':
                if op in ('ref', 'cref') and not good:
                    self.need(isinstance(v, tuple) and self.it.isbase(v[0], '_ZTIN8configor19configor_type_errorE'), 'kind', 'a value of another kind is reported as %s' % (v[0] if isinstance(v, tuple) else v))
                    return
                return self.threw(how, v)
            there = r.next('flag')[0]
            self.need(there == int(good), 'kind', 'what the value holds is reached as a %s' % PRETTY.get(ty, ty) if there else 'what the value holds is not reached')
            if there == 1 and good:
                have = self.word(r, SCALARS[ty][1]) if ty in SCALARS else r.object(TYPES[ty])
                self.expect(None, x if ty in SCALARS else object_of(TYPES[ty], x), have)
                self.expect(None, x, r.value(), 'source', 'the value afterwards')
        self.each('%s_%s' % (op, ty) if op != 'into_p' else op + ty, [kind], f)


PRETTY = dict(vec='vector', deq='deque', lst='list', fwd='forward_list', set_='set', uset='unordered_set', map_='map', umap='unordered_map', arr='std::array', carr='C array', uptr='unique_ptr',
              sptr='shared_ptr', avals='array of values', ovals='object of values', vecvec='vector of vectors', mapvec='map of vectors', vecptr='vector of pointers', mapmap='map of maps',
              lstset='list of sets', schar='signed char', uchar='unsigned char', ushort='unsigned short', uint='unsigned', ulong='unsigned long', text='text', nothing='nullptr', made='user type without a default constructor')
SIZES = (0, 1, 2, 3, 4, 5, 9, 17)


def container(R, ty):
    for n in (3, 4, 17) if ty == 'arr' else (0,) if ty == 'carr' else SIZES:
        R.to(ty, n)
        R.to(ty, n, 'set')
        if ty != 'carr':
            R.to(ty, n, 'rt')
        for kind in range(9) if n < 4 else ():
            R.to(ty, n, 'over', kind)
    for kind in range(len(BUILDS)):
        sizes = SIZES if kind in (0, 1) else range(6) if kind in (9, 10, 11, 12) else (1, 2, 3) if kind == 13 else (0,)
        for n in sizes:
            if ty != 'carr':
                R.get('from', ty, kind, n)
            for pre in (0, 1, 2, 3) if n < 6 else (0, 3):
                if ty == 'arr' and pre == 0:
                    continue
                if ty != 'carr':
                    R.get('into', ty, kind, n, pre)
                R.get('bind', ty, kind, n, pre)
                if ty == 'carr':
                    break


def scalars(R):
    for ty in SCALARS:
        R.scalar_to(ty)
        R.scalar_back(ty)
        for kind in range(7):
            R.scalar_to(ty, kind)
            R.scalar_get('from', ty, kind)
            R.scalar_get('impl', ty, kind)
            R.scalar_get('into', ty, kind)
    for ty in ('bool', 'long', 'double', 'string', 'avals', 'ovals'):
        for kind in range(9):
            for op in ('ptr', 'cptr', 'ref', 'cref', 'into_p'):
                R.pointer(op, ty, kind)
    for w in ('text', 'nothing'):
        R.fixed_to(w)
        for kind in range(7):
            R.fixed_to(w, kind)
