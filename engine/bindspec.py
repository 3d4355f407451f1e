"""What the binding macros must do: every member of a bound type is written under its own name and read from it.

The types are generated: every number of members up to the maximum, and every mix of the four kinds of binding for small
numbers.  The object a value holds is a table from names to members here (its keys are known: the bound names), and the
conversions of the members themselves are ports that tell which member was converted from where."""
import os
import tempfile
from .values import *
from .state import *
from .interp import *
from .models import Models, Ctx, Monitor
from .layout import Layout
from . import build

PAIRKEY = 64
KINDS4 = ('R', 'N', 'O', 'M')     # REQUIRED(f), REQUIRED(f, "n"), OPTIONAL(f), OPTIONAL(f, "n")


def macro(k, i):
    return {'R': 'REQUIRED(f%d)', 'N': 'REQUIRED(f%d, "name %d")', 'O': 'OPTIONAL(f%d)', 'M': 'OPTIONAL(f%d, "name %d")'}[k] % ((i, i) if k in 'NM' else i)


def keyname(k, i):
    return 'f%d' % i if k in 'RO' else 'name %d' % i


def typedef(name, kinds):
    n = len(kinds)
    return 'struct %s { %s CONFIGOR_BIND(V, %s, %s) };\nTYPE(%s)\n' % (
        name, ' '.join('F f%d;' % (i + 1) for i in range(n)), name, ', '.join(macro(k, i + 1) for i, k in enumerate(kinds)), name)


def sweep():
    """one type for every number of members; names and kinds vary with the position"""
    return [('T%d' % n, ''.join('RNRNOM'[(i * 5 + n) % 6] for i in range(n))) for n in range(1, 51)]


def mixes(m=3):
    out, cur = [], ['']
    for n in range(m):
        cur = [x + k for x in cur for k in KINDS4]
        out += [('M' + x, x) for x in cur]
    return out


def load(types):
    with tempfile.TemporaryDirectory(prefix='cfgbind') as d:
        h = d + '/types.hpp'
        with open(h, 'w') as f:
            for t in types:
                f.write(typedef(*t))
        return build.load('bind.cpp', defs=['BIND_TYPES="%s"' % h])


# ---- the object as a table ---------------------------------------------------------------
def lit(s):
    return ('lit', tuple(s.encode()))


def text(k):
    try:
        return bytes(k[1]).decode()
    except Exception:
        return None


def keyof(c, k):
    m = c.getM(k, 'str') if isinstance(k, Ptr) else None
    if m is None or not isinstance(m[1], tuple) or m[1][0] != 'lit':
        c.st.note(2, 'a member is looked up under a name that is not known')
        return None
    return text(m[1])


def table(st):
    return st.mon.get('table', {})


def slot(c, key):
    """the value of the member `key`, or None"""
    return table(c.st).get(key)


def node_of(c, key):
    return Ptr('$m.%s' % key, 0)


def newmember(c, key):
    st = c.st
    r = '$m.%s' % key
    if r not in st.mem:
        st.new_region('node', None, ('undef',), name=r)
        c.it.layout.write(c.it, st, Ptr(r, PAIRKEY), 'null')
        c.setM(Ptr(r, 32), ('str', lit(key), len(key.encode()), 0))
    st.mon['table'] = dict(table(st), **{key: Ptr(r, PAIRKEY)})
    return table(st)[key]


def m_index(c, this, k):
    key = keyof(c, k)
    if key is None:
        raise Dead()
    return slot(c, key) or newmember(c, key)


def m_at(c, this, k):
    key = keyof(c, k)
    if key is None:
        raise Dead()
    return slot(c, key) or Throw('_ZTISt12out_of_range')


def m_count(c, this, k):
    key = keyof(c, k)
    if key is None:
        raise Dead()
    return int(slot(c, key) is not None)


def m_find(c, this, k):
    key = keyof(c, k)
    if key is None:
        raise Dead()
    return node_of(c, key) if slot(c, key) is not None else Ptr('$m.end', 0)


def m_end(c, this):
    return Ptr('$m.end', 0)


MAP = {'std::map::operator[]': m_index, 'std::map::at': m_at, 'std::map::count': m_count, 'std::map::find': m_find,
       'std::map::end': m_end, 'std::map::cend': m_end}


# ---- the ports -----------------------------------------------------------------------------
def ext_to_value(c, v, u):
    x = c.it.load(c.st, u, 8, 'i64')
    c.it.layout.write(c.it, c.st, v, 'integer', x)
    return None


def ext_from_value(c, v, u):
    st, it, L = c.st, c.it, c.it.layout
    k = L.kindof(it, st, v)
    x = L.payload(it, st, v, 'integer') if k == 'integer' else UNDEF
    if x is UNDEF or isinstance(x, int) or not isinstance(x, Lin):
        st.mon['odd'] = True
        return None
    if st.mon['bad'] is not None and x == st.mon['value'][st.mon['bad']]:
        return Throw('_ZTI7failure')
    it.store(st, u, x, 8)
    return None


def ext_differs(c, a, b):
    """is the member different from its default?  decided once for every member"""
    st = c.st
    x, y = (c.it.load(st, p, 8, 'i64') for p in (a, b))
    f = st.mon['field']
    for z in (x, y):
        if z in f:
            return int(f.index(z) not in st.mon['defaults'])
    st.note(2, 'comparison of unknown members')
    return 1


EXT = dict(MAP, ext_to_value=ext_to_value, ext_from_value=ext_from_value, ext_differs=ext_differs)


class Case:
    def __init__(self, mod, L, rep, name, kinds):
        self.mod, self.L, self.rep, self.name, self.kinds = mod, L, rep, name, kinds
        self.n = len(kinds)
        self.keys = [keyname(k, i + 1) for i, k in enumerate(kinds)]

    def run(self, entry, defaults=(), missing=(), bad=None):
        """defaults: members equal to their default; missing: names that the object lacks; bad: a member whose conversion throws"""
        it = self.it = Interp(self.mod, Models(dict(EXT)), Monitor())
        it.layout = L = self.L
        it.tokens = False
        it.alloc_fail = False
        st = State()
        c = Ctx(it, st, None, None, None)
        n = self.n
        st.new_region('obj', L.size, ('undef',), name='$v')
        st.new_region('obj', 8 * n, ('any',), name='$b')
        st.new_region('obj', 8, ('any',), name='$m.end')
        fld = tuple(st.fresh(64, name='$field%d' % i) for i in range(n))
        val = tuple(st.fresh(64, name='$member%d' % i) for i in range(n))
        for i in range(n):
            it.store(st, Ptr('$b', 8 * i), fld[i], 8)
        st.mon.update(field=fld, value=val, defaults=frozenset(defaults), bad=bad, table={})
        if entry == 'set':
            L.write(it, st, Ptr('$v', 0), 'null')
        if entry in ('from', 'into'):
            p = L.newpayload(st, 'object', name='$o')
            L.write(it, st, Ptr('$v', 0), 'object', p)
            c.getM(p, 'map', st)
            for i in range(n):
                if i not in missing:
                    L.write(it, st, newmember(c, self.keys[i]), 'integer', val[i])
        ends = []
        it.finish = lambda i, s, how, v: ends.append((s, how, v))
        it.enter(st, self.mod.funcs['%s_%s' % (entry, self.name)], [Ptr('$v', 0), Ptr('$b', 0)])
        work = [st]
        steps = 0
        while work and steps < 3000:
            steps += 1
            work.extend(it.run(work.pop()))
        if not ends and not it.violations:
            it.notes['a bound type was not followed to the end'] = 1
        for s, how, v in ends:
            self.rep.count('paths')
            if s.imp or s.mon.get('odd'):
                k = 'undecided: %s' % (s.why or 'a member is converted from an unknown value')
                it.notes[k] = it.notes.get(k, 0) + 1
                continue
            try:
                (self.written if entry in ('to', 'set') else self.read)(it, s, how, v, entry, defaults, missing, bad)
            except _Fail as e:
                key = ('bind', entry, str(e)[:60])
                it.violations.setdefault(key, dict(
                    rule='bind', message='type with %d bound members (%s), %s: %s' % (n, ', '.join(macro(k, i + 1) for i, k in enumerate(self.kinds[:8])) + (', ...' if n > 8 else ''),
                                                                                     self.what(entry, defaults, missing, bad), e),
                    location='include/configor/details/conversion.hpp (CONFIGOR_BIND)', function='%s_%s' % (entry, self.name), stack=[], path=[]))
        self.rep.engine(it, '%s_%s' % (entry, self.name))

    def what(self, entry, defaults, missing, bad):
        if entry in ('to', 'set'):
            return 'written to an object' + (' with the default in %s' % ', '.join('f%d' % (i + 1) for i in sorted(defaults)) if defaults else '')
        return 'read from an object %s' % ('without the member%s "%s"' % ('s' if len(missing) > 1 else '', '", "'.join(self.keys[i] for i in missing)) if missing else
                                           'whose member "%s" cannot be converted' % self.keys[bad] if bad is not None else 'with all members')

    def need(self, cond, msg):
        self.rep.count('obligations')
        if not cond:
            raise _Fail(msg)

    def written(self, it, st, how, v, entry, defaults, missing, bad):
        L = self.L
        self.need(how == 'return', 'the conversion throws')
        k = L.kindof(it, st, Ptr('$v', 0))
        t = table(st)
        if not t:
            self.need(all(i in defaults and self.kinds[i] in 'OM' for i in range(self.n)), 'no member is written')
            return
        self.need(k == 'object', 'the result is %s, not an object' % k)
        for key, p in t.items():
            self.need(key in self.keys, 'there is a member "%s" which is not bound' % key)
        for i, key in enumerate(self.keys):
            p = t.get(key)
            if p is None:
                self.need(self.kinds[i] in 'OM' and i in defaults, 'the member "%s" is missing' % key)
                continue
            kk = L.kindof(it, st, p)
            x = L.payload(it, st, p, 'integer') if kk == 'integer' else None
            j = st.mon['field'].index(x) if x in st.mon['field'] else None
            self.need(j == i, 'the member "%s" holds %s instead of f%d' % (key, 'f%d' % (j + 1) if j is not None else 'something else', i + 1))

    def read(self, it, st, how, v, entry, defaults, missing, bad):
        lost = [i for i in missing if self.kinds[i] in 'RN']
        if lost:
            self.need(how == 'throw' or entry == 'into' and v == 0, 'the required member "%s" is missing, but no error is reported' % self.keys[lost[0]])
            return
        if bad is None:
            self.need(how == 'return', 'the conversion throws')
            if entry == 'into':
                self.need(v == 1, 'failure is reported')
        if how != 'return':
            return
        for i in range(self.n):
            x = it.load(st, Ptr('$b', 8 * i), 8, 'i64')
            if i == bad:
                continue
            if i in missing:
                if entry == 'into':
                    self.need(x == st.mon['field'][i], 'the optional data member f%d is changed although "%s" is missing' % (i + 1, self.keys[i]))
                else:
                    self.need(x not in st.mon['value'], 'the optional data member f%d is changed although "%s" is missing' % (i + 1, self.keys[i]))
                continue
            j = st.mon['value'].index(x) if x in st.mon['value'] else None
            self.need(j == i, 'f%d is filled from %s instead of "%s"' % (i + 1, 'the member "%s"' % self.keys[j] if j is not None else 'nothing', self.keys[i]))


class _Fail(Exception):
    pass


def check(mod, L, rep, name, kinds, full):
    cs = Case(mod, L, rep, name, kinds)
    n = len(kinds)
    opt = [i for i in range(n) if kinds[i] in 'OM']
    cs.run('to')
    cs.run('from')
    rep.count('types')
    rep.count('bound members', n)
    if opt:
        cs.run('to', defaults=opt)
        cs.run('from', missing=opt)
        cs.run('into', missing=opt)
    if full:
        cs.run('set')
        cs.run('into')
        for i in range(n):
            cs.run('from', missing=(i,))
            cs.run('into', missing=(i,))
            cs.run('to', defaults=(i,))
            cs.run('from', bad=i)
            cs.run('into', bad=i)
    elif n > 1:
        i = (n * 7) % n
        cs.run('from', missing=(n - 1,))
