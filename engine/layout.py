"""The representation of basic_value, derived from its public accessors, and values whose kind is open."""
from .values import *
from .state import *
from .interp import *
from .models import Models, Monitor
from . import containers
from .report import Broken

KINDS = ('null', 'integer', 'floating', 'string', 'array', 'object', 'boolean')


def _eval(mod, fn, args, lazy):
    it = Interp(mod, Models(), Monitor())
    st = State()
    if lazy:
        st.new_region('obj', None, ('sym', 'LV'), name='$LV')
    out = []
    it.finish = lambda it, s, how, v: out.append((how, v, s))
    it.enter(st, mod.funcs[fn], args)
    work = [st]
    n = 0
    while work:
        work.extend(it.run(work.pop()))
        n += 1
        if n > 50:
            break
    if len(out) != 1 or out[0][0] != 'return':
        raise Broken('%s does not have a single result' % fn)
    return out[0][1], out[0][2]


class Layout:
    def __init__(self, mod):
        self.kind = {k: _eval(mod, 'hk_' + k, [], False)[0] for k in KINDS}
        self.name = {v: k for k, v in self.kind.items()}
        if len(self.name) != len(KINDS):
            raise Broken('the kinds are not distinct')
        self.size = _eval(mod, 'hl_size', [], False)[0]
        v, st = _eval(mod, 'hl_type', [Ptr('$LV', 0)], True)
        self.tag = None
        g = st.mem['$LV']
        for o, c in g.cells.items():
            if isinstance(o, int):
                self.tag, self.tagsize = o, c[1]
        if self.tag is None or not isinstance(v, (Lin,)):
            raise Broken('the kind of a value is not a stored field')
        self.off = {}
        for k in KINDS[1:]:
            p, _ = _eval(mod, 'hl_' + k, [Ptr('$LV', 0)], True)
            if not isinstance(p, Ptr) or p.r != '$LV' or not isinstance(p.o, int):
                raise Broken('the payload %s is not inside the value' % k)
            self.off[k] = p.o
        self.psize = {'integer': 8, 'floating': 8, 'boolean': 1, 'string': 8, 'array': 8, 'object': 8}

    # ---- reading a value from memory
    def kindof(self, it, st, p):
        """name of the kind of the value at p, 'undef' or None when not decided"""
        t = it.load(st, Ptr(p.r, addoff(p.o, self.tag)), self.tagsize, 'i%d' % (8 * self.tagsize))
        if t is UNDEF:
            return 'undef'
        if isinstance(t, Lin):
            t = st.simp(t)
        return self.name.get(t) if isinstance(t, int) else None

    def payload(self, it, st, p, kind):
        ty = 'double' if kind == 'floating' else 'ptr' if kind in ('string', 'array', 'object') else 'i%d' % (8 * self.psize[kind])
        return it.load(st, Ptr(p.r, addoff(p.o, self.off[kind])), self.psize[kind], ty)

    def write(self, it, st, p, kind, v=None):
        """make the memory at p a value of the given kind"""
        g = st.wreg(p.r)
        g.cells[addoff(p.o, self.tag)] = (self.kind[kind], self.tagsize)
        if kind == 'null':
            v = UNDEF if v is None else v
            g.cells[addoff(p.o, self.off['integer'])] = (v, 8)
        elif kind == 'integer':
            g.cells[addoff(p.o, self.off[kind])] = (v if v is not None else st.fresh(64, tag='int'), 8)
        elif kind == 'floating':
            g.cells[addoff(p.o, self.off[kind])] = (v if v is not None else Op('some', atom(fresh_id(), 64)), 8)
        elif kind == 'boolean':
            g.cells[addoff(p.o, self.off[kind])] = (v if v is not None else st.fresh(8, ((0, 1),)), 1)
        else:
            if v is None:
                v = self.newpayload(st, kind)
            g.cells[addoff(p.o, self.off[kind])] = (v, 8)

    def newpayload(self, st, kind, name=None):
        r = st.new_region('heap', {'string': 32, 'array': 24, 'object': 48}[kind],
                          ('pay', {'string': 'str', 'array': 'vec', 'object': 'map'}[kind]), name=name)
        return Ptr(r, 0)


class _ValuePolicy:
    """memory full of values nobody has looked at: looking at one forks over its kind"""
    __qualname__ = 'ValuePolicy'

    def __call__(self, it, st, p, off, size, ty, hdr, period):
        L = it.layout
        c = off if isinstance(off, int) else off.c
        if not isinstance(off, int) and any(m % period for _, m in off.t):
            st.note(2, 'element offset')
            return it.anyval(st, ty)
        x = (c - hdr) % period if period else c - hdr
        base = addoff(off, -x)
        if not 0 <= x < L.size:
            if x < 0 or period:
                st.note(2, 'node field')
            return it.anyval(st, ty)
        if addoff(base, L.tag) in st.mem[p.r].cells:
            return UNDEF
        out = []
        kinds = it.lazykinds(st, p)
        for k in kinds:
            s = st.fork()
            L.write(it, s, Ptr(p.r, base), k)
            out.append(s)
        raise ForkTo(out)


    def obj(self, it, c, st, p, kind, hdr, period):
        """the key string in front of a mapped value"""
        o = p.o if isinstance(p.o, int) else p.o.c
        x = (o - hdr) % period if period else o - hdr
        if kind == 'str' and (x == period - 32 if period else x == -32):
            return ('str', st.fresh(64, tag='str'), st.fresh(64, ((0, 1 << 40),)), 0)
        return None

    def ensure(self, it, st, p, off, n, hdr, period):
        """before a copy of whole values: their kinds must be open no longer"""
        c = off if isinstance(off, int) else off.c
        x = (c - hdr) % period if period else c - hdr
        base = addoff(off, -x)
        if 0 <= x < it.layout.size and addoff(base, it.layout.tag) not in st.mem[p.r].cells:
            self(it, st, p, off, 1, 'i8', hdr, period)


ValuePolicy = _ValuePolicy()
Interp.layout = None
Interp.lazykinds = lambda it, st, p: KINDS


def _elemlazy(it, ty):
    t = ty.strip()
    if it.layout is not None and t.startswith('configor::basic_value<'):
        return ('py', ValuePolicy, 0, it.layout.size)
    if t.startswith(('std::__cxx11::basic_string<', 'std::basic_string<', 'std::string')):
        return ('pay', 'str')
    return ('any',)


Interp.elemlazy = _elemlazy


def _nodelazy(it, ctx, ta):
    t = ta[1] if len(ta) > 1 else ''
    if it.layout is not None and t.startswith('configor::basic_value<') and 'basic_string' in ta[0]:
        return ('py', ValuePolicy, containers.KINDS.get(ctx, 32) + 32, containers.NODE)
    return ('any',)


Interp.nodelazy = _nodelazy


def use(it, layout):
    it.layout = layout
    return layout
