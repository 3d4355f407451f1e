"""Abstract models of the C++ runtime and standard library that configor is built on."""
import re
from .values import *
from .state import *
from .interp import Throw, Call, Forks, Rethrow, ForkTo, Dead, addoff, AnalysisError, Ctx
from .ir import width, tsize

REG = {}
WILD = []


def model(*names):
    def d(f):
        for n in names:
            REG[n] = f
        return f
    return d


class Models:
    def __init__(self, extra=None):
        self.d = dict(REG)
        if extra:
            self.d.update(extra)
        self._w = {}

    def get(self, n):
        return self.d.get(n)

    def wild(self, fn):
        if fn.name in self._w:
            return self._w[fn.name]
        r = None
        for pred, f in WILD:
            if pred(fn):
                r = f
                break
        self._w[fn.name] = r
        return r


class Monitor:
    """property automaton run in product with the program; all hooks optional"""
    watch_store = False

    def on_store(self, it, st, p, v, size):
        pass

    def on_setM(self, it, st, p, old, m):
        pass

    def memcpy_sym(self, it, st, d, s, n):
        return False

    def on_fptoint(self, it, st, I, v):
        pass

    def event(self, c, name, *data):
        return None


# ---- helpers -------------------------------------------------------------------------

def _test(self, p, a, b, w=64):
    """decide a comparison inside a model (forks and re-executes when open)"""
    st, it = self.st, self.it
    a = st.simp(a) if isinstance(a, Lin) else a
    b = st.simp(b) if isinstance(b, Lin) else b
    if a is UNDEF or b is UNDEF:
        it.violation(st, 'undef-value', 'use of an uninitialised value')
    if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
        return it.icmp(st, p, a, b, w)
    r = decide(st, p, w, a, b)
    if r is not None:
        return r
    k = ('op', 1, 'test', p, a, b)
    x = st.rng.get(k)
    if x is not None:
        return bool(x[0][0])
    if k in st.sub:
        return bool(st.sub[k])
    s2 = st.fork()
    out = []
    if refine(st, p, w, a, b):
        st.sub[k] = 1
        out.append(st)
    if refine(s2, NEG[p], w, a, b):
        s2.sub[k] = 0
        out.append(s2)
    it.stats['forks'] += 1
    raise ForkTo(out)


def _split(self, st, p, a, b, w=64):
    """like test, for continuations: returns [(state, bool)]"""
    a = st.simp(a) if isinstance(a, Lin) else a
    b = st.simp(b) if isinstance(b, Lin) else b
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        r = decide(st, p, w, a, b)
        if r is not None:
            return [(st, r)]
        s2 = st.fork()
        out = []
        if refine(st, p, w, a, b):
            out.append((st, True))
        if refine(s2, NEG[p], w, a, b):
            out.append((s2, False))
        return out
    if a == b:
        return [(st, p in ('eq', 'ule', 'uge', 'sle', 'sge'))]
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return [(st, bool(self.it.icmp(st, p, a, b, w)))]
    s2 = st.fork()
    st.note(2, 'unknown comparison')
    s2.note(2, 'unknown comparison')
    return [(st, True), (s2, False)]


def _require(self, p, a, b, rule, msg, w=64, st=None):
    """obligation: a p b must hold on every path reaching here"""
    st = st or self.st
    a = st.simp(a) if isinstance(a, Lin) else a
    b = st.simp(b) if isinstance(b, Lin) else b
    it = self.it
    it.stats['obligations'] = it.stats.get('obligations', 0) + 1
    if a is UNDEF or b is UNDEF:
        it.violation(st, 'undef-value', msg + ' (uninitialised)')
    if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
        return
    r = decide(st, p, w, a, b)
    if r:
        return
    s2 = st.fork()
    if refine(s2, NEG[p], w, a, b):
        try:
            it.violation(s2, rule, msg + ' [%r %s %r is possible]' % (a, NEG[p], b))
        except Dead:
            pass
    if not refine(st, p, w, a, b):
        raise Dead()


def _ev(self, name, *data):
    if self.it.mon is not None:
        return self.it.mon.event(self, name, *data)


Ctx.test = _test
Ctx.split = _split
Ctx.require = _require
Ctx.ev = _ev


def _getM(self, p, kind=None, st=None):
    st = st or self.st
    if not isinstance(p, Ptr):
        self.it.deref(st, p, 'use')
    g = self.it.deref(st, p, 'use')
    o = p.o if isinstance(p.o, int) else st.simp(p.o)
    m = g.cells.get(('M', o))
    if m is None:
        for k, v in g.cells.items():
            if isinstance(k, tuple):
                from .interp import offdiff
                if offdiff(st, k[1], o) == 0:
                    m = v
                    break
    if m is None and g.lazy[0] == 'undef':
        return None
    if m is None:
        m = self.it.lazyobj(self, st, p, g, kind)
        if m is None:
            return None
        st.wreg(p.r).cells[('M', o)] = m
    if kind is not None and m[0] != kind:
        return None
    return m


def _setM(self, p, m, st=None):
    st = st or self.st
    self.it.deref(st, p, 'write')
    g = st.wreg(p.r)
    o = p.o if isinstance(p.o, int) else st.simp(p.o)
    k = ('M', o)
    if k not in g.cells:
        from .interp import offdiff
        for kk in list(g.cells):
            if isinstance(kk, tuple) and offdiff(st, kk[1], o) == 0:
                k = kk
                break
    if self.it.mon is not None and self.it.mon.watch_store:
        self.it.mon.on_setM(self.it, st, p, g.cells.get(k), m)
    if getattr(self.it.mon, "vecset", None) is not None:
        old = g.cells.get(k)
        if old is not None and old[0] == 'vec':
            self.it.mon.vecset(st, p, old, m)
    if m is None:
        g.cells.pop(k, None)
        if g.lazy[0] == 'pay' and g.kind == 'heap':
            g.lazy = ('undef',)
    else:
        g.cells[k] = m


Ctx.getM = _getM
Ctx.setM = _setM


def lazyobj(it, c, st, p, g, kind):
    """a std object whose construction was not seen"""
    lz = g.lazy
    if lz[0] == 'pay':
        if kind is not None and kind != lz[1]:
            it.violation(st, 'wrong-kind', 'the payload of a value is used as another kind (%s instead of %s)' % (kind, lz[1]))
        return payobj(it, c, st, lz)
    if lz[0] == 'py' and hasattr(lz[1], 'obj'):
        return lz[1].obj(it, c, st, p, kind, *lz[2:])
    if kind == 'str':
        nm = '%s+%r' % (p.r, p.o) if isinstance(p.r, str) else None
        n = st.fresh(64, ((0, 1 << 40),), name=None if nm is None else nm + '.len')
        return ('str', st.fresh(64, tag='str', name=None if nm is None else nm + '.content'), n, 0)
    if kind == 'vec':
        nm = '%s+%r' % (p.r, p.o) if isinstance(p.r, str) else None
        n = st.fresh(64, ((0, 1 << 40),), name=None if nm is None else nm + '.size')
        r = st.new_region('elems', None, it.elempolicy(p))
        return ('vec', n, Ptr(r, 0), ('n', 0))
    if kind == 'map':
        nm = '%s+%r' % (p.r, p.o) if isinstance(p.r, str) else None
        n = st.fresh(64, ((0, 1 << 40),), name=None if nm is None else nm + '.size')
        r = st.new_region('nodes', None, it.elempolicy(p))
        return ('map', n, Ptr(r, 0), ('n', 0))
    if kind == 'ios':
        return mkios(dict(buf=it.anyval(st, 'ptr', 'unknown stream'), st=(0, 0, 0), fl=4098, w=0, p=6, fill=32, loc='unknown'))
    return None


def payobj(it, c, st, lz):
    k = lz[1]
    n = st.fresh(64, ((0, 1 << 40),))
    if k == 'str':
        return ('str', st.fresh(64, tag='str'), n, 0)
    # the elements start at an arbitrary place of the region: a position is generalised like a number then
    if k == 'vec':
        r = st.new_region('elems', None, it.elemlazy(lz[2] if len(lz) > 2 else 'configor::basic_value<'))
        size = it.layout.size if len(lz) < 4 else lz[3]
        return ('vec', n, Ptr(r, scale(64, st.fresh(64, ((0, 1 << 20),), name='$base'), size)), ('n', size))
    from .containers import NODE
    r = st.new_region('nodes', None, it.nodelazy('std::map', ['std::__cxx11::basic_string<', 'configor::basic_value<']))
    return ('map', n, Ptr(r, scale(64, st.fresh(64, ((0, 1 << 20),), name='$base'), NODE)), ('n', NODE), ())


from .interp import Interp
Interp.lazyobj = lazyobj


def elempolicy(it, p):
    return ('any',)


Interp.elempolicy = elempolicy


# ---- intrinsics ----------------------------------------------------------------------

@model('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')
def m_memcpy(c, d, s, n, *a):
    c.it.memcpy(c.st, d, s, n)
    return d


@model('llvm.memset', 'memset')
def m_memset(c, d, v, n, *a):
    c.it.memset(c.st, d, trunc(c.st, v, 8) if isinstance(v, (int, Lin)) else v, n)
    return d


@model('llvm.eh.typeid.for')
def m_typeid(c, p):
    return c.it.tid(p.r[1:] if isinstance(p, Ptr) else None)


@model('llvm.lifetime.start', 'llvm.lifetime.end')
def m_lifetime(c, n, p):
    if isinstance(p, Ptr) and p.o == 0:
        g = c.st.mem.get(p.r)
        if g is not None and g.alive and g.kind == 'stack' and (g.cells or g.lazy != ('undef',)):
            g = c.st.wreg(p.r)
            g.cells = {}
            g.lazy = ('undef',)
    return None


@model('llvm.assume', 'llvm.dbg.declare', 'llvm.dbg.value', 'llvm.stackrestore', 'llvm.donothing')
def m_nop(c, *a):
    return None


@model('llvm.stacksave')
def m_null(c, *a):
    return 0


@model('llvm.expect')
def m_expect(c, v, *a):
    return v


@model('llvm.is.constant')
def m_isconst(c, v):
    return 0


@model('llvm.objectsize')
def m_objsize(c, *a):
    return (1 << 64) - 1


@model('llvm.trap', 'abort', 'std::terminate', '__clang_call_terminate', 'std::abort', 'exit', '_exit')
def m_trap(c, *a):
    c.ev('terminate', c.f.qual)
    c.it.violation(c.st, 'terminate', 'the program is terminated (%s)' % c.f.qual)


@model('__assert_fail')
def m_assert(c, *a):
    c.it.violation(c.st, 'assert', 'an internal assertion can fail')


@model('llvm.umul.with.overflow', 'llvm.smul.with.overflow', 'llvm.uadd.with.overflow', 'llvm.sadd.with.overflow',
       'llvm.ssub.with.overflow', 'llvm.usub.with.overflow')
def m_ovf(c, a, b):
    st = c.st
    nm = c.f.name.split('.')
    w = width(nm[-1])
    op = nm[1][1:]
    signed = nm[1][0] == 's'
    r = binop(st, op, w, a, b)
    ha, hb = mh(st, a, w, signed), mh(st, b, w, signed)
    ov = None
    if ha and hb:
        cs = {'mul': [x * y for x in ha for y in hb], 'add': [ha[0] + hb[0], ha[1] + hb[1]], 'sub': [ha[0] - hb[1], ha[1] - hb[0]]}[op]
        lo, hi = min(cs), max(cs)
        L, H = (-(1 << w - 1), (1 << w - 1) - 1) if signed else (0, (1 << w) - 1)
        if L <= lo and hi <= H:
            ov = 0
        elif hi < L or lo > H:
            ov = 1
    if ov is None:
        k = opk(1, 'ovf', nm[1], a, b)
        ov = c.it.bool(st, k)
    return ('agg', (r, ov))


def mh(st, v, w, signed):
    """mathematical (un)signed interval of v"""
    if isinstance(v, int):
        x = cen(v, w) if signed else v
        return x, x
    if not isinstance(v, Lin):
        return None
    r = mathrep(st, v, w, signed)
    if r is None:
        return None
    return st.hullt(r[0], r[1])


@model('llvm.abs')
def m_iabs(c, v, *a):
    w = width(c.f.name.split('.')[-1])
    if isinstance(v, int):
        return abs(cen(v, w)) & ((1 << w) - 1)
    return opk(w, 'abs', v)


@model('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')
def m_minmax(c, a, b):
    w = width(c.f.name.split('.')[-1])
    op = c.f.name.split('.')[1]
    p = {'umax': 'uge', 'umin': 'ule', 'smax': 'sge', 'smin': 'sle'}[op]
    return a if c.test(p, a, b, w) else b


@model('llvm.fabs', 'llvm.ceil', 'llvm.floor', 'llvm.trunc', 'llvm.round', 'llvm.rint', 'llvm.nearbyint', 'llvm.sqrt',
       'llvm.copysign', 'llvm.fmuladd', 'llvm.pow', 'ldexp', 'pow', 'fabs', 'floor', 'ceil', 'modf', 'fmod', 'exp10', 'llvm.fma',
       'llvm.powi', 'llvm.exp10', 'ldexpf', 'powf', 'std::ldexp', 'std::pow')
def m_flt(c, *a):
    import math
    n = c.f.name.split('.')[1] if c.f.name.startswith('llvm.') else c.f.base
    if not (c.it.float_opaque and n not in ('fabs', 'ldexp')) and all(isinstance(x, int) or (isinstance(x, Op) and x.n == 'fc') for x in a):
        v = [x if isinstance(x, int) else x.a[0] for x in a]
        try:
            f = {'fabs': abs, 'ceil': math.ceil, 'floor': math.floor, 'trunc': math.trunc, 'pow': math.pow,
                 'ldexp': lambda x, y: math.ldexp(x, cen(y, 32)), 'fmuladd': lambda x, y, z: x * y + z}.get(n)
            if f:
                return Op('fc', float(f(*v)))
        except Exception:
            pass
    if n == 'fmuladd':
        return c.it.fop('fadd', c.it.fop('fmul', a[0], a[1]), a[2])
    if n == 'modf':
        c.it.store(c.st, a[1], Op('trunc', a[0]), 8)
        return Op('frac', a[0])
    r = Op(n, *a)
    return r if r.d <= 6 else Op('some', 'float')


@model('llvm.is.fpclass')
def m_fpclass(c, v, mask):
    if isinstance(v, Op) and v.n == 'fc':
        import math
        x = v.a[0]
        cls = 3 if math.isnan(x) else 0x204 if math.isinf(x) else 0x60 if x == 0 else 0x198
        if cls & mask == cls or cls & mask == 0:
            return int(bool(cls & mask))
    inv = False
    if mask == 0x1f8:        # finite
        return c.it.bool(c.st, opk(1, 'isfinite', v))
    if mask == 0x207:
        return 1 - c.it.bool(c.st, opk(1, 'isfinite', v))
    return c.it.bool(c.st, opk(1, 'fpclass', v, mask))


@model('std::isfinite')
def m_isfinite(c, v):
    if v is UNDEF:
        c.it.violation(c.st, 'undef-value', 'use of an uninitialised float')
    if isinstance(v, Op) and v.n == 'fc':
        import math
        return int(math.isfinite(v.a[0]))
    return c.it.bool(c.st, opk(1, 'isfinite', v))


@model('std::isnan')
def m_isnan(c, v):
    return c.it.bool(c.st, opk(1, 'isnan', v))


@model('std::isinf')
def m_isinf(c, v):
    return c.it.bool(c.st, opk(1, 'isinf', v))


# ---- allocation ----------------------------------------------------------------------

@model('operator new', 'operator new[]', 'malloc')
def m_new(c, n, *a):
    st = c.st
    if c.it.alloc_fail and c.f.base != 'malloc':
        s2 = st.fork()
        c2 = Ctx(c.it, s2, c.I, c.f, c.args)
        c2.ev('alloc-failed', n)
        r = st.new_region('heap', n, ('undef',))
        c.ev('alloc', Ptr(r, 0), n)
        c.it.mark(s2, 'allocation fails at %s' % c.it.site(s2)[0])
        return Forks([(st, Ptr(r, 0)), (s2, Throw('_ZTISt9bad_alloc'))])
    r = st.new_region('heap', n, ('undef',))
    c.ev('alloc', Ptr(r, 0), n)
    return Ptr(r, 0)


@model('operator delete', 'operator delete[]', 'free')
def m_delete(c, p, *a):
    st = c.st
    if isinstance(p, int):
        return None
    if p is UNDEF:
        c.it.violation(st, 'undef-pointer', 'release of an uninitialised pointer')
    if not isinstance(p, Ptr):
        st.note(2, 'release of an unknown pointer')
        return None
    g = c.it.region(st, p.r)
    if not g.alive:
        c.it.violation(st, 'double-free', 'memory is released twice')
    if p.o != 0 or g.kind in ('stack', 'global'):
        c.it.violation(st, 'bad-free', 'release of memory that was not allocated')
    c.ev('free', p)
    g = st.wreg(p.r)
    g.alive = False
    g.cells = {}
    return None


# ---- exceptions ----------------------------------------------------------------------

@model('__cxa_allocate_exception')
def m_cxa_alloc(c, n):
    r = c.st.new_region('exc', n if isinstance(n, int) else None, ('undef',))
    return Ptr(r, 0)


@model('__cxa_free_exception')
def m_cxa_free(c, p):
    return None


@model('__cxa_throw')
def m_cxa_throw(c, obj, ti, dtor):
    t = ti.r[1:] if isinstance(ti, Ptr) else None
    g = c.st.wreg(obj.r)
    g.info = t
    c.ev('throw', t, obj)
    return Throw(t, obj)


@model('__cxa_begin_catch')
def m_begin_catch(c, p):
    c.st.caught = c.st.caught + (c.st.exc,)
    c.ev('catch', c.st.exc)
    return c.st.exc[1] if c.st.exc else p


@model('__cxa_end_catch')
def m_end_catch(c):
    c.st.caught = c.st.caught[:-1]
    return None


@model('__cxa_rethrow')
def m_rethrow(c):
    if not c.st.caught:
        c.it.violation(c.st, 'terminate', 'rethrow without an active exception')
    t = c.st.caught[-1]
    return Throw(t[0], t[1])


@model('std::current_exception')
def m_curexc(c, sret):
    v = c.st.caught[-1][1] if c.st.caught else 0
    c.it.store(c.st, sret, v, 8)
    return None


@model('std::rethrow_exception')
def m_rethrow_exc(c, ep):
    v = c.it.load(c.st, ep, 8, 'ptr')
    if isinstance(v, Ptr):
        g = c.it.region(c.st, v.r)
        return Throw(g.info if g else None, v)
    c.it.violation(c.st, 'terminate', 'rethrow of an empty exception_ptr')


@model('std::__exception_ptr::exception_ptr::_M_addref', 'std::__exception_ptr::exception_ptr::_M_release')
def m_ep(c, *a):
    return None


@model('std::__exception_ptr::exception_ptr::exception_ptr')
def m_ep_ctor(c, this, o=0, *a):
    if c.f.prm.startswith('(std::') or 'exception_ptr' in c.f.prm:
        v = c.it.load(c.st, o, 8, 'ptr')
        if '&&' in c.f.prm:
            c.it.store(c.st, o, 0, 8)
    else:
        v = 0 if not isinstance(o, Ptr) else o
    c.it.store(c.st, this, v, 8)
    return None


@model('std::__exception_ptr::exception_ptr::~exception_ptr')
def m_ep_dtor(c, *a):
    return None


def _stdexc(ti):
    def f(c, *a):
        c.ev('std-throw', ti)
        return Throw(ti)
    return f


for n, t in (('out_of_range_fmt', '_ZTISt12out_of_range'), ('out_of_range', '_ZTISt12out_of_range'),
             ('length_error', '_ZTISt12length_error'), ('logic_error', '_ZTISt11logic_error'),
             ('bad_alloc', '_ZTISt9bad_alloc'), ('bad_array_new_length', '_ZTISt20bad_array_new_length'),
             ('invalid_argument', '_ZTISt16invalid_argument'), ('bad_function_call', '_ZTISt17bad_function_call'),
             ('bad_cast', '_ZTISt8bad_cast')):
    REG['std::__throw_' + n] = _stdexc(t)
REG['__cxa_throw_bad_array_new_length'] = _stdexc('_ZTISt20bad_array_new_length')


@model('std::runtime_error::runtime_error', 'std::logic_error::logic_error', 'std::out_of_range::out_of_range',
       'std::invalid_argument::invalid_argument', 'std::exception::exception', 'std::length_error::length_error')
def m_exc_ctor(c, this, *a):
    c.setM(this, ('stdexc', c.f.base))
    return None


@model('std::runtime_error::~runtime_error', 'std::logic_error::~logic_error', 'std::exception::~exception',
       'std::out_of_range::~out_of_range')
def m_exc_dtor(c, *a):
    return None


@model('std::runtime_error::what', 'std::exception::what', 'std::logic_error::what')
def m_what(c, this):
    return Ptr(c.st.new_region('text', None, ('sym', 'what', '')), 0)


@model('std::uncaught_exception')
def m_unc(c):
    return 0


@model('std::uncaught_exceptions')
def m_uncs(c):
    return len(c.st.caught)


@model('__cxa_guard_acquire')
def m_guard(c, p):
    g = c.it.region(c.st, p.r)
    if g.cells.get('guard'):
        return 0
    c.ev('guard', 1)
    return 1


@model('__cxa_guard_release')
def m_guard_rel(c, p):
    c.ev('guard', -1)
    c.it.store(c.st, p, 1, 1)
    return None


@model('__cxa_guard_abort', '__cxa_atexit', '__cxa_pure_virtual', '__dynamic_cast_')
def m_nop2(c, *a):
    return 0 if c.I.t != 'void' else None


# ---- strings -------------------------------------------------------------------------
# ('str', content, length, data pointer or 0)
# content: ('lit', chars) or an anonymous atom

def chsize(c):
    m = c.f.ctxfull if c.f else ''
    for n, s in (('char32_t', 4), ('wchar_t', 4), ('char16_t', 2)):
        if n in m or n in (c.f.prm or ''):
            return s
    return 1


def newstr(st, n, content=None):
    return ('str', content if content is not None else st.fresh(64, tag='str'), n, 0)


EMPTY = ('str', ('lit', ()), 0, 0)


def readlit(c, p, n, cs):
    """n characters at p as a literal, or None"""
    n = c.st.simp(n) if isinstance(n, Lin) else n
    if not isinstance(n, int) or n > 64:
        return None
    out = []
    for i in range(n):
        v = c.it.load(c.st, Ptr(p.r, addoff(p.o, i * cs)), cs, 'i%d' % (8 * cs))
        if not isinstance(v, (int, Lin)):
            return None
        out.append(v)
    return tuple(out)


def clen(c, p, cs):
    """length of a NUL terminated string"""
    g = c.it.deref(c.st, p, 'read')
    if g.kind in ('global', 'stack') and isinstance(p.o, int):
        n = 0
        while True:
            v = g.cells.get(p.o + n * cs)
            if v is None or v[1] != cs:
                break
            if v[0] == 0:
                return n
            if not isinstance(v[0], int):
                break
            n += 1
    if g.lazy[0] == 'sym' and isinstance(p.o, int):
        return c.st.fresh(64, ((0, 1 << 40),), name='%s+%d.strlen' % (g.lazy[1], p.o))
    return c.st.fresh(64, ((0, 1 << 40),))


def strcat(st, s, chars, n):
    """content after appending"""
    if chars is not None and chars[:1] != ('span',) and all(isinstance(x, int) for x in chars):
        if isinstance(s[1], tuple) and len(s[1][1]) + len(chars) <= 24:
            return ('lit', s[1][1] + chars)
        if isinstance(s[1], Op) and s[1].n in ('fmt', 'cat') and s[1].d < 5:
            return Op('cat', s[1], ('lit', chars))
        if isinstance(s[1], Op) and s[1].n == 'fill' and all(x == s[1].a[0] for x in chars):
            return s[1]
    return st.fresh(64, tag='str')


def isempty(st, s):
    return s[1] == ('lit', ()) or decide(st, 'eq', 64, s[2], 0) is True if isinstance(s[2], (int, Lin)) else False


def fillwith(st, s, ch):
    """content after appending copies of ch only"""
    if isempty(st, s):
        return Op('fill', ch)
    if isinstance(s[1], Op) and s[1].n == 'fill' and s[1].a[0] == ch:
        return s[1]
    if isinstance(s[1], tuple) and all(x == ch for x in s[1][1]):
        return Op('fill', ch)
    return st.fresh(64, tag='str')


def textof(c, p, n):
    """the content of the whole text at p, if n is exactly its length"""
    g = c.st.mem.get(p.r)
    if g is None or g.lazy[0] != 'py' or g.lazy[1] is not StrData or len(g.lazy) < 5 or p.o != 0:
        return None
    ln = g.lazy[4]
    if ln == n or isinstance(ln, (int, Lin)) and isinstance(n, (int, Lin)) and decide(c.st, 'eq', 64, ln, n) is True:
        return g.lazy[3]
    return None


@model('std::basic_string::basic_string')
def m_str_ctor(c, this, *a):
    cs = chsize(c)
    prm = c.f.prm
    st = c.st
    P = prm.replace('const', '').replace(' ', '')
    if prm in ('()', '') or 'allocator' in P and P.count(',') == 0 and P.startswith('(std::allocator') or len(a) == 0:
        c.setM(this, EMPTY)
    elif a and isinstance(a[0], Ptr) and ('basic_string' in P or 'std::string' in P or 'wstring' in P) and not P.startswith('(char') and not P.startswith('(wchar'):
        m = c.getM(a[0], 'str')
        if '&&' in P:
            c.setM(a[0], EMPTY)
            c.setM(this, m[:3] + (0,))
        else:
            if c.it.alloc_fail:
                s2 = st.fork()
                c.setM(this, m[:3] + (0,))
                c.ev('str.ctor', this, m)
                return Forks([(st, None), (s2, Throw('_ZTISt9bad_alloc'))])
            c.setM(this, m[:3] + (0,))
        c.ev('str.copy', this, a[0])
    elif len(a) >= 2 and isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].r == a[1].r and 'allocator' not in P.split(',')[1]:
        n = binop(st, 'udiv', 64, sub(64, a[1].o, a[0].o), cs)
        ch = readlit(c, a[0], n, cs)
        c.setM(this, newstr(st, n, ('lit', ch) if ch is not None else None))
    elif isinstance(a[0], Ptr):
        n = a[1] if len(a) > 1 and isinstance(a[1], (int, Lin)) else clen(c, a[0], cs)
        ch = readlit(c, a[0], n, cs)
        if ch is not None and not all(isinstance(x, int) for x in ch):
            ch = None
        c.ev('str.from', this, a[0], n)
        t = ('lit', ch) if ch is not None else None
        g = st.mem.get(a[0].r)
        if t is None and c.it.tokens and len(a) < 3 and g is not None and g.lazy[0] == 'sym' and isinstance(a[0].o, int):
            t = st.fresh(64, tag='str', name='%s+%d.cstr' % (g.lazy[1], a[0].o))
        c.setM(this, newstr(st, n, t))
    elif isinstance(a[0], (int, Lin)) and len(a) >= 2 and not isinstance(a[1], Ptr):
        c.setM(this, newstr(st, a[0], Op('fill', a[1])))
    elif isinstance(a[0], int) and a[0] == 0 and P.startswith('(char'):
        c.it.violation(st, 'null-deref', 'string constructed from a null pointer')
    else:
        c.setM(this, newstr(st, st.fresh(64, ((0, 1 << 40),))))
    c.ev('str.ctor', this, c.getM(this))
    return None


@model('std::basic_string::~basic_string')
def m_str_dtor(c, this):
    c.it.deref(c.st, this, 'destruction')
    c.ev('str.dtor', this)
    c.setM(this, None)
    return None


def strget(c, this):
    m = c.getM(this, 'str')
    if m is None:
        g = c.it.deref(c.st, this, 'use')
        if g.lazy[0] == 'undef' or any(isinstance(k, tuple) and k[1] == this.o for k in g.cells):
            c.it.violation(c.st, 'not-constructed', 'use of a string that was not constructed')
        c.st.note(2, 'unknown string')
        return newstr(c.st, c.st.fresh(64, ((0, 1 << 40),)))
    return m


@model('std::basic_string::size', 'std::basic_string::length')
def m_str_size(c, this):
    return strget(c, this)[2]


@model('std::basic_string::empty')
def m_str_empty(c, this):
    return int(c.test('eq', strget(c, this)[2], 0))


@model('std::basic_string::capacity', 'std::basic_string::max_size')
def m_str_cap(c, this):
    return c.st.fresh(64, ((0, 1 << 60),))


def strdata(c, this):
    m = strget(c, this)
    if m[3] != 0 and isinstance(m[3], Ptr) and c.st.mem[m[3].r].alive:
        return m[3]
    cs = chsize(c)
    nm = None
    if isinstance(m[1], Lin):
        (k, _), = m[1].t
        nm = k[1]
    r = c.st.new_region('text', None, ('py', StrData, cs, m[1], m[2]), name=None)
    p = Ptr(r, 0)
    if isinstance(m[1], tuple):
        g = c.st.wreg(r)
        for i, ch in enumerate(m[1][1]):
            g.cells[i * cs] = (ch, cs)
        g.cells[len(m[1][1]) * cs] = (0, cs)
    c.setM(this, m[:3] + (p,))
    return p


class _StrData:
    """characters of a string with unknown contents"""

    def __call__(self, it, st, p, off, size, ty, cs, content, length=None):
        if isinstance(content, Op) and content.n == 'fill' and size == cs:
            if length is None or not isinstance(off, int) or decide(st, 'ult', 64, off // cs, length) is True:
                return content.a[0]
        h = it.strchar(st, p, off, size, content) if hasattr(it, 'strchar') and it.strchar else None
        if h is not None:
            return h
        v = st.fresh(size * 8, tag='chr')
        st.wreg(p.r).cells[off] = (v, size)
        return v

    __qualname__ = 'StrData'


StrData = _StrData()


@model('std::basic_string::c_str', 'std::basic_string::data', 'std::basic_string::begin', 'std::basic_string::cbegin')
def m_str_data(c, this):
    return strdata(c, this)


@model('std::basic_string::end', 'std::basic_string::cend')
def m_str_end(c, this):
    p = strdata(c, this)
    return Ptr(p.r, scale(64, strget(c, this)[2], chsize(c)))


@model('std::basic_string::operator[]')
def m_str_idx(c, this, i):
    m = strget(c, this)
    c.require('ule', i, m[2], 'oob', 'string index out of bounds')
    p = strdata(c, this)
    return Ptr(p.r, scale(64, c.st.simp(i) if isinstance(i, Lin) else i, chsize(c)))


@model('std::basic_string::at')
def m_str_at(c, this, i):
    m = strget(c, this)
    if not c.test('ult', i, m[2]):
        return Throw('_ZTISt12out_of_range')
    p = strdata(c, this)
    return Ptr(p.r, scale(64, i, chsize(c)))


@model('std::basic_string::front', 'std::basic_string::back')
def m_str_front(c, this):
    m = strget(c, this)
    c.require('ne', m[2], 0, 'oob', 'front/back of an empty string')
    p = strdata(c, this)
    return Ptr(p.r, 0 if c.f.base == 'front' else scale(64, sub(64, m[2], 1), chsize(c)))


@model('std::basic_string::push_back')
def m_str_push(c, this, ch):
    m = strget(c, this)
    if c.ev('str.append', this, (ch,), 1) == 'done':
        return None
    c.setM(this, ('str', strcat(c.st, m, (ch,), 1), add(64, m[2], 1), 0))
    return None


def append(c, this, p, n):
    m = strget(c, this)
    cs = chsize(c)
    if n == 0:
        return
    whole = textof(c, p, n)
    if isinstance(whole, Op) and isempty(c.st, m):
        if c.ev('str.append', this, ('span', p), n) == 'done':
            return
        c.setM(this, ('str', whole, n, 0))
        return
    ch = readlit(c, p, n, cs)
    if c.ev('str.append', this, ch if ch is not None else ('span', p), n) == 'done':
        return
    c.setM(this, ('str', strcat(c.st, m, ch, n), add(64, m[2], n), 0))


@model('std::basic_string::append', 'std::basic_string::operator+=', 'std::basic_string::assign', 'std::basic_string::operator=')
def m_str_append(c, this, *a):
    cs = chsize(c)
    st = c.st
    P = c.f.prm.replace('const', '').replace(' ', '')
    asg = c.f.base in ('assign', 'operator=')
    if asg and not (a and a[0] == this):
        old = strget(c, this)
    if a and isinstance(a[0], Ptr) and ('basic_string' in P or 'std::string' in P or 'wstring' in P) and not P.startswith('(char'):
        m2 = strget(c, a[0])
        if asg:
            if a[0] != this:
                c.setM(this, m2[:3] + (0,))
                if '&&' in P:
                    c.setM(a[0], newstr(st, st.fresh(64, ((0, 1 << 40),))))
            c.ev('str.assign', this, a[0])
            return this
        p = strdata(c, a[0])
        if len(a) == 3:
            st.note(2, 'append substr')
        append(c, this, p, m2[2])
        return this
    if asg:
        c.setM(this, EMPTY)
    if a and isinstance(a[0], Ptr):
        if len(a) > 1 and isinstance(a[1], Ptr):
            n = binop(st, 'udiv', 64, sub(64, a[1].o, a[0].o), cs)
        elif len(a) > 1:
            n = a[1]
        elif 'initializer_list' in P:
            n = 0
        else:
            n = clen(c, a[0], cs)
        append(c, this, a[0], n)
        return this
    if len(a) == 2:
        m = strget(c, this)
        n = st.simp(a[0]) if isinstance(a[0], Lin) else a[0]
        if n == 0:
            return this
        if c.ev('str.append', this, ('rep', a[1]), n) == 'done':
            return this
        c.setM(this, newstr(st, add(64, m[2], n), fillwith(st, m, a[1])))
        return this
    if len(a) == 1 and isinstance(a[0], (int, Lin)):
        m_str_push(c, this, a[0])
        return this
    c.setM(this, newstr(st, st.fresh(64, ((0, 1 << 40),))))
    return this


@model('std::basic_string::resize')
def m_str_resize(c, this, n, *a):
    m = strget(c, this)
    st = c.st
    if c.ev('str.resize', this, n, m[2], a) == 'done':
        return None
    if n == 0:
        c.setM(this, EMPTY)
    else:
        ch = a[0] if a else 0
        x = fillwith(st, m, ch)
        if isinstance(m[1], tuple) and m[1][1] and isinstance(n, int) and isinstance(m[2], int) and n <= m[2]:
            x = ('lit', m[1][1][:n])
        c.setM(this, newstr(st, n, x))
    return None


@model('std::basic_string::clear')
def m_str_clear(c, this):
    strget(c, this)
    c.ev('str.clear', this)
    c.setM(this, EMPTY)
    return None


@model('std::basic_string::reserve', 'std::basic_string::shrink_to_fit')
def m_str_res(c, this, *a):
    return None


@model('std::basic_string::pop_back')
def m_str_pop(c, this):
    m = strget(c, this)
    c.require('ne', m[2], 0, 'oob', 'pop_back of an empty string')
    c.ev('str.pop', this)
    c.setM(this, newstr(c.st, sub(64, m[2], 1)))
    return None


@model('std::basic_string::copy')
def m_str_copy(c, this, d, n, pos=0):
    """copy(s, n, pos): min(n, size-pos) characters"""
    m = strget(c, this)
    st = c.st
    if not c.test('ule', pos, m[2]):
        return Throw('_ZTISt12out_of_range')
    rest = sub(64, m[2], pos)
    k = n if c.test('ule', n, rest) else st.simp(rest) if isinstance(rest, Lin) else rest
    p = strdata(c, this)
    cs = chsize(c)
    c.it.memcpy(st, d, Ptr(p.r, scale(64, pos, cs)), scale(64, k, cs))
    return k


@model('std::basic_string::swap')
def m_str_swap(c, a, b):
    x, y = strget(c, a), strget(c, b)
    c.setM(a, y)
    c.setM(b, x)
    return None


@model('std::basic_string::compare')
def m_str_compare(c, a, *b):
    v = c.st.fresh(32, name=None)
    return v


def streq(c, x, y):
    if x[1] == y[1] and x[2] == y[2]:
        return 1
    if isinstance(x[1], tuple) and isinstance(y[1], tuple) and all(isinstance(i, int) for i in x[1][1] + y[1][1]):
        return int(x[1][1] == y[1][1])
    return None


ISSTR = re.compile(r'\((const )?(std::(__cxx11::)?(basic_string<|string\b|wstring\b)|char|wchar_t)')


@model('std::operator==')
def m_eq(c, a, b):
    if ISSTR.match(c.f.prm):
        x = c.getM(a, 'str') if isinstance(a, Ptr) else None
        y = c.getM(b, 'str') if isinstance(b, Ptr) else None
        if x and y:
            r = streq(c, x, y)
            if r is not None:
                return r
            return c.it.bool(c.st, opk(1, 'streq', *sorted((hashable(x[1]), hashable(y[1])), key=repr)))
        return c.it.bool(c.st, opk(1, 'streq?', a, b))
    if c.f.decl:
        return NotImplemented
    r = c.ev('cmp', '==', a, b)
    if r is not None:
        return r
    return NotImplemented


def hashable(x):
    return x


@model('std::basic_string::compare')
def m_compare(c, this, *a):
    x = c.getM(this, 'str') if isinstance(this, Ptr) else None
    y = None
    if len(a) == 1 and isinstance(a[0], Ptr):
        if ISSTR.match(c.f.prm) and 'basic_string' in c.f.prm:
            y = c.getM(a[0], 'str')
    if not x or not y:
        return c.st.fresh(32)
    r = streq(c, x, y)
    if r is None:
        r = c.it.bool(c.st, opk(1, 'streq', *sorted((hashable(x[1]), hashable(y[1])), key=repr)))
    if r:
        return 0
    lt = c.it.bool(c.st, opk(1, 'strlt', x[1], y[1]))
    return c.st.fresh(32, ((1 << 31, (1 << 32) - 1),) if lt else ((1, (1 << 31) - 1),))


@model('std::operator<')
def m_lt(c, a, b):
    if ISSTR.match(c.f.prm):
        x = c.getM(a, 'str') if isinstance(a, Ptr) else None
        y = c.getM(b, 'str') if isinstance(b, Ptr) else None
        if x and y:
            return c.it.bool(c.st, opk(1, 'strlt', x[1], y[1]))
        return c.it.bool(c.st, opk(1, 'strlt?', a, b))
    r = c.ev('cmp', '<', a, b)
    if r is not None:
        return r
    return NotImplemented


@model('std::operator+')
def m_strplus(c, *a):
    if 'basic_string' not in c.f.prm and 'basic_string' not in c.f.dem:
        return NotImplemented
    if not isinstance(a[0], Ptr) or len(a) != 3:
        return NotImplemented
    c.setM(a[0], newstr(c.st, c.st.fresh(64, ((0, 1 << 40),))))
    return None


@model('std::__cxx11::to_string', 'std::to_string')
def m_tostring(c, ret, *a):
    t = c.f.prm.strip('()').replace(' ', '')
    c.setM(ret, newstr(c.st, c.st.fresh(64, ((1, 30),)), Op('fmt', t, a[0], 4098, 0, 6, 32, 'classic') if t in INTS else None))
    return None


INTS = ('int', 'long', 'longlong', 'short', 'unsignedint', 'unsignedlong', 'unsignedlonglong', 'unsignedshort')


def strfind(c, this, pred, a):
    """position of the first character with a property: pred(char) for literals, a remembered fact otherwise"""
    st = c.st
    m = strget(c, this)
    npos = (1 << 64) - 1
    what = a[0] if a else None
    cs = chsize(c)
    if isinstance(what, Ptr):
        x = c.getM(what, 'str') if 'basic_string' in c.f.prm.split(',')[0] else None
        if x is not None:
            chars = x[1][1] if isinstance(x[1], tuple) else None
        else:
            n = a[2] if len(a) > 2 else clen(c, what, cs)
            chars = readlit(c, what, n, cs)
    else:
        chars = (what,)
    pos = a[1] if len(a) > 1 else 0
    if isinstance(m[1], tuple) and chars is not None and pos == 0 and all(isinstance(x, int) for x in chars + m[1][1]):
        for i, ch in enumerate(m[1][1]):
            if (ch in chars) == (pred == 'of'):
                return i
        return npos
    if c.test('eq', m[2], 0):
        return npos
    if chars is None or pos != 0 or not all(isinstance(x, int) for x in chars):
        if not c.it.bool(st, opk(1, 'strsome', m[1], '%s:%s' % (c.I.fl, c.I.l) if c.I is not None else '')):
            return npos
    elif not c.it.bool(st, opk(1, 'str' + pred, m[1], tuple(sorted(set(chars))))):
        return npos
    i = st.fresh(64, ((0, 1 << 40),))
    if not refine(st, 'ult', 64, i, m[2]):
        raise Dead()
    return i


for n_, p_ in (('find_first_of', 'of'), ('find_last_of', 'of'), ('find_first_not_of', 'not'), ('find_last_not_of', 'not'), ('find', 'of')):
    def _sf(c, this, *a, p_=p_, n_=n_):
        if n_ == 'find' and isinstance(a[0], Ptr):
            x = c.getM(a[0], 'str') if 'basic_string' in c.f.prm.split(',')[0] else None
            if (x[2] if x else clen(c, a[0], chsize(c))) != 1:
                i = c.st.fresh(64)
                return i
        if 'last' in n_ and len(a) > 1:
            a = (a[0],)
        return strfind(c, this, p_, a)
    REG['std::basic_string::' + n_] = _sf


@model('strlen', 'wcslen', 'std::char_traits::length')
def m_strlen(c, p):
    if not isinstance(p, Ptr):
        c.it.deref(c.st, p, 'read')
    r = c.ev('strlen', p)
    if r is not None:
        return r
    return clen(c, p, chsize(c) if c.f.base == 'length' else 4 if c.f.base == 'wcslen' else 1)


@model('std::char_traits::copy', 'std::char_traits::move')
def m_ct_copy(c, d, s, n):
    c.it.memcpy(c.st, d, s, scale(64, n, chsize(c)))
    return d


# ---- locales and streams -------------------------------------------------------------

def tok(c, p):
    m = c.getM(p) if isinstance(p, Ptr) else None
    return m[1] if m and m[0] == 'loc' else 'unknown'


@model('std::locale::classic')
def m_classic(c):
    if '$classic' not in c.st.mem:
        c.st.new_region('ext', 8, ('any',), name='$classic')
        c.st.mem['$classic'].cells[('M', 0)] = ('loc', 'classic')
    return Ptr('$classic', 0)


@model('std::locale::locale')
def m_locale(c, this, *a):
    if not a:
        t = 'global'
    elif len(a) == 1:
        t = tok(c, a[0]) if 'locale' in c.f.prm else 'named'
    elif len(a) == 3 and 'locale const&, std::locale const&' in c.f.prm:
        t = ('mix', tok(c, a[0]), tok(c, a[1]), a[2])
    else:
        t = ('facet', tok(c, a[0])) if a else 'unknown'
    c.setM(this, ('loc', t))
    return None


@model('std::locale::~locale')
def m_locale_d(c, this):
    return None


@model('std::locale::operator=')
def m_locale_as(c, this, o):
    c.setM(this, ('loc', tok(c, o)))
    return this


IOSKEYS = ('buf', 'st', 'fl', 'w', 'p', 'fill', 'loc', 'exm')


def mkios(d):
    return ('ios', d['buf'], ('D', d['st'], d['fl'], d['w'], d['p'], d['fill'], d['loc'], d.get('exm', 0)))


def ios(c, p, st=None):
    """p points at the basic_ios subobject"""
    m = c.getM(p, 'ios', st)
    if m is None:
        g = c.it.deref(c.st, p, 'use')
        (st or c.st).note(2, 'unknown stream')
        return dict(buf=0, st=(0, 0, 0), fl=4098, w=0, p=6, fill=32, loc='unknown', exm=0)
    x = m[2]
    return dict(buf=m[1], st=x[1], fl=x[2], w=x[3], p=x[4], fill=x[5], loc=x[6], exm=x[7])


def setios(c, p, d, st=None):
    c.setM(p, mkios(d), st)


def iosof(c, p, st=None):
    """p points at a basic_istream / basic_ostream: find the virtual base"""
    st = st or c.st
    vp = c.it.load(st, p, 8, 'ptr')
    if not isinstance(vp, Ptr):
        c.it.violation(st, 'not-constructed', 'use of a stream that was not constructed')
    off = c.it.load(st, Ptr(vp.r, addoff(vp.o, -24)), 8, 'i64')
    return Ptr(p.r, addoff(p.o, cen(off, 64) if isinstance(off, int) else off))


def newios(c, p, buf):
    fill = 32
    c.setM(p, mkios(dict(buf=buf, st=(0, 0, 0 if isinstance(buf, Ptr) else 1), fl=4098, w=0, p=6, fill=fill, loc='global')))


def synth_vt(c, off):
    nm = '$vt%d' % off
    if nm not in c.st.mem:
        c.st.new_region('ext', None, ('any',), name=nm)
        c.st.mem[nm].cells[0] = (off, 8)
    return Ptr(nm, 24)


def _stream_ctor(off):
    def f(c, this, *a):
        if 'C2' in c.f.name and c.f.prm and len(a) >= 1 and a[0] is not None and isinstance(a[0], Ptr) and isinstance(a[0].r, str) and a[0].r.startswith('@_ZTT'):
            vtt = a[0]
            vp = c.it.load(c.st, vtt, 8, 'ptr')
            c.it.store(c.st, this, vp, 8)
            buf = a[1] if len(a) > 1 else None
        else:
            c.it.store(c.st, this, synth_vt(c, off), 8)
            buf = a[0] if a else None
        p = iosof(c, this)
        if buf is None:
            buf = 0
        newios(c, p, buf)
        c.ev('stream.ctor', this, p, buf)
        return None
    return f


REG['std::basic_istream::basic_istream'] = _stream_ctor(16)
REG['std::basic_ostream::basic_ostream'] = _stream_ctor(8)


@model('std::basic_istream::~basic_istream', 'std::basic_ostream::~basic_ostream', 'std::basic_ios::~basic_ios',
       'std::ios_base::~ios_base')
def m_stream_d(c, *a):
    return None


@model('std::basic_ios::basic_ios', 'std::ios_base::ios_base')
def m_ios_ctor(c, this, *a):
    newios(c, this, a[0] if a else 0)
    return None


@model('std::basic_ios::init')
def m_ios_init(c, this, b):
    newios(c, this, b)
    return None


@model('std::basic_ios::rdbuf')
def m_rdbuf(c, this, *a):
    d = ios(c, this)
    old = d['buf']
    if a:
        d['buf'] = a[0]
        d['st'] = (0, 0, 0 if isinstance(a[0], Ptr) else 1)
        setios(c, this, d)
    return old


def good(d):
    return d['st'] == (0, 0, 0)


@model('std::basic_ios::good')
def m_good(c, this):
    return int(good(ios(c, this)))


@model('std::basic_ios::eof')
def m_eof(c, this):
    return ios(c, this)['st'][0]


@model('std::basic_ios::fail', 'std::basic_ios::operator!')
def m_fail(c, this):
    s = ios(c, this)['st']
    return int(bool(s[1] or s[2]))


@model('std::basic_ios::operator bool', 'std::basic_ios::operator void*')
def m_obool(c, this):
    s = ios(c, this)['st']
    return int(not (s[1] or s[2]))


@model('std::basic_ios::bad')
def m_bad(c, this):
    return ios(c, this)['st'][2]


@model('std::basic_ios::rdstate')
def m_rdstate(c, this):
    s = ios(c, this)['st']
    return s[2] | s[0] << 1 | s[1] << 2


def bits(v):
    return ((v >> 1) & 1, (v >> 2) & 1, v & 1)


@model('std::basic_ios::setstate')
def m_setstate(c, this, v):
    d = ios(c, this)
    b = bits(v)
    d['st'] = tuple(x | y for x, y in zip(d['st'], b))
    setios(c, this, d)
    return None


@model('std::basic_ios::clear')
def m_clear(c, this, v=0):
    d = ios(c, this)
    d['st'] = bits(v)
    if not isinstance(d['buf'], Ptr):
        d['st'] = d['st'][:2] + (1,)
    setios(c, this, d)
    return None


@model('std::basic_ios::exceptions')
def m_exceptions(c, this, *a):
    d = ios(c, this)
    if a:
        d['exm'] = a[0]
        setios(c, this, d)
        return None
    return d['exm']


@model('std::basic_ios::imbue', 'std::ios_base::imbue')
def m_imbue(c, ret, this, loc):
    d = ios(c, this)
    c.setM(ret, ('loc', d['loc']))
    d['loc'] = tok(c, loc)
    setios(c, this, d)
    c.ev('imbue', this, d['loc'])
    return None


@model('std::ios_base::getloc')
def m_getloc(c, ret, this):
    c.setM(ret, ('loc', ios(c, this)['loc']))
    return None


@model('std::basic_ios::fill')
def m_fill(c, this, *a):
    d = ios(c, this)
    old = d['fill']
    if a:
        d['fill'] = a[0]
        setios(c, this, d)
    return old


def _field(k):
    def f(c, this, *a):
        d = ios(c, this)
        old = d[k]
        if a:
            d[k] = a[0]
            setios(c, this, d)
        return old
    return f


REG['std::ios_base::flags'] = _field('fl')
REG['std::ios_base::precision'] = _field('p')
REG['std::ios_base::width'] = _field('w')


def fbits(c, op, *a):
    return binop(c.st, op, 32, *a)


@model('std::ios_base::setf')
def m_setf(c, this, fl, *mask):
    d = ios(c, this)
    old = d['fl']
    if mask:
        d['fl'] = fbits(c, 'or', fbits(c, 'and', old, ~mask[0] & 0xffffffff if isinstance(mask[0], int) else mask[0]), fbits(c, 'and', fl, mask[0]))
    else:
        d['fl'] = fbits(c, 'or', old, fl)
    setios(c, this, d)
    return old


@model('std::ios_base::unsetf')
def m_unsetf(c, this, mask):
    d = ios(c, this)
    d['fl'] = fbits(c, 'and', d['fl'], ~mask & 0xffffffff if isinstance(mask, int) else mask)
    setios(c, this, d)
    return None


def _manip(set_, mask):
    def f(c, b):
        d = ios(c, b)
        d['fl'] = fbits(c, 'or', fbits(c, 'and', d['fl'], ~mask & 0xffffffff), set_)
        setios(c, b, d)
        return b
    return f


for n, s, m_ in (('hex', 8, 74), ('dec', 2, 74), ('oct', 64, 74), ('uppercase', 16384, 0), ('nouppercase', 0, 16384),
                 ('showbase', 512, 0), ('noshowbase', 0, 512), ('skipws', 4096, 0), ('noskipws', 0, 4096),
                 ('fixed', 4, 260), ('scientific', 256, 260), ('left', 32, 176), ('right', 128, 176), ('internal', 16, 176),
                 ('boolalpha', 1, 0), ('noboolalpha', 0, 1), ('showpos', 2048, 0), ('noshowpos', 0, 2048),
                 ('hexfloat', 260, 260), ('defaultfloat', 0, 260), ('showpoint', 1024, 0), ('noshowpoint', 0, 1024)):
    REG['std::' + n] = _manip(s, m_)


# virtual table slots of std::basic_streambuf (Itanium ABI, libstdc++)
SLOT = {'sync': 6, 'showmanyc': 7, 'xsgetn': 8, 'underflow': 9, 'uflow': 10, 'pbackfail': 11, 'xsputn': 12, 'overflow': 13}


def virt(c, st, buf, name):
    vp = c.it.load(st, buf, 8, 'ptr')
    if not isinstance(vp, Ptr):
        c.it.violation(st, 'not-constructed', 'use of a stream buffer that was not constructed')
    f = c.it.load(st, Ptr(vp.r, addoff(vp.o, 8 * SLOT[name])), 8, 'ptr')
    return f


@model('std::basic_streambuf::basic_streambuf')
def m_sb_ctor(c, this, *a):
    vt = '$vtsb%d' % (4 if 'wchar_t' in c.f.ctxfull or '32' in c.f.ctxfull else 2 if '16' in c.f.ctxfull else 1)
    if vt not in c.st.mem:
        c.st.new_region('ext', None, ('any',), name=vt)
        for n, s in SLOT.items():
            c.st.mem[vt].cells[8 * s] = (Fn('$sb_' + n), 8)
    c.it.store(c.st, this, Ptr(vt, 0), 8)
    for o in range(8, 56, 8):
        c.it.store(c.st, Ptr(this.r, addoff(this.o, o)), 0, 8)
    c.setM(Ptr(this.r, addoff(this.o, 56)), ('loc', 'global'))
    return None


@model('std::basic_streambuf::~basic_streambuf')
def m_sb_dtor(c, this):
    return None


def _eofval(c):
    return 0xffffffff


# default virtual members
REG['$sb_sync'] = lambda c, this: 0
REG['std::basic_streambuf::sync'] = lambda c, this: 0
REG['$sb_showmanyc'] = REG['std::basic_streambuf::showmanyc'] = lambda c, this: 0
REG['$sb_underflow'] = REG['std::basic_streambuf::underflow'] = lambda c, this: 0xffffffff
REG['$sb_pbackfail'] = REG['std::basic_streambuf::pbackfail'] = lambda c, this, *a: 0xffffffff
REG['$sb_overflow'] = REG['std::basic_streambuf::overflow'] = lambda c, this, *a: 0xffffffff


@model('$sb_uflow', 'std::basic_streambuf::uflow')
def m_sb_uflow(c, this):
    # default: underflow(), then bump the get pointer
    f = virt(c, c.st, this, 'underflow')

    def k(c2, r, this):
        g = c2.it.load(c2.st, Ptr(this.r, addoff(this.o, 16)), 8, 'ptr')
        if isinstance(g, int):
            return 0xffffffff if r == 0xffffffff else r
        c2.st.note(2, 'get area')
        return r
    return Call(f, [this], _k_uflow, (this,))


def _k_uflow(c, r, this):
    return r


@model('$sb_xsputn', 'std::basic_streambuf::xsputn')
def m_sb_xsputn(c, this, s, n):
    n = c.st.simp(n) if isinstance(n, Lin) else n
    if n == 0:
        return 0
    if not isinstance(n, int) or n > 64:
        c.st.note(2, 'default xsputn of unknown length')
        return n
    return _xsputn_step(c, None, this, s, n, 0)


def _xsputn_step(c, r, this, s, n, i):
    if r is not None and r == 0xffffffff:
        return i - 1
    if i == n:
        return n
    ch = c.it.load(c.st, Ptr(s.r, addoff(s.o, i)), 1, 'i8')
    v = zext(c.st, ch, 8, 32) if isinstance(ch, (int, Lin)) else ch
    f = virt(c, c.st, this, 'overflow')
    return Call(f, [this, v], _xsputn_step, (this, s, n, i + 1))


def getarea(c, st, buf):
    g = c.it.load(st, Ptr(buf.r, addoff(buf.o, 16)), 8, 'ptr')
    return g if isinstance(g, Ptr) else None


def chwidth(c):
    return 8 * chsize(c)


def setst(c, p, e=0, f=0, b=0, st=None):
    d = ios(c, p, st)
    s = d['st']
    d['st'] = (s[0] | e, s[1] | f, s[2] | b)
    setios(c, p, d, st)


@model('std::basic_istream::get', 'std::basic_istream::peek')
def m_get(c, this, *a):
    p = iosof(c, this)
    d = ios(c, p)
    iw = intw(c)
    eof = (1 << iw) - 1
    if len(a) >= 2:
        return NotImplemented
    if not good(d):
        setst(c, p, f=1)
        return eof if not a else this
    buf = d['buf']
    peek = c.f.base == 'peek'
    f = virt(c, c.st, buf, 'underflow' if peek else 'uflow')
    return Call(f, [buf], _k_get, (this, p, peek, a, chsize(c), iw), _x_bad)


def intw(c):
    """bits of traits::int_type"""
    return 16 if chsize(c) == 2 else 32


def _k_get(c, r, this, p, peek, a, cs, iw):
    out = []
    eof = (1 << iw) - 1
    for s, is_eof in c.split(c.st, 'eq', r, eof, iw):
        c2 = Ctx(c.it, s, c.I, c.f, None)
        if is_eof:
            setst(c2, p, e=1, f=0 if peek else 1)
            out.append((s, this if a else eof))
        else:
            if a:
                c2.it.store(s, a[0], trunc(s, r, cs * 8), cs)
            d = ios(c2, p)
            out.append((s, this if a else (s.simp(r) if isinstance(r, Lin) else r)))
    return Forks(out)


def _x_bad(c, exc, this, p, *rest):
    """an exception inside a stream operation sets badbit and is swallowed"""
    setst(c, p, b=1)
    c.ev('stream.swallow', exc)
    return this if rest and rest[-3] else (1 << rest[-1]) - 1


@model('std::basic_istream::read')
def m_read(c, this, s, n):
    p = iosof(c, this)
    d = ios(c, p)
    if not good(d):
        setst(c, p, f=1)
        return this
    f = virt(c, c.st, d['buf'], 'xsgetn')
    return Call(f, [d['buf'], s, n], _k_read, (this, p, n))


def _k_read(c, r, this, p, n):
    out = []
    for s, same in c.split(c.st, 'eq', r, n, 64):
        c2 = Ctx(c.it, s, c.I, c.f, None)
        if not same:
            setst(c2, p, e=1, f=1)
        out.append((s, this))
    return Forks(out)


@model('$sb_xsgetn', 'std::basic_streambuf::xsgetn')
def m_sb_xsgetn(c, this, s, n):
    c.st.note(2, 'default xsgetn')
    return c.st.fresh(64, tag='unk')


@model('std::basic_ostream::put')
def m_put(c, this, ch):
    return out_put(c, this, ch)


def chin(c, v, st=None):
    """to_int_type"""
    st = st or c.st
    if not isinstance(v, (int, Lin)):
        return v
    w = v.w if isinstance(v, Lin) else 32
    if isinstance(v, Lin) and v.w == 8:
        return zext(st, v, 8, 32)
    return v


def out_put(c, this, ch):
    p = iosof(c, this)
    d = ios(c, p)
    if not good(d):
        if d['st'][2]:
            setst(c, p, f=1)
        return this
    f = virt(c, c.st, d['buf'], 'overflow')
    cs = chsize(c)
    v = ch & ((1 << 8 * cs) - 1) if isinstance(ch, int) else zext(c.st, ch, 8 * cs, 32) if isinstance(ch, Lin) and cs < 4 else ch
    return Call(f, [d['buf'], v], _k_put, (this, p), _x_out)


def _k_put(c, r, this, p):
    out = []
    for s, is_eof in c.split(c.st, 'eq', r, 0xffffffff, 32):
        if is_eof:
            setst(Ctx(c.it, s, c.I, c.f, None), p, b=1)
        out.append((s, this))
    return Forks(out)


def _x_out(c, exc, this, p, *rest):
    setst(c, p, b=1)
    c.ev('stream.swallow', exc)
    return this


@model('std::basic_ostream::write')
def m_write(c, this, s, n):
    return out_write(c, this, s, n)


def out_write(c, this, s, n):
    p = iosof(c, this)
    d = ios(c, p)
    if not good(d):
        if d['st'][2]:
            setst(c, p, f=1)
        return this
    f = virt(c, c.st, d['buf'], 'xsputn')
    return Call(f, [d['buf'], s, n], _k_write, (this, p, n), _x_out)


def _k_write(c, r, this, p, n):
    out = []
    for s, same in c.split(c.st, 'eq', r, n, 64):
        if not same:
            setst(Ctx(c.it, s, c.I, c.f, None), p, b=1)
        out.append((s, this))
    return Forks(out)


@model('std::basic_ostream::flush', 'std::flush')
def m_flush(c, this):
    return this


def fmt_out(c, this, kind, v):
    """formatted output of a number: one event with the formatting in force"""
    p = iosof(c, this)
    d = ios(c, p)
    if not good(d):
        if d['st'][2]:
            setst(c, p, f=1)
        return this
    r = c.ev('fmt', this, d, kind, v)
    w = d['w']
    d['w'] = 0
    setios(c, p, d)
    d['w'] = w
    if r == 'done':
        return this
    if r == 'fail':
        setst(c, p, b=1)
        return this
    # characters of unknown text reach the buffer
    n = c.st.fresh(64, ((1, 400),))
    t = c.st.new_region('text', None, ('py', StrData, chsize(c), Op('fmt', kind, v, d['fl'], d['w'], d['p'], d['fill'], d['loc']), n))
    w = d['w']
    f = virt(c, c.st, d['buf'], 'xsputn')
    return Call(f, [d['buf'], Ptr(t, 0), n], _k_write, (this, p, n), _x_out)


def str_out(c, this, s, n):
    p = iosof(c, this)
    d = ios(c, p)
    if d['w'] != 0:
        w = d['w']
        r = c.ev('pad', this, d, n)
        d = ios(c, p)
        d['w'] = 0
        setios(c, p, d)
    return out_write(c, this, s, n)


@model('std::operator<<')
def m_shl(c, this, v, *more):
    P = c.f.prm.replace(' ', '')
    a = P.split('&,', 1)[1] if '&,' in P else P
    st = c.st
    if a.startswith('std::_Setfill'):
        p = iosof(c, this)
        d = ios(c, p)
        d['fill'] = v
        setios(c, p, d)
        return this
    if a.startswith('std::_Setw'):
        p = iosof(c, this)
        d = ios(c, p)
        d['w'] = c.it.sext(st, v, 32, 64)
        setios(c, p, d)
        return this
    if a.startswith('std::_Setprecision'):
        p = iosof(c, this)
        d = ios(c, p)
        d['p'] = c.it.sext(st, v, 32, 64)
        setios(c, p, d)
        return this
    if a.startswith('std::_Set') or a.startswith('std::_Reset'):
        p = iosof(c, this)
        d = ios(c, p)
        if 'base' in a:
            b = {16: 8, 10: 2, 8: 64}.get(v, 0)
            d['fl'] = fbits(c, 'or', fbits(c, 'and', d['fl'], ~74 & 0xffffffff), b)
        elif 'Resetios' in a:
            d['fl'] = fbits(c, 'and', d['fl'], ~v & 0xffffffff)
        elif 'Setios' in a:
            d['fl'] = fbits(c, 'or', d['fl'], v)
        setios(c, p, d)
        return this
    if a.startswith('std::__cxx11::basic_string') or a.startswith('std::basic_string') or a.startswith('std::string') or 'basic_string<' in a:
        m = strget(c, v)
        q = strdata(c, v)
        return str_out(c, this, q, m[2])
    if a.endswith('const*)') or a.endswith('*)'):
        if not isinstance(v, Ptr):
            p = iosof(c, this)
            setst(c, p, b=1)
            return this
        cs = chsize(c)
        if a.startswith('charconst*') and ('wchar_t' in P or 'wostream' in P):
            n = clen(c, v, 1)      # narrow text: every character is widened
            lit = readlit(c, v, n, 1)
            if lit is None:
                st.note(2, 'widening of unknown text')
                return this
            r = st.new_region('text', None, ('undef',))
            for i, x in enumerate(lit + (0,)):
                st.mem[r].cells[4 * i] = (x if isinstance(x, int) else c.it.sext(st, x, 8, 32), 4)
            return str_out(c, this, Ptr(r, 0), n)
        return str_out(c, this, v, clen(c, v, cs))
    if a in ('char)', 'signedchar)', 'unsignedchar)', 'wchar_t)', 'char16_t)', 'char32_t)') or a in ('_CharT)',):
        p = iosof(c, this)
        d = ios(c, p)
        if d['w'] != 0:
            c.ev('pad', this, d, 1)
            d['w'] = 0
            setios(c, p, d)
        if a != 'char)' and chsize(c) == 1:
            pass
        elif a == 'char)' and 'basic_ostream<char' not in P and 'std::ostream' not in P and chsize(c) > 1:
            v = c.it.sext(st, v, 8, 8 * chsize(c))   # widen()
        return out_put(c, this, v)
    return NotImplemented


@model('std::basic_ostream::operator<<')
def m_shl_mem(c, this, v, *more):
    P = c.f.prm.replace(' ', '')
    st = c.st
    if isinstance(v, Fn):
        if 'ios_base' in P:
            return Call(v, [iosof(c, this)], _k_self, (this,))
        if 'basic_ios' in P:
            return Call(v, [iosof(c, this)], _k_self, (this,))
        return Call(v, [this], _k_self, (this,))
    t = P.strip('()')
    if t in ('bool', 'int', 'long', 'longlong', 'short', 'unsignedint', 'unsignedlong', 'unsignedlonglong', 'unsignedshort'):
        return fmt_out(c, this, t, v)
    if t in ('double', 'float', 'longdouble'):
        return fmt_out(c, this, t, v)
    return NotImplemented


def _k_self(c, r, this):
    return this


@model('fgetc', 'getc', 'fgetwc', 'getwc', 'std::fgetc')
def m_fgetc(c, f):
    r = c.ev('fgetc', f)
    if r is not None:
        return r
    return c.st.fresh(32, ((0, 255), (0xffffffff, 0xffffffff)))


# get/put area accessors (libstdc++ layout: vptr, eback, gptr, egptr, pbase, pptr, epptr)
for n, o in (('eback', 8), ('gptr', 16), ('egptr', 24), ('pbase', 32), ('pptr', 40), ('epptr', 48)):
    REG['std::basic_streambuf::' + n] = (lambda o: lambda c, this: c.it.load(c.st, Ptr(this.r, addoff(this.o, o)), 8, 'ptr'))(o)


@model('std::basic_streambuf::setg')
def m_setg(c, this, a, b, e):
    for o, v in ((8, a), (16, b), (24, e)):
        c.it.store(c.st, Ptr(this.r, addoff(this.o, o)), v, 8)
    return None


@model('std::basic_streambuf::setp')
def m_setp(c, this, b, e):
    for o, v in ((32, b), (40, b), (48, e)):
        c.it.store(c.st, Ptr(this.r, addoff(this.o, o)), v, 8)
    return None


def _sb(name):
    def f(c, this, *a):
        g = getarea(c, c.st, this)
        if g is not None:
            return NotImplemented
        if name == 'sputc':
            v = zext(c.st, a[0], 8, 32) if chsize(c) == 1 and isinstance(a[0], (int, Lin)) else a[0]
            if isinstance(v, int) and chsize(c) == 1:
                v &= 255
            return Call(virt(c, c.st, this, 'overflow'), [this, v])
        n = {'sgetc': 'underflow', 'sbumpc': 'uflow', 'sgetn': 'xsgetn', 'sputn': 'xsputn', 'pubsync': 'sync'}[name]
        return Call(virt(c, c.st, this, n), [this] + list(a))
    return f


for n in ('sgetc', 'sbumpc', 'sgetn', 'sputn', 'sputc', 'pubsync'):
    REG['std::basic_streambuf::' + n] = _sb(n)


@model('std::allocator::allocator', 'std::allocator::~allocator', 'std::__new_allocator::__new_allocator', 'std::__new_allocator::~__new_allocator')
def m_alloc_obj(c, *a):
    return None
