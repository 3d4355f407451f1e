"""Abstract models of std containers.
vector: ('vec', size, data, ('n', stride));  elements live at data + stride*i
nodes : ('map', size, nodes, ('n', stride), memo); element number i of the iteration order is the node at
        nodes + NODE*i (libstdc++ node header + payload); lookups return a node of unknown number"""
import re
from .values import *
from .state import *
from .interp import Throw, Call, Forks, Rethrow, ForkTo, Dead, addoff, AnalysisError, Ctx, offdiff, Interp
from .ir import width, tsize
from .models import model, REG, Ctx

NODE = 4096


def vecstride(it, ctx):
    """element size of std::vector<T>, from the pointer arithmetic in its instantiated members"""
    d = it.__dict__.setdefault('_vstride', {})
    if ctx in d:
        return d[ctx]
    r = None
    for f in it.mod.funcs.values():
        if f.ctxfull == ctx and not f.decl and f.base in ('operator[]', 'size', 'push_back', 'emplace_back', 'back', '_M_default_append', 'capacity'):
            for b in f.blocks:
                for I in b:
                    if I.o == 'sdiv' and I.a[1][0] == 1 and f.base in ('size', 'capacity'):
                        r = I.a[1][1]
                    elif I.o == 'getelementptr' and I.var and f.base == 'operator[]':
                        r = I.var[0][1]
                    elif I.o == 'getelementptr' and f.base in ('push_back', 'emplace_back') and I.off > 0 and not I.var and r is None and I.off not in (8, 16):
                        pass
            if r:
                break
    if r is None:
        a = ctx[ctx.find('<') + 1:]
        for n, s in (('char32_t', 4), ('wchar_t', 4), ('int', 4), ('double', 8), ('float', 4), ('long', 8), ('char', 1), ('bool', 1),
                     ('std::__cxx11::basic_string', 32), ('std::string', 32), ('std::vector', 24), ('std::map', 48),
                     ('configor::basic_value', 16)):
            if a.startswith(n):
                r = s
                break
    if r is None:
        r = it.sizes.get(ctx)
    d[ctx] = r
    return r


def elemtype(ctx):
    """first template argument of 'std::vector<T, ...>'"""
    i = ctx.find('<')
    d = 0
    for j in range(i, len(ctx)):
        ch = ctx[j]
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
            if d == 0:
                return ctx[i + 1:j]
        elif ch == ',' and d == 1:
            return ctx[i + 1:j]
    return '?'


def targs(ctx):
    i = ctx.find('<')
    out = []
    d = 0
    s = i + 1
    for j in range(i, len(ctx)):
        ch = ctx[j]
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
            if d == 0:
                out.append(ctx[s:j].strip())
                break
        elif ch == ',' and d == 1:
            out.append(ctx[s:j].strip())
            s = j + 1
    return out


Interp.sizes = {}
# how elements of a given type look when their construction was not seen
Interp.elemlazy = lambda it, ty: ('any',)


def newelems(c, ty, kind='elems'):
    return Ptr(c.st.new_region(kind, None, c.it.elemlazy(ty)), 0)


def vget(c, this, st=None):
    m = c.getM(this, 'vec', st)
    if m is None:
        g = c.it.deref(c.st, this, 'use')
        if any(isinstance(k, tuple) and k[1] == this.o for k in g.cells) or g.lazy[0] == 'undef':
            c.it.violation(st or c.st, 'not-constructed', 'use of a vector that was not constructed')
        (st or c.st).note(2, 'unknown vector')
        m = ('vec', (st or c.st).fresh(64, ((0, 1 << 40),)), newelems(c, elemtype(c.f.ctxfull)), ('n', 0))
        c.setM(this, m, st)
    if m[3][1] == 0 and c.f is not None:
        s = vecstride(c.it, c.f.ctxfull)
        if s is None:
            c.st.note(2, 'unknown element size of ' + c.f.ctxfull[:60])
            s = 8
        g = (st or c.st).mem.get(m[2].r)
        if g is not None and g.lazy == ('any',):
            (st or c.st).wreg(m[2].r).lazy = c.it.elemlazy(elemtype(c.f.ctxfull))
        m = m[:3] + (('n', s),)
        c.setM(this, m, st)
    return m


def find_construct(it, fn, depth=6):
    """the call of allocator_traits::construct reached from fn"""
    d = it.__dict__.setdefault('_fc', {})
    if fn.name in d:
        return d[fn.name]
    d[fn.name] = None
    best = None
    work = [(fn, 0)]
    seen = set()
    while work:
        f, k = work.pop(0)
        if f.name in seen or f.decl or k > depth:
            continue
        seen.add(f.name)
        for b in f.blocks:
            for I in b:
                if I.o in ('call', 'invoke') and I.f[0] == 1 and isinstance(I.f[1], Fn):
                    t = it.mod.funcs.get(I.f[1].n)
                    if t is None:
                        continue
                    if t.qual == 'std::allocator_traits::construct':
                        d[fn.name] = t
                        return t
                    if t.ctx.startswith('std::') or t.qual.startswith('std::'):
                        work.append((t, k + 1))
    return None


def forget(c, st, m):
    """elements that exist already are summarised: their cells become lazily initialised again"""
    if c.it.tokens:
        absorb(c.it, st, m[2].r, False)
    g = st.wreg(m[2].r)
    g.cells = {}


# ---- content tokens (only where the monitor asks for them): what a container holds, as a term kept with its storage


def tok(st, m):
    g = st.mem.get(m[2].r)
    return g.info if g is not None and g.info is not None else ('t', m[2].r)


def settok(c, m, t, st=None):
    if c.it.tokens:
        (st or c.st).wreg(m[2].r).info = t


def absorb(it, st, r, dead, seen=None):
    """payloads owned by the elements in region r: from now on the container's business (dead: they are released)"""
    seen = seen if seen is not None else set()
    if r in seen or r not in st.mem:
        return
    seen.add(r)
    for o, c in list(st.mem[r].cells.items()):
        if isinstance(o, tuple):
            if o[0] == 'M' and c[0] in ('vec', 'map'):
                absorb(it, st, c[2].r, dead, seen)
        elif isinstance(c[0], Ptr) and c[0].r in st.mem and st.mem[c[0].r].kind == 'heap':
            if not st.mem[c[0].r].alive:
                it.violation(st, 'dead-access', 'an element refers to a payload that was released')
            absorb(it, st, c[0].r, dead, seen)
            g = st.wreg(c[0].r)
            g.info = 'absorbed'
            if dead:
                g.alive = False
                g.cells = {}


@model('std::vector::vector')
def v_ctor(c, this, *a):
    st = c.st
    s = vecstride(c.it, c.f.ctxfull) or 8
    ty = elemtype(c.f.ctxfull)
    P = c.f.prm.replace('const', '').replace(' ', '')
    cf = c.f.ctxfull.replace(' ', '')
    if a and isinstance(a[0], Ptr) and P.startswith('(' + cf.replace('const', '')) or (a and P.startswith('(std::vector<')):
        src = vget(c, a[0])
        if '&&' in P:
            c.setM(this, src)
            c.ev('vec.move', this, a[0])
            c.setM(a[0], ('vec', 0, newelems(c, ty), ('n', s)))
            return None
        d = newelems(c, ty)
        c.ev('vec.copy', this, a[0])
        settok(c, (0, 0, d), tok(st, src))
        if c.it.alloc_fail:
            s2 = st.fork()
            c.setM(this, ('vec', src[1], d, ('n', s)))
            return Forks([(st, None), (s2, Throw('_ZTISt9bad_alloc'))])
        c.setM(this, ('vec', src[1], d, ('n', s)))
        return None
    if not a or P.startswith('(std::allocator') and len(a) <= 1:
        c.setM(this, ('vec', 0, newelems(c, ty), ('n', s)))
        c.ev('vec.ctor', this)
        return None
    n = None
    if 'initializer_list' in P:
        n = a[1]
    elif isinstance(a[0], (int, Lin)):
        n = a[0]
    elif isinstance(a[0], Ptr) and len(a) > 1 and isinstance(a[1], Ptr) and a[0].r == a[1].r:
        n = st.fresh(64, ((0, 1 << 40),))
        c.ev('vec.range', this, a[0], a[1])
    else:
        n = st.fresh(64, ((0, 1 << 40),))
    c.ev('vec.ctor_n', this, n, a)
    m = ('vec', n, newelems(c, ty), ('n', s))
    if c.it.alloc_fail:
        s2 = st.fork()
        c.setM(this, m)
        return Forks([(st, None), (s2, Throw('_ZTISt9bad_alloc'))])
    c.setM(this, m)
    return None


@model('std::vector::~vector')
def v_dtor(c, this):
    c.it.deref(c.st, this, 'destruction')
    c.ev('vec.dtor', this)
    if c.it.tokens:
        m = c.getM(this, 'vec')
        if m is not None:
            absorb(c.it, c.st, m[2].r, True)
            c.st.wreg(m[2].r).alive = False
    c.setM(this, None)
    return None


@model('std::vector::size')
def v_size(c, this):
    return vget(c, this)[1]


@model('std::vector::capacity', 'std::vector::max_size')
def v_cap(c, this):
    m = vget(c, this)
    if c.f.base == 'max_size' and m[3][1]:
        return ((1 << 63) - 1) // m[3][1]
    return c.st.fresh(64, ((0, 1 << 60),))


@model('std::vector::empty')
def v_empty(c, this):
    return int(c.test('eq', vget(c, this)[1], 0))


@model('std::vector::begin', 'std::vector::cbegin', 'std::vector::data')
def v_begin(c, this):
    m = vget(c, this)
    return m[2]


@model('std::vector::end', 'std::vector::cend')
def v_end(c, this):
    m = vget(c, this)
    return Ptr(m[2].r, addoff(m[2].o, scale(64, m[1], m[3][1])))


@model('std::vector::rbegin', 'std::vector::rend')
def v_rbegin(c, ret, this=None, *a):
    if this is None:
        return NotImplemented
    m = vget(c, this)
    p = Ptr(m[2].r, addoff(m[2].o, scale(64, m[1], m[3][1]))) if c.f.base == 'rbegin' else m[2]
    c.it.store(c.st, ret, p, 8)
    return None


def elem(m, i):
    return Ptr(m[2].r, addoff(m[2].o, scale(64, i, m[3][1])))


@model('std::vector::operator[]')
def v_idx(c, this, i):
    m = vget(c, this)
    i = c.st.simp(i) if isinstance(i, Lin) else i
    c.require('ult', i, m[1], 'oob', 'vector index out of bounds')
    c.ev('vec.index', this, i)
    return elem(m, i)


@model('std::vector::at')
def v_at(c, this, i):
    m = vget(c, this)
    if not c.test('ult', i, m[1]):
        c.ev('std-throw', '_ZTISt12out_of_range')
        return Throw('_ZTISt12out_of_range')
    c.ev('vec.index', this, i)
    return elem(m, c.st.simp(i) if isinstance(i, Lin) else i)


@model('std::vector::front', 'std::vector::back')
def v_front(c, this):
    m = vget(c, this)
    c.require('ne', m[1], 0, 'oob', 'front/back of an empty vector')
    i = 0 if c.f.base == 'front' else sub(64, c.st.simp(m[1]) if isinstance(m[1], Lin) else m[1], 1)
    c.ev('vec.index', this, i)
    return elem(m, i)


@model('std::vector::push_back', 'std::vector::emplace_back')
def v_push(c, this, *a):
    st = c.st
    m = vget(c, this)
    t = find_construct(c.it, c.f)
    n = m[1]
    if isinstance(n, Lin):
        assume_in(st, n, ((0, BIG - 1),))     # max_size: beyond it push_back throws length_error
    c.ev('vec.push', this, n, a)
    t_ = tok(st, m) if c.it.tokens else ('t', 0)
    if t_[0] == 'push' and c.it.layout is not None and m[3][1] == c.it.layout.size:
        last = sub(64, st.simp(t_[2]) if isinstance(t_[2], Lin) else t_[2], 1)
        if c.it.layout.kindof(c.it, st, elem(m, last)) == 'null':
            settok(c, m, ('fill', t_[1], last, 1, ('null',)))
    forget(c, st, m)
    p = elem(m, n)
    lst = []
    if c.it.alloc_fail:
        s2 = st.fork()
        lst.append((s2, Throw('_ZTISt9bad_alloc')))
    m2 = ('vec', add(64, n, 1)) + m[2:]
    if t is not None and t.nparams == len(a) + 2:
        r = Call(Fn(t.name), [0, p] + list(a), _k_push, (this, m2, p))
    elif t is not None and t.nparams == len(a) + 1:
        r = Call(Fn(t.name), [p] + list(a), _k_push, (this, m2, p))
    else:
        st.note(2, 'element construction not found')
        c.setM(this, m2)
        r = p
    return Forks(lst + [(st, r)]) if lst else r


def _k_push(c, r, this, m2, p):
    c.setM(this, m2)
    settok(c, m2, ('push', tok(c.st, m2), m2[1]))
    c.ev('vec.pushed', this, p)
    return p


@model('std::vector::pop_back')
def v_pop(c, this):
    m = vget(c, this)
    c.require('ne', m[1], 0, 'oob', 'pop_back of an empty vector')
    c.ev('vec.pop', this)
    settok(c, m, ('pop', tok(c.st, m)))
    c.setM(this, ('vec', sub(64, m[1], 1)) + m[2:])
    return None


@model('std::vector::clear')
def v_clear(c, this):
    m = vget(c, this)
    c.ev('vec.clear', this)
    if c.it.tokens:
        absorb(c.it, c.st, m[2].r, True)
    forget(c, c.st, m)
    settok(c, m, ('empty',))
    c.setM(this, ('vec', 0) + m[2:])
    return None


@model('std::vector::reserve', 'std::vector::shrink_to_fit')
def v_reserve(c, this, *a):
    m = vget(c, this)
    c.ev('vec.reserve', this, a)
    if c.it.alloc_fail and a:
        s2 = c.st.fork()
        return Forks([(c.st, None), (s2, Throw('_ZTISt9bad_alloc'))])
    return None


@model('std::vector::resize')
def v_resize(c, this, n, *a):
    m = vget(c, this)
    c.ev('vec.resize', this, n, m[1], a)
    less = more = False
    if c.it.tokens:
        less = c.test('ult', n, m[1])
        more = not less and c.test('ugt', n, m[1])
    s2 = c.st.fork() if c.it.alloc_fail else None
    if a and isinstance(a[0], Ptr) and c.it.tokens:
        c.it.deref(c.st, a[0], 'read')
    forget(c, c.st, m)
    if less:
        settok(c, m, ('trunc', tok(c.st, m), n))
    elif more:
        filled(c, m, m[1], sub(64, n, m[1]), a[0] if a else None, n)
    c.setM(this, ('vec', n) + m[2:])
    if s2 is not None:
        return Forks([(c.st, None), (s2, Throw('_ZTISt9bad_alloc'))])
    return None


def filled(c, m, at, k, x, n):
    """k copies of x (None: value-initialised elements) put in front of element number `at`; n elements afterwards"""
    st, it = c.st, c.it
    d = None
    if it.layout is not None and m[3][1] == it.layout.size:
        kind = 'null' if x is None else it.layout.kindof(it, st, x) if isinstance(x, Ptr) else None
        d = (kind,)
        if kind == 'null':
            it.layout.write(it, st, elem(m, sub(64, add(64, at, k), 1)), 'null')
        else:
            st.note(2, 'vector filled with a value that is not null')
    settok(c, m, ('fill', tok(st, m), at, k, d))


@model('std::vector::erase')
def v_erase(c, this, *a):
    m = vget(c, this)
    st = c.st
    cs = m[3][1]
    idx = []
    for p in a:
        if not isinstance(p, Ptr) or p.r != m[2].r:
            c.ev('vec.erase_foreign', this, p)
            st.note(2, 'iterator of another vector')
            return a[0]
        idx.append(binop(st, 'sdiv', 64, sub(64, p.o, m[2].o), cs))
    if len(idx) == 1:
        c.require('ult', idx[0], m[1], 'oob', 'erase of a position that holds no element')
        c.ev('vec.erase', this, idx[0], 1)
        settok(c, m, ('erase', tok(st, m), idx[0], 1))
        n = sub(64, st.simp(m[1]) if isinstance(m[1], Lin) else m[1], 1)
    else:
        c.require('ule', idx[1], m[1], 'oob', 'erase of a range past the end')
        c.require('ule', idx[0], idx[1], 'oob', 'erase of a reversed range')
        c.ev('vec.erase', this, idx[0], sub(64, idx[1], idx[0]))
        settok(c, m, ('erase', tok(st, m), idx[0], sub(64, idx[1], idx[0])))
        n = sub(64, m[1], sub(64, idx[1], idx[0]))
    forget(c, st, m)
    c.setM(this, ('vec', n) + m[2:])
    return a[0]


@model('std::vector::insert', 'std::vector::emplace')
def v_insert(c, this, pos, *a):
    m = vget(c, this)
    if c.it.tokens and len(a) == 2 and isinstance(a[0], (int, Lin)) and isinstance(a[1], Ptr) and isinstance(pos, Ptr) and pos.r == m[2].r:
        st = c.st
        at = binop(st, 'sdiv', 64, sub(64, pos.o, m[2].o), m[3][1])
        c.require('ule', at, m[1], 'oob', 'insertion at a position outside the vector')
        c.ev('vec.insert', this, pos, a)
        n = add(64, st.simp(m[1]) if isinstance(m[1], Lin) else m[1], a[0])
        s2 = st.fork() if c.it.alloc_fail else None
        forget(c, st, m)
        filled(c, m, at, a[0], a[1], n)
        c.setM(this, ('vec', n) + m[2:])
        return Forks([(st, pos), (s2, Throw('_ZTISt9bad_alloc'))]) if s2 is not None else pos
    c.ev('vec.insert', this, pos, a)
    c.st.note(2, 'vector::insert')
    forget(c, c.st, m)
    c.setM(this, ('vec', c.st.fresh(64, ((0, 1 << 40),))) + m[2:])
    return pos


@model('std::vector::swap')
def v_swap(c, x, y):
    a, b = vget(c, x), vget(c, y)
    c.it.mon.vecset = None
    c.setM(x, b)
    c.setM(y, a)
    del c.it.mon.vecset
    c.ev('vec.swap', x, y)
    return None


@model('std::vector::operator=')
def v_assign(c, this, o, *a):
    st = c.st
    m = vget(c, this)
    P = c.f.prm
    if 'initializer_list' in P:
        st.note(2, 'vector = initializer_list')
        return this
    if o == this:
        return this
    src = vget(c, o)
    ty = elemtype(c.f.ctxfull)
    if c.it.tokens:
        absorb(c.it, st, m[2].r, True)
    if '&&' in P:
        c.setM(this, src)
        c.ev('vec.move', this, o)
        c.setM(o, ('vec', 0, newelems(c, ty), src[3]))
        return this
    s2 = st.fork() if c.it.alloc_fail else None
    d = newelems(c, ty)
    settok(c, (0, 0, d), tok(st, src))
    c.setM(this, ('vec', src[1], d, src[3]))
    c.ev('vec.copy', this, o)
    if s2 is not None:
        return Forks([(st, this), (s2, Throw('_ZTISt9bad_alloc'))])
    return this


@model('std::vector::assign')
def v_assign2(c, this, *a):
    m = vget(c, this)
    c.ev('vec.assign_n', this, a)
    c.st.note(2, 'vector::assign')
    forget(c, c.st, m)
    c.setM(this, ('vec', c.st.fresh(64, ((0, 1 << 40),))) + m[2:])
    return None


# ---- node containers -----------------------------------------------------------------
KINDS = {'std::map': 32, 'std::multimap': 32, 'std::set': 32, 'std::multiset': 32, 'std::unordered_map': 8,
         'std::unordered_multimap': 8, 'std::unordered_set': 8, 'std::unordered_multiset': 8, 'std::list': 16, 'std::forward_list': 8,
         'std::deque': 0}


def nget(c, this, st=None):
    m = c.getM(this, 'map', st)
    if m is None:
        g = c.it.deref(c.st, this, 'use')
        if any(isinstance(k, tuple) and k[1] == this.o for k in g.cells) or g.lazy[0] == 'undef':
            c.it.violation(st or c.st, 'not-constructed', 'use of a container that was not constructed')
        (st or c.st).note(2, 'unknown container')
        m = ('map', (st or c.st).fresh(64, ((0, 1 << 40),)), newelems(c, nodetype(c), 'nodes'), ('n', NODE), ())
        c.setM(this, m, st)
    if len(m) < 5:
        g = (st or c.st).mem.get(m[2].r)
        if g is not None and c.f is not None:
            (st or c.st).wreg(m[2].r).lazy = nodelazy(c)
        m = m[:3] + (('n', NODE), ())
        c.setM(this, m, st)
    return m


def nodetype(c):
    return c.f.ctxfull if c.f is not None else '?'


def nodelazy(c):
    return c.it.nodelazy(c.f.ctx, targs(c.f.ctxfull))


Interp.nodelazy = lambda it, ctx, ta: ('any',)


def newnodes(c):
    return Ptr(c.st.new_region('nodes', None, nodelazy(c)), 0)


def nodept(m, i):
    return Ptr(m[2].r, addoff(m[2].o, scale(64, i, NODE)))


def hdr(c):
    return KINDS.get(c.f.ctx, 32)


def nforget(c, st, this, m, n, t=None):
    """structure changed: the numbering of the nodes starts anew"""
    if c.it.tokens:
        absorb(c.it, st, m[2].r, False)
        for _, res in m[4] if len(m) > 4 else ():
            if isinstance(res, Ptr) and res.r != m[2].r:
                absorb(c.it, st, res.r, False)
    r = Ptr(st.new_region('nodes', None, nodelazy(c)), 0)
    if c.it.tokens:
        st.mem[r.r].info = t if t is not None else ('?', r.r)
    c.setM(this, ('map', n, r, ('n', NODE), ()), st)


def n_ctor(c, this, *a):
    st = c.st
    P = c.f.prm.replace('const', '').replace(' ', '')
    if a and isinstance(a[0], Ptr) and P.startswith('(' + c.f.ctx.replace(' ', '') + '<') or (a and P.startswith('(' + c.f.ctx)):
        src = nget(c, a[0])
        if '&&' in P:
            c.setM(this, src)
            c.setM(a[0], ('map', 0, newnodes(c), ('n', NODE), ()))
            c.ev('map.move', this, a[0])
            return None
        c.ev('map.copy', this, a[0])
        m = ('map', src[1], newnodes(c), ('n', NODE), ())
        settok(c, m, tok(st, src))
        if c.it.alloc_fail:
            s2 = st.fork()
            c.setM(this, m)
            return Forks([(st, None), (s2, Throw('_ZTISt9bad_alloc'))])
        c.setM(this, m)
        return None
    simple = not a or all(isinstance(x, Ptr) or isinstance(x, int) for x in a) and ('()' in P or 'allocator' in P or 'less' in P) and 'initializer_list' not in P
    if simple and (len(a) <= 2):
        c.setM(this, ('map', 0, newnodes(c), ('n', NODE), ()))
        c.ev('map.ctor', this)
        return None
    n = st.fresh(64, ((0, 1 << 40),))
    if 'initializer_list' in P:
        c.ev('map.ilist', this, a)
    else:
        c.ev('map.ctor_other', this, a)
    m = ('map', n, newnodes(c), ('n', NODE), ())
    if c.it.alloc_fail:
        s2 = st.fork()
        c.setM(this, m)
        return Forks([(st, None), (s2, Throw('_ZTISt9bad_alloc'))])
    c.setM(this, m)
    return None


def n_dtor(c, this):
    c.it.deref(c.st, this, 'destruction')
    c.ev('map.dtor', this)
    if c.it.tokens:
        m = c.getM(this, 'map')
        if m is not None:
            nabsorb(c, m)
            for r in {m[2].r} | {x.r for _, x in (m[4] if len(m) > 4 else ()) if isinstance(x, Ptr)}:
                c.st.wreg(r).alive = False
    c.setM(this, None)
    return None


def nabsorb(c, m):
    absorb(c.it, c.st, m[2].r, True)
    for _, res in m[4] if len(m) > 4 else ():
        if isinstance(res, Ptr) and res.r != m[2].r:
            absorb(c.it, c.st, res.r, True)


def n_size(c, this):
    return nget(c, this)[1]


def n_empty(c, this):
    return int(c.test('eq', nget(c, this)[1], 0))


def n_begin(c, this):
    m = nget(c, this)
    return m[2]


def n_end(c, this):
    m = nget(c, this)
    return nodept(m, m[1])


def n_clear(c, this):
    m = nget(c, this)
    c.ev('map.clear', this)
    if c.it.tokens:
        nabsorb(c, m)
    c.setM(this, ('map', 0, newnodes(c), ('n', NODE), ()))
    return None


def keyof(c, k):
    m = c.getM(k) if isinstance(k, Ptr) else None
    if m is not None and m[0] == 'str':
        return ('s', m[1])
    return ('k', k)


def n_find(c, this, k, *a):
    """find: an existing element or end()"""
    st = c.st
    m = nget(c, this)
    key = keyof(c, k)
    for mk_, res in m[4]:
        if mk_ == key:
            return nodept(m, m[1]) if res == 'absent' else res
    out = []
    r = c.ev('map.find', this, k)
    s2 = st.fork()
    if r != 'found':
        c.setM(this, m[:4] + (m[4] + ((key, 'absent'),),), s2)
        out.append((s2, nodept(m, m[1])))
    if r != 'absent':
        j = st.fresh(64, ((0, 1 << 40),))
        if refine(st, 'ult', 64, j, m[1]):
            p = nodept(m, j)
            c.setM(this, m[:4] + (m[4] + ((key, p),),), st)
            out.append((st, p))
    return Forks(out)


def n_count(c, this, k):
    m = nget(c, this)
    st = c.st
    key = keyof(c, k)
    for mk_, res in m[4]:
        if mk_ == key:
            return 0 if res == 'absent' else 1
    s2 = st.fork()
    c.setM(this, m[:4] + (m[4] + ((key, 'absent'),),), s2)
    out = [(s2, 0)]
    j = st.fresh(64, ((0, 1 << 40),))
    if refine(st, 'ult', 64, j, m[1]):
        c.setM(this, m[:4] + (m[4] + ((key, nodept(m, j)),),), st)
        out.append((st, 1))
    return Forks(out)


def n_at(c, this, k):
    m = nget(c, this)
    st = c.st
    key = keyof(c, k)
    for mk_, res in m[4]:
        if mk_ == key:
            if res == 'absent':
                return Throw('_ZTISt12out_of_range')
            return mapped(c, res)
    s2 = st.fork()
    c.setM(this, m[:4] + (m[4] + ((key, 'absent'),),), s2)
    j = st.fresh(64, ((0, 1 << 40),))
    out = [(s2, Throw('_ZTISt12out_of_range'))]
    if refine(st, 'ult', 64, j, m[1]):
        p = nodept(m, j)
        c.setM(this, m[:4] + (m[4] + ((key, p),),), st)
        out.append((st, mapped(c, p)))
    return Forks(out)


def mapped(c, node):
    """address of the mapped value: after the key in the pair"""
    return Ptr(node.r, addoff(node.o, hdr(c) + c.it.keysize(targs(c.f.ctxfull))))


def keysize(it, ta):
    k = ta[0] if ta else ''
    if 'basic_string' in k or 'std::string' in k:
        return 32
    return {'int': 8, 'char': 8, 'bool': 8, 'long': 8, 'unsigned long': 8}.get(k, 8)


Interp.keysize = keysize


def newnode(it, c, st, node, kptr, key):
    """contents of a node made by operator[]: the key and a value-initialised mapped object"""
    ta = targs(c.f.ctxfull)
    h = hdr(c)
    if key[0] == 's':
        m = c.getM(kptr, 'str', st)
        if m is not None:
            c.setM(Ptr(node.r, h), m[:3] + (0,), st)
    elif isinstance(kptr, Ptr):
        st.wreg(node.r).cells[h] = (it.load(st, kptr, 4 if ta[0] in ('int', 'unsigned int') else 1 if ta[0] == 'char' else 8, 'i32' if ta[0] in ('int', 'unsigned int') else 'i8' if ta[0] == 'char' else 'i64'), 4 if ta[0] in ('int', 'unsigned int') else 1 if ta[0] == 'char' else 8)
    v = Ptr(node.r, h + it.keysize(ta))
    t = ta[1] if len(ta) > 1 else ''
    if t.startswith('configor::basic_value<') and it.layout is not None:
        it.layout.write(it, st, v, 'null')
    elif 'basic_string' in t or t.startswith('std::string'):
        c.setM(v, ('str', ('lit', ()), 0, 0), st)
    elif t in ('double', 'float'):
        st.wreg(node.r).cells[v.o] = (Op('fc', 0.0), 8 if t == 'double' else 4)
    elif t in ('int', 'unsigned int', 'long', 'unsigned long', 'bool', 'char'):
        st.wreg(node.r).cells[v.o] = (0, {'int': 4, 'unsigned int': 4, 'bool': 1, 'char': 1}.get(t, 8))
    else:
        st.wreg(node.r).lazy = ('any',)


Interp.newnode = newnode


def n_index(c, this, k):
    """operator[]: existing element, or a new default constructed one"""
    m = nget(c, this)
    st = c.st
    if isinstance(m[1], Lin):
        assume_in(st, m[1], ((0, BIG - 1),))
    key = keyof(c, k)
    for mk_, res in m[4]:
        if mk_ == key and res != 'absent':
            c.ev('map.index', this, k, 'old')
            c.ev('map.indexed', this, res, 'old')
            return mapped(c, res)
    known = any(mk_ == key for mk_, res in m[4])
    s2 = st.fork()
    out = []
    if not known:
        j = st.fresh(64, ((0, 1 << 40),))
        if refine(st, 'ult', 64, j, m[1]):
            c.ev('map.index', this, k, 'old')
            p = nodept(m, j)
            c.setM(this, m[:4] + (m[4] + ((key, p),),), st)
            c.ev('map.indexed', this, p, 'old')
            out.append((st, mapped(c, p)))
    c2 = Ctx(c.it, s2, c.I, c.f, c.args)
    c2.ev('map.index', this, k, 'new')
    nforget(c2, s2, this, m, add(64, m[1], 1), ('put', tok(s2, m), key))
    m2 = nget(c2, this)
    nr = Ptr(s2.new_region('node', None, ('undef',)), 0)
    c.it.newnode(c2, s2, nr, k, key)
    c2.setM(this, ('map', add(64, s2.simp(m[1]) if isinstance(m[1], Lin) else m[1], 1)) + m2[2:4] + (((key, nr),),), s2)
    if c.it.alloc_fail:
        s3 = s2.fork()
        out.append((s3, Throw('_ZTISt9bad_alloc')))
    c2.ev('map.indexed', this, nr, 'new')
    out.append((s2, mapped(c2, nr)))
    return Forks(out)


def n_emplace(c, this, *a):
    """emplace/insert(key, value): inserted, or an equal key exists"""
    st = c.st
    m = nget(c, this)
    if isinstance(m[1], Lin):
        assume_in(st, m[1], ((0, BIG - 1),))
    t = find_construct(c.it, c.f)
    node = Ptr(st.new_region('node', None, ('undef',)), 0)
    p = Ptr(node.r, hdr(c))
    c.ev('map.emplace', this, a)
    lst = []
    if c.it.alloc_fail:
        s2 = st.fork()
        lst.append((s2, Throw('_ZTISt9bad_alloc')))
    if t is not None and t.nparams == len(a) + 2:
        r = Call(Fn(t.name), [0, p] + list(a), _k_emplace, (this, m, node, c.f.name, a))
    elif t is not None and t.nparams == len(a) + 1:
        r = Call(Fn(t.name), [p] + list(a), _k_emplace, (this, m, node, c.f.name, a))
    else:
        st.note(2, 'node construction not found for ' + c.f.qual)
        r = _k_emplace(c, None, this, m, node, c.f.name, a)
    if lst:
        return Forks(lst + [(st, r)])
    return r


def _k_emplace(c, r, this, m, node, fname, a):
    st = c.st
    f = c.it.mod.funcs[fname]
    c = Ctx(c.it, st, c.I, f, None)
    key = keyof(c, Ptr(node.r, hdr(c)))
    multi = 'multi' in f.ctx or f.ctx in ('std::list', 'std::deque', 'std::forward_list')
    out = []
    dup = None
    for mk_, res in m[4]:
        if mk_ == key:
            dup = res != 'absent'
            old = res
    isset = f.ret != 'ptr' if not multi else False
    def res(p, b):
        if multi or f.ret == 'ptr':
            return p
        return ('agg', (p, b))
    if not multi and dup is not False:
        s2 = st.fork()
        j = s2.fresh(64, ((0, 1 << 40),))
        if refine(s2, 'ult', 64, j, m[1]):
            c2 = Ctx(c.it, s2, c.I, f, None)
            if c2.ev('map.dup', this, node, a) != 'impossible':
                p = nodept(m, j) if not dup else old
                if not dup:
                    c.setM(this, m[:4] + (m[4] + ((key, p),),), s2)
                if c.it.tokens:
                    absorb(c.it, s2, node.r, True)
                s2.wreg(node.r).alive = False
                out.append((s2, res(p, 0)))
    if dup is not True:
        if c.ev('map.inserted', this, node, a) != 'impossible':
            nforget(c, st, this, m, 0, ('put', tok(st, m), key))
            m2 = nget(c, this)
            c.setM(this, ('map', add(64, st.simp(m[1]) if isinstance(m[1], Lin) else m[1], 1)) + m2[2:4] + (((key, node),),), st)
            out.append((st, res(node, 1)))
    return Forks(out)


def n_pushback(c, this, *a):
    st = c.st
    m = nget(c, this)
    t = find_construct(c.it, c.f)
    node = Ptr(st.new_region('node', None, ('undef',)), 0)
    p = Ptr(node.r, hdr(c))
    c.ev('seq.push', this, m[1], a, c.f.base)
    if t is not None and t.nparams == len(a) + 2:
        return Call(Fn(t.name), [0, p] + list(a), _k_seqpush, (this, m, p, c.f.name))
    st.note(2, 'node construction not found for ' + c.f.qual)
    return _k_seqpush(c, None, this, m, p, c.f.name)


def _k_seqpush(c, r, this, m, p, fname):
    f = c.it.mod.funcs[fname]
    c = Ctx(c.it, c.st, c.I, f, None)
    nforget(c, c.st, this, m, add(64, m[1], 1))
    c.ev('seq.pushed', this, p, f.base)
    return p


def n_erase(c, this, *a):
    st = c.st
    m = nget(c, this)
    if a and isinstance(a[0], Ptr) and (a[0].r == m[2].r or 'iterator' in c.f.prm.split(',')[0]):
        if a[0].r == m[2].r:
            d = binop(st, 'sdiv', 64, sub(64, a[0].o, m[2].o), NODE)
            c.require('ult' if len(a) == 1 else 'ule', d, m[1], 'oob', 'erase of a position that holds no element')
        c.ev('map.erase', this, a)
        n, t = st.fresh(64, ((0, 1 << 40),)), None
        if len(a) == 1:
            n = sub(64, st.simp(m[1]) if isinstance(m[1], Lin) else m[1], 1)
            if a[0].r == m[2].r:
                t = ('erase', tok(st, m), d, 1)
            for key, res in m[4]:
                if isinstance(res, Ptr) and res == a[0]:
                    t = ('del', tok(st, m), key)
        elif len(a) == 2 and a[0].r == m[2].r == a[1].r:
            e = binop(st, 'sdiv', 64, sub(64, a[1].o, m[2].o), NODE)
            c.require('ule', e, m[1], 'oob', 'erase of a range past the end')
            c.require('ule', d, e, 'oob', 'erase of a reversed range')
            k = sub(64, e, d)
            n, t = sub(64, m[1], k), ('erase', tok(st, m), d, k)
        nforget(c, st, this, m, n, t)
        return nget(c, this)[2]
    # by key
    c.ev('map.erase_key', this, a)
    key = keyof(c, a[0])
    have = None
    for mk_, res in m[4]:
        if mk_ == key:
            have = res != 'absent'
    out = []
    if have is not True:
        s2 = st.fork()
        if have is None:
            c.setM(this, m[:4] + (m[4] + ((key, 'absent'),),), s2)
        out.append((s2, 0))
    if have is not False and refine(st, 'ugt', 64, m[1], 0):
        nforget(c, st, this, m, sub(64, st.simp(m[1]) if isinstance(m[1], Lin) else m[1], 1), ('del', tok(st, m), key))
        m2 = nget(c, this)
        c.setM(this, m2[:4] + (((key, 'absent'),),), st)
        out.append((st, 1))
    return Forks(out)


def n_assign(c, this, o, *a):
    st = c.st
    nget(c, this)
    if o == this:
        return this
    if 'initializer_list' in c.f.prm:
        st.note(2, 'container = initializer_list')
        return this
    src = nget(c, o)
    c.ev('map.assign', this, o)
    if c.it.tokens:
        nabsorb(c, nget(c, this))
    if '&&' in c.f.prm:
        c.setM(this, src)
        c.setM(o, ('map', 0, newnodes(c), ('n', NODE), ()))
        return this
    m = ('map', src[1], newnodes(c), ('n', NODE), ())
    settok(c, m, tok(st, src))
    if c.it.alloc_fail:
        s2 = st.fork()
        c.setM(this, m)
        return Forks([(st, this), (s2, Throw('_ZTISt9bad_alloc'))])
    c.setM(this, m)
    return this


def n_swap(c, x, y):
    a, b = nget(c, x), nget(c, y)
    c.setM(x, b)
    c.setM(y, a)
    c.ev('map.swap', x, y)
    return None


for k in KINDS:
    b = k.split('::')[1]
    REG[k + '::' + b] = n_ctor
    REG[k + '::~' + b] = n_dtor
    REG[k + '::size'] = n_size
    REG[k + '::empty'] = n_empty
    REG[k + '::begin'] = REG[k + '::cbegin'] = n_begin
    REG[k + '::end'] = REG[k + '::cend'] = n_end
    REG[k + '::clear'] = n_clear
    REG[k + '::find'] = n_find
    REG[k + '::count'] = n_count
    REG[k + '::at'] = n_at
    REG[k + '::operator[]'] = n_index
    REG[k + '::emplace'] = REG[k + '::insert'] = n_emplace
    REG[k + '::erase'] = n_erase
    REG[k + '::operator='] = n_assign
    REG[k + '::swap'] = n_swap
    for p in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
        REG[k + '::' + p] = n_pushback
    REG[k + '::before_begin'] = lambda c, this: (lambda m: Ptr(m[2].r, addoff(m[2].o, -NODE)))(nget(c, this))


def step(c, it, d):
    """++ / -- of a node iterator object {node*}"""
    p = c.it.load(c.st, it, 8, 'ptr')
    if not isinstance(p, Ptr):
        c.it.violation(c.st, 'null-deref', 'iterator moved that refers to nothing')
    g = c.st.mem.get(p.r)
    if g is not None and g.kind == 'node':
        c.st.note(2, 'stepping from an inserted node')
    q = Ptr(p.r, addoff(p.o, NODE * d))
    c.ev('iter.step', p, d)
    c.it.store(c.st, it, q, 8)
    return p, q


ITS = ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::_List_iterator', 'std::_List_const_iterator',
       'std::_Fwd_list_iterator', 'std::_Fwd_list_const_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator')


def _inc(d):
    def f(c, this, *a):
        p, q = step(c, this, d)
        if a and isinstance(a[0], int) or len(a) == 1:
            return p
        return this
    return f


def _incsret(d):
    def f(c, this, *a):
        p, q = step(c, this, d)
        return p if 'int' in c.f.prm else this
    return f


for i in ITS:
    REG[i + '::operator++'] = _incsret(1)
    REG[i + '::operator--'] = _incsret(-1)
REG['std::__detail::_Node_iterator_base::_M_incr'] = lambda c, this: (step(c, this, 1), None)[1]


@model('std::_Rb_tree_increment', 'std::_Rb_tree_decrement')
def rb_inc(c, p):
    return Ptr(p.r, addoff(p.o, NODE if c.f.base.endswith('increment') else -NODE))


@model('std::__detail::_Hash_node_base')
def hn(c, *a):
    return None
