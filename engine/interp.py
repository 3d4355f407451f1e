"""Abstract interpreter over the exported IR (fixpoint exploration is in explore.py)."""
from math import gcd
from .values import *
from .state import *
from . import state as S
from .ir import tsize, width, strip_tpl
import re


class Violation(Exception):
    pass


class Dead(Exception):
    """the current path ends (infeasible, pruned, or finished)"""


class ForkTo(Exception):
    """re-execute the current instruction in each of these states"""

    def __init__(self, states):
        self.states = states


class AnalysisError(Exception):
    pass


class Ctx:
    """what a model sees of a call"""
    __slots__ = ('it', 'st', 'I', 'f', 'args', 'k')

    def __init__(self, it, st, I, f, args):
        self.it = it
        self.st = st
        self.I = I
        self.f = f
        self.args = args


class Throw:
    def __init__(self, ti, obj=None):
        self.ti = ti
        self.obj = obj


class Call:
    """continue by calling fn(args); then k(ctx, ret, *data) gives the model's result.
    onexc(ctx, *data) -> result when the callee throws (None: propagate)"""

    def __init__(self, fn, args, k=None, data=(), onexc=None):
        self.fn = fn
        self.args = args
        self.k = k
        self.data = data
        self.onexc = onexc


class Forks:
    def __init__(self, lst):
        self.lst = lst


STDBASE = {'_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc',
           '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception',
           '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error',
           '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
           '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
           '_ZTISt15underflow_error': '_ZTISt13runtime_error', '_ZTISt8bad_cast': '_ZTISt9exception',
           '_ZTISt17bad_function_call': '_ZTISt9exception', '_ZTISt12system_error': '_ZTISt13runtime_error',
           '_ZTINSt8ios_base7failureB5cxx11E': '_ZTISt12system_error', '_ZTISt13bad_exception': '_ZTISt9exception'}

FCNEG = {'une': 'oeq', 'ule': 'ogt', 'ult': 'oge', 'uge': 'olt', 'ugt': 'ole', 'ueq': 'one', 'uno': 'ord'}


class Interp:
    tokens = False
    def __init__(self, mod, models, mon=None):
        self.mod = mod
        self.models = models
        self.mon = mon
        self.violations = {}
        self.notes = {}
        self.stats = dict(insts=0, forks=0, calls=0, states=0, heads=0, merged=0, widened=0, finished=0)
        self.funcs_seen = {}
        self.unmodelled = {}
        self.models_used = {}
        self.max_depth = 160
        self.alloc_fail = False
        self.headhook = None
        self.progress = None
        self.finished = []
        self.tids = {}
        self.finish = None
        self.overflow_hook = None
        self.float_opaque = False
        self.widen_ok = False
        self.tmax = 1 << 62
        self.zones = None
        self.slot32_after = None
        self.gc = None
        self.inst_budget = 60_000_000
        self.dispatch = {n[3:]: getattr(self, n) for n in dir(self) if n.startswith('op_')}
        self.bases = {}
        for g, j in mod.globals.items():
            if g.startswith('_ZTI') and 'init' in j:
                bs = []
                self._tirefs(j['init'], bs)
                self.bases[g] = [b for b in bs if b != g]

    def _tirefs(self, v, out):
        if v[0] == 'g' and v[1].startswith('_ZTI'):
            out.append(v[1])
        elif v[0] == 'S':
            for _, e in v[1]:
                self._tirefs(e, out)
        elif v[0] == 'A':
            for e in v[2]:
                self._tirefs(e, out)

    def isbase(self, ti, base):
        seen = set()
        work = [ti]
        while work:
            t = work.pop()
            if t == base:
                return True
            if t in seen:
                continue
            seen.add(t)
            work += self.bases.get(t, [])
            if t in STDBASE:
                work.append(STDBASE[t])
        return False

    # ---- reporting
    def where(self, st, skip=0):
        out = []
        for i in range(len(st.frames) - 1, -1, -1):
            f = st.frames[i]
            b = f.fn.blocks[f.b]
            I = b[min(f.ip, len(b) - 1)]
            out.append('%s:%s (%s)' % (I.fl, I.l, f.fn.qual))
        return out

    def site(self, st):
        """innermost frame in code under analysis"""
        for f in reversed(st.frames):
            b = f.fn.blocks[f.b]
            I = b[min(f.ip, len(b) - 1)]
            if 'configor/' in (I.fl or ''):
                return '%s:%s' % (I.fl, I.l), f.fn.qual
        f = st.frames[-1] if st.frames else None
        return ('?', f.fn.qual if f else '?')

    def violation(self, st, rule, msg):
        """record a violation (unless the path went through something unmodelled) and end the path"""
        if st.imp:
            self.notes['suppressed: %s (%s)' % (rule, st.why)] = self.notes.get('suppressed: %s (%s)' % (rule, st.why), 0) + 1
            raise Dead()
        loc, fn = self.site(st)
        key = (rule, fn, loc)
        if key not in self.violations:
            tr = []
            t = st.trace
            while t:
                tr.append(t[1])
                t = t[0]
            self.violations[key] = dict(rule=rule, message=msg, location=loc, function=fn, stack=self.where(st),
                                        path=[str(x) for x in reversed(tr)][-60:])
        raise Dead()

    def mark(self, st, ev):
        st.trace = (st.trace, ev)

    # ---- memory
    def region(self, st, r):
        g = st.mem.get(r)
        if g is None and isinstance(r, str) and r[0] == '@':
            j = self.mod.globals.get(r[1:])
            g = Region('global', j['size'] if j else None, ('ext',), st.ep, r)
            if j and 'init' in j:
                self.mod.init_cells(j['init'], 0, None, g.cells)
                g.lazy = ('undef',)
            st.mem[r] = g
        return g

    def deref(self, st, p, what, size=1):
        if isinstance(p, Ptr):
            g = self.region(st, p.r)
            if g is None:
                raise AnalysisError('no region %r' % (p,))
            if not g.alive:
                self.violation(st, 'dead-access', '%s of memory that was released or whose lifetime ended (%s)' % (what, g.kind))
            return g
        if isinstance(p, int):
            self.violation(st, 'null-deref', '%s through a null pointer' % what)
        if p is UNDEF:
            self.violation(st, 'undef-pointer', '%s through an uninitialised pointer' % what)
        st.note(2, 'access through an unknown pointer')
        raise Dead()

    def newptr(self, st, why):
        st.note(2, why)
        return Ptr(st.new_region('opaque', None, ('any',)), 0)

    def anyval(self, st, ty, why=None):
        if why:
            st.note(2, why)
        w = width(ty)
        if w:
            return st.fresh(w, tag='unk')
        if ty == 'ptr':
            return Ptr(st.new_region('opaque', None, ('any',)), 0)
        if isinstance(ty, list) and ty[0] == 's':
            return ('agg', tuple(self.anyval(st, e, why) for _, e in ty[2]))
        if ty == 'void':
            return None
        return Op('unkf', fresh_id())

    def load(self, st, p, size, ty):
        g = self.deref(st, p, 'read', size)
        off = p.o
        if not isinstance(off, int):
            off = st.simp(off)
        c = g.cells.get(off)
        if c is not None and c[1] == size:
            v = c[0]
            if isinstance(v, Lin):
                if st.sub:
                    v = st.simp(v)
                if ty == 'ptr':
                    return v
            return v
        if isinstance(ty, list):
            if ty[0] == 's':
                return ('agg', tuple(self.load(st, Ptr(p.r, addoff(off, o)), tsize(e), e) for o, e in ty[2]))
            return ('agg', tuple(self.load(st, Ptr(p.r, addoff(off, i * ty[2])), tsize(ty[3]), ty[3]) for i in range(ty[1])))
        return self.load_slow(st, g, p, off, size, ty)

    def load_slow(self, st, g, p, off, size, ty):
        # exact match through simplification, or a part of a wider cell, or several smaller cells
        if isinstance(off, Lin) and len(off.t) == 1:
            v = self.table(st, g, off, size)
            if v is not None:
                return v
        parts = []
        for o, c in g.cells.items():
            if isinstance(o, tuple):
                continue
            d = offdiff(st, off, o)
            if d is None:
                if isinstance(off, int) and isinstance(o, int):
                    continue
                continue
            if d == 0 and c[1] == size:
                return st.simp(c[0]) if isinstance(c[0], Lin) else c[0]
            if 0 <= d and d + size <= c[1]:
                v = c[0]
                if isinstance(v, (int, Lin)) and width(ty):
                    v = st.simp(v)
                    return rew(slice_(st, v, d * 8, size * 8), size * 8)
                if v is UNDEF:
                    return UNDEF
                st.note(2, 'partial read')
                return self.anyval(st, ty)
            if -size < d <= 0 and width(ty):
                parts.append((-d, c))
        if parts:
            parts.sort(key=lambda x: x[0])
            pos = 0
            acc = 0
            w = size * 8
            for o, c in parts:
                if o != pos or not isinstance(c[0], (int, Lin)):
                    break
                acc = add(w, acc, scale(w, zext(st, st.simp(c[0]), c[1] * 8, w), 1 << (8 * o)))
                pos += c[1]
            if pos == size:
                return acc
            if any(c[0] is UNDEF for _, c in parts):
                return UNDEF
            if g.lazy[0] != 'undef':
                st.note(2, 'mixed-size read')
                return self.anyval(st, ty)
        return self.lazyval(st, g, p, off, size, ty)

    def table(self, st, g, off, size):
        """read of a table at a symbolic index: split by the value found"""
        (key, co), = off.t
        rs = st.keyrng(key)
        if sum(b - a + 1 for a, b in rs) > 4096:
            return None
        by = {}
        for a, b in rs:
            for x in range(a, b + 1):
                c = g.cells.get(co * x + off.c)
                if c is None or c[1] != size:
                    if g.size is not None and isinstance(g.size, int) and not 0 <= co * x + off.c <= g.size - size:
                        by.setdefault(None, []).append((x, x))
                        continue
                    return None
                by.setdefault(c[0], []).append((x, x))
        if len(by) == 1:
            v = next(iter(by))
            if v is None:
                self.violation(st, 'out-of-bounds', 'a table is indexed outside its bounds')
            return v
        if len(by) > 64:
            return None
        out = []
        for v, ivs in by.items():
            s = st.fork()
            if s.setrng(key, iv_norm(ivs)):
                out.append(s)
        raise ForkTo(out)

    def lazyval(self, st, g, p, off, size, ty):
        k = g.lazy[0]
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return 0 if ty == 'ptr' or width(ty) else Op('fc', 0.0)
        if k == 'sym':
            # named external contents: the value read is a function of its position
            if ty == 'ptr':
                v = Ptr(st.new_region('opaque', None, ('any',)), 0)
            elif width(ty):
                v = st.fresh(width(ty), name='%s[%r]' % (g.lazy[1], off), tag=g.lazy[2] if len(g.lazy) > 2 else '')
            else:
                v = Op('symf', g.lazy[1], off)
            g = st.wreg(p.r)
            g.cells[off] = (v, size)
            return v
        if k == 'any' or k == 'ext':
            st.note(2, 'read of unmodelled memory')
            v = self.anyval(st, ty)
            g = st.wreg(p.r)
            g.cells[off] = (v, size)
            return v
        if k == 'py':
            return g.lazy[1](self, st, p, off, size, ty, *g.lazy[2:])
        raise AnalysisError('lazy policy %r' % (g.lazy,))

    def store(self, st, p, v, size):
        g = self.deref(st, p, 'write', size)
        if g.lazy and g.lazy[0] == 'py' and len(g.lazy) > 1 and hasattr(g.lazy[1], 'on_store'):
            g.lazy[1].on_store(self, st, p, v, size)
        g = st.wreg(p.r)
        off = p.o
        if not isinstance(off, int):
            off = st.simp(off)
        if isinstance(v, tuple) and v and v[0] == 'agg':
            raise AnalysisError('aggregate store needs a type')
        c = g.cells.get(off)
        if (c is None or c[1] != size) and not (isinstance(v, Ptr) and isinstance(v.r, str) and v.r.startswith(('@_ZTV', '$vt'))):
            self.clobber(st, g, off, size)
        g.cells[off] = (v, size)
        if self.mon is not None and self.mon.watch_store:
            self.mon.on_store(self, st, p, v, size)

    def clobber(self, st, g, off, size):
        rm = []
        for o, c in g.cells.items():
            if isinstance(o, tuple):
                if o[0] == 'M' and isinstance(off, int) and isinstance(o[1], int) and off <= o[1] < off + size:
                    rm.append(o)
                continue
            if isinstance(o, int) and isinstance(off, int):
                d = o - off
            else:
                d = offdiff(st, o, off)
                if d is None:
                    continue
            if -c[1] < d < size:
                rm.append(o)
        for o in rm:
            del g.cells[o]

    def store_ty(self, st, p, v, ty):
        if isinstance(v, tuple) and v and v[0] == 'agg':
            if isinstance(ty, list) and ty[0] == 's':
                for (o, e), x in zip(ty[2], v[1]):
                    self.store_ty(st, Ptr(p.r, addoff(p.o, o)), x, e)
                return
            if isinstance(ty, list):
                for i, x in enumerate(v[1]):
                    self.store_ty(st, Ptr(p.r, addoff(p.o, i * ty[2])), x, ty[3])
                return
        if isinstance(v, tuple) and v and v[0] == 'zero':
            cells = {}
            self.mod.zero_cells(v[1], 0, cells)
            for o, (x, s) in cells.items():
                self.store(st, Ptr(p.r, addoff(p.o, o)), x, s)
            return
        self.store(st, p, v, tsize(ty))

    def memcpy(self, st, d, s, n):
        n = st.simp(n) if isinstance(n, Lin) else n
        if n == 0:
            return
        if not isinstance(n, int):
            return self.memcpy_sym(st, d, s, n)
        sg = self.deref(st, s, 'read', n)
        self.deref(st, d, 'write', n)
        if sg.lazy[0] == 'py' and hasattr(sg.lazy[1], 'ensure'):
            sg.lazy[1].ensure(self, st, s, s.o if isinstance(s.o, int) else st.simp(s.o), n, *sg.lazy[2:])
            sg = self.region(st, s.r)
        so = s.o if isinstance(s.o, int) else st.simp(s.o)
        do = d.o if isinstance(d.o, int) else st.simp(d.o)
        items = []
        for o, c in sg.cells.items():
            if isinstance(o, tuple):
                if o[0] == 'M' and isinstance(so, int) and so <= o[1] < so + n:
                    items.append((o[1] - so, c, True))
                continue
            df = offdiff(st, o, so)
            if df is not None and 0 <= df and df + c[1] <= n:
                items.append((df, c, False))
        covered = sum(c[1] for _, c, m in items if not m)
        dg = st.wreg(d.r)
        self.clobber(st, dg, do, n)
        if covered < n and sg.lazy[0] not in ('undef',) and not any(m for _, _, m in items):
            # materialise lazily: copy word by word
            if sg.lazy[0] == 'py' and hasattr(sg.lazy[1], 'ensure'):
                sg = None
            elif sg.lazy[0] in ('sym', 'py') and n <= 64:
                step = 8 if n % 8 == 0 else 4 if n % 4 == 0 else 1
                for i in range(0, n, step):
                    v = self.load(st, Ptr(s.r, addoff(so, i)), step, 'i%d' % (8 * step))
                    dg = st.wreg(d.r)
                    dg.cells[addoff(do, i)] = (v, step)
                return
            if sg is not None:
                st.note(2, 'copy of unmodelled memory')
                if dg.lazy[0] == 'undef':
                    dg.lazy = ('any',)
        for o, c, m in items:
            if m:
                dg.cells[('M', addoff(do, o))] = c
            else:
                dg.cells[addoff(do, o)] = c

    def memcpy_sym(self, st, d, s, n):
        if self.mon is not None:
            r = self.mon.memcpy_sym(self, st, d, s, n)
            if r:
                return
        st.note(2, 'copy of unknown length')
        dg = st.wreg(d.r)
        dg.cells = {}
        dg.lazy = ('any',)

    def memset(self, st, d, v, n):
        n = st.simp(n) if isinstance(n, Lin) else n
        if n == 0:
            return
        if not isinstance(n, int) or n > 4096:
            st.note(2, 'memset of unknown length')
            dg = st.wreg(d.r)
            dg.cells = {}
            dg.lazy = ('any',)
            return
        self.deref(st, d, 'write', n)
        dg = st.wreg(d.r)
        self.clobber(st, dg, d.o, n)
        i = 0
        while i < n:
            s = 8 if n - i >= 8 and i % 8 == 0 and v == 0 else 1
            dg.cells[addoff(d.o, i)] = (v, s)
            i += s

    # ---- operands
    def ev(self, st, fr, v):
        if v[0] == 0:
            x = fr.regs[v[1]]
            if st.sub and isinstance(x, Lin):
                return st.simp(x)
            return x
        return v[1]

    # ---- instructions
    def op_alloca(self, st, fr, I):
        n = self.ev(st, fr, I.a[0]) if I.a else 1
        r = st.new_region('stack', I.size * n if isinstance(n, int) else None, ('undef',), I.name)
        fr.allocas = fr.allocas + (r,)
        fr.regs[I.i] = Ptr(r, 0)

    def op_load(self, st, fr, I):
        p = self.ev(st, fr, I.a[0])
        fr.regs[I.i] = self.load(st, p, I.size, I.t)

    def op_store(self, st, fr, I):
        v = self.ev(st, fr, I.a[0])
        p = self.ev(st, fr, I.a[1])
        if isinstance(v, tuple):
            self.store_ty(st, p, v, I.vt)
        else:
            self.store(st, p, v, I.size)

    def op_getelementptr(self, st, fr, I):
        p = self.ev(st, fr, I.a[0])
        off = I.off
        for v, k in I.var:
            x = self.ev(st, fr, v)
            w = 64
            if isinstance(x, Lin) and x.w != 64:
                x = self.sext(st, x, x.w, 64)
            off = add(64, off, scale(64, x, k)) if isinstance(x, (int, Lin)) else None
            if off is None:
                break
        if off is None:
            fr.regs[I.i] = self.newptr(st, 'unknown offset')
            return
        if isinstance(p, Ptr):
            fr.regs[I.i] = Ptr(p.r, addoff(p.o, off))
        elif isinstance(p, int):
            fr.regs[I.i] = add(64, p, off)
        else:
            fr.regs[I.i] = p

    def _bin(self, st, fr, I):
        a = self.ev(st, fr, I.a[0])
        b = self.ev(st, fr, I.a[1])
        o = I.o
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            r = self.ptrarith(st, o, I.w, a, b)
        else:
            if a is UNDEF or b is UNDEF:
                r = UNDEF
            else:
                if (I.nsw or I.o == 'mul') and self.overflow_hook:
                    self.overflow_hook(self, st, I, a, b)
                if o in ('udiv', 'sdiv', 'urem', 'srem') and b == 0:
                    self.violation(st, 'div-zero', 'division by zero')
                r = binop(st, o, I.w, a, b)
        fr.regs[I.i] = r
    op_add = op_sub = op_mul = op_and = op_or = op_xor = op_shl = op_lshr = op_ashr = op_udiv = op_sdiv = op_urem = op_srem = _bin

    def ptrarith(self, st, o, w, a, b):
        if o == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
            return sub(64, a.o, b.o)
        if o == 'add' and isinstance(a, Ptr) and isinstance(b, (int, Lin)):
            return Ptr(a.r, addoff(a.o, b))
        if o == 'sub' and isinstance(a, Ptr) and isinstance(b, (int, Lin)):
            return Ptr(a.r, addoff(a.o, scale(64, b, -1)))
        if o == 'and' and isinstance(a, Ptr) and isinstance(b, int) and b == 1:
            return 0
        st.note(2, 'pointer arithmetic')
        return st.fresh(w, tag='unk')

    def sext(self, st, v, fw, w):
        if isinstance(v, int):
            return cen(v, fw) & ((1 << w) - 1)
        if not isinstance(v, Lin):
            return v if v is UNDEF else opk(w, 'sext', v)
        h = st.hull(v)
        if -(1 << (fw - 1)) <= h[0] and h[1] < 1 << (fw - 1):
            return Lin(w, v.t, v.c)
        r = st.ranges(v)
        half = 1 << (fw - 1)
        pos = iv_and(r, ((0, half - 1),))
        neg = iv_and(r, ((half, (1 << fw) - 1),))
        if pos and neg:
            z = zext(st, v, fw, w)
            if isinstance(z, Lin) and len(z.t) == 1 and z.c == 0 and next(iter(z.t))[0][0] == 'sl' and next(iter(z.t))[1] == 1:
                # the low part of a wider value: split on the part itself
                r = st.ranges(z)
                pos, neg = iv_and(r, ((0, half - 1),)), iv_and(r, ((half, (1 << fw) - 1),))
                if not neg:
                    return z
                if not pos:
                    return sub(w, z, 1 << fw)
                v = z
            a = st.fork()
            ok1, _ = assume_in(st, v, ((0, half - 1),))
            ok2, _ = assume_in(a, v, ((half, (1 << fw) - 1),))
            raise ForkTo([s for s, ok in ((st, ok1), (a, ok2)) if ok])
        z = zext(st, v, fw, w)
        if pos:
            return z
        return sub(w, z, 1 << fw)

    def op_sext(self, st, fr, I):
        fr.regs[I.i] = self.sext(st, self.ev(st, fr, I.a[0]), I.fnw, I.w)

    def op_zext(self, st, fr, I):
        fr.regs[I.i] = zext(st, self.ev(st, fr, I.a[0]), I.fnw, I.w)

    def op_trunc(self, st, fr, I):
        v = self.ev(st, fr, I.a[0])
        fr.regs[I.i] = trunc(st, v, I.w) if not isinstance(v, Ptr) else 0

    def op_bitcast(self, st, fr, I):
        v = self.ev(st, fr, I.a[0])
        if isinstance(v, (int, Lin)) and not I.w and I.t != 'ptr':
            v = Op('bits2f', v)
        elif isinstance(v, Op) and I.w and v is not UNDEF:
            v = opk(I.w, 'f2bits', v)
        fr.regs[I.i] = v

    def op_ptrtoint(self, st, fr, I):
        fr.regs[I.i] = self.ev(st, fr, I.a[0])
    op_inttoptr = op_ptrtoint
    op_freeze = op_ptrtoint

    def _f2(self, st, fr, I):
        a = self.ev(st, fr, I.a[0])
        b = self.ev(st, fr, I.a[1])
        fr.regs[I.i] = self.fop(I.o, a, b)
    op_fadd = op_fsub = op_fmul = op_fdiv = op_frem = _f2

    def fop(self, o, *a):
        if (not self.float_opaque or o == 'fneg') and all(isinstance(x, Op) and x.n == 'fc' for x in a):
            try:
                v = {'fadd': lambda x, y: x + y, 'fsub': lambda x, y: x - y, 'fmul': lambda x, y: x * y,
                     'fdiv': lambda x, y: x / y, 'fneg': lambda x: -x}.get(o)
                if v:
                    return Op('fc', v(*[x.a[0] for x in a]))
            except Exception:
                pass
        if any(x is UNDEF for x in a):
            return UNDEF
        if self.float_opaque and o != 'fneg':
            return Op('some', atom(fresh_id(), 64))
        r = Op(o, *a)
        if r.d > 6:
            return Op('some', 'float')
        return r

    def op_fneg(self, st, fr, I):
        fr.regs[I.i] = self.fop('fneg', self.ev(st, fr, I.a[0]))

    def _fcast(self, st, fr, I):
        v = self.ev(st, fr, I.a[0])
        if isinstance(v, int) and I.o in ('sitofp', 'uitofp'):
            fr.regs[I.i] = Op('fc', float(cen(v, I.fnw) if I.o == 'sitofp' else v))
        elif isinstance(v, Op) and v.n == 'fc' and I.o in ('fpext', 'fptrunc'):
            fr.regs[I.i] = v
        elif I.o == 'fptrunc' and I.ft == 'double' and I.t == 'float' and isinstance(v, Op) and v.n == 'fpext':
            fr.regs[I.i] = v.a[0]                  # a float that was widened
        elif I.o in ('fptosi', 'fptoui'):
            if self.mon is not None:
                self.mon.on_fptoint(self, st, I, v)
            fr.regs[I.i] = opk(I.w, I.o, v) if v is not UNDEF else UNDEF
        else:
            r = Op(I.o, v) if v is not UNDEF else UNDEF
            fr.regs[I.i] = r if r.d <= 6 else Op('some', 'float')
    op_sitofp = op_uitofp = op_fpext = op_fptrunc = op_fptosi = op_fptoui = _fcast

    def op_fcmp(self, st, fr, I):
        a = self.ev(st, fr, I.a[0])
        b = self.ev(st, fr, I.a[1])
        p = I.p
        if isinstance(a, Op) and isinstance(b, Op) and a.n == 'fc' and b.n == 'fc':
            x, y = a.a[0], b.a[0]
            un = x != x or y != y
            base = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x < y or x > y, 'rd': not un, 'no': un}
            if p == 'ord':
                r = not un
            elif p == 'uno':
                r = un
            else:
                r = base[p[1:]]
                if p[0] == 'u' and un:
                    r = True
                if p[0] == 'o' and un:
                    r = False
            fr.regs[I.i] = int(r)
            return
        if a is UNDEF or b is UNDEF:
            fr.regs[I.i] = UNDEF
            return
        if self.tokens:
            r = relknown(st, p, 0, a, b)
            if r is not None:
                fr.regs[I.i] = int(r)
                return
            s2 = st.fork()
            relassume(st, p, 0, a, b, 1)
            relassume(s2, p, 0, a, b, 0)
            self.stats['forks'] += 1
            raise ForkTo([st, s2])
        inv = p in FCNEG
        if inv:
            p = FCNEG[p]
        v = opk(1, 'fcmp', p, a, b)
        v = sub(1, 1, v) if inv else v
        fr.regs[I.i] = self.bool(st, v)

    def bool(self, st, v):
        """decide a 1-bit value, forking (re-execution) when open"""
        v = st.simp(v)
        if not isinstance(v, Lin):
            return v
        r = st.ranges(v)
        if r == ((0, 0),):
            return 0
        if r == ((1, 1),):
            return 1
        b = st.fork()
        out = []
        for s, c in ((st, 1), (b, 0)):
            ok, _ = assume_in(s, v, ((c, c),))
            if ok:
                out.append(s)
        self.stats['forks'] += 1
        raise ForkTo(out)

    def op_icmp(self, st, fr, I):
        a = self.ev(st, fr, I.a[0])
        b = self.ev(st, fr, I.a[1])
        fr.regs[I.i] = self.icmp(st, I.p, a, b, self.opw(I, a, b))

    def opw(self, I, a, b):
        for x in (a, b):
            if isinstance(x, Lin):
                return x.w
        # both constants: need the operand width for signed predicates
        for x in I.a:
            pass
        return I.fnw or 64

    def icmp(self, st, p, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return int(cmpconst(p, w, a, b))
        if isinstance(a, Fn) or isinstance(b, Fn):
            return int((a == b) == (p == 'eq'))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r == b.r:
                    if a.o == b.o:
                        return int(p in ('eq', 'ule', 'uge', 'sle', 'sge'))
                    return self.icmp(st, p if p in ('eq', 'ne') else p, a.o, b.o, 64)
                if p in ('eq', 'ne'):
                    return int(p == 'ne')
                return self.bool(st, opk(1, 'ptrcmp', p, a, b))
            if a is UNDEF or b is UNDEF:
                return UNDEF
            if isinstance(a, int) or isinstance(b, int):
                if p in ('eq', 'ne'):
                    return int(p == 'ne')
                if isinstance(a, int):
                    p = SWAP[p]
                return int(p in ('ugt', 'uge'))
            st.note(2, 'pointer comparison')
            return self.bool(st, st.fresh(1, tag='unk'))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
            if a == b:
                return int(p in ('eq', 'ule', 'uge', 'sle', 'sge'))
            st.note(2, 'comparison of %r' % (a,))
            return self.bool(st, st.fresh(1, tag='unk'))
        r = decide(st, p, w, a, b)
        if r is not None:
            return int(r)
        if self.tokens:
            r = relknown(st, p, w, a, b)
            if r is not None:
                return int(r)
        imp0 = st.imp, st.why
        s2 = st.fork()
        self.stats['forks'] += 1
        for v in (a, b):
            if isinstance(v, Lin):
                for k, _ in v.t:
                    if k[0] == 'a' and k[3] == 'unk':
                        st.note(2, st.why or 'branch on an unknown value')
                        s2.note(2, s2.why or 'branch on an unknown value')
        out = []
        if refine(st, p, w, a, b):
            out.append(st)
        if refine(s2, NEG[p], w, a, b):
            out.append(s2)
        # a branch that cannot be refined decisively must not loop: attach the outcome
        for s, val in ((st, 1), (s2, 0)):
            if s in out:
                aa = s.simp(a) if isinstance(a, Lin) else a
                bb = s.simp(b) if isinstance(b, Lin) else b
                if decide(s, p, w, aa, bb) is None:
                    s.pend = val
                    if self.tokens:
                        if s.why == 'comparison of wrapped values':
                            s.imp, s.why = imp0
                        relassume(s, p, w, a, b, val)
        raise ForkTo(out)

    def op_select(self, st, fr, I):
        c = self.ev(st, fr, I.a[0])
        if isinstance(c, Lin):
            c = self.bool(st, c)
        if c is UNDEF:
            self.violation(st, 'undef-branch', 'selection on an uninitialised value')
        fr.regs[I.i] = self.ev(st, fr, I.a[1] if c else I.a[2])

    def op_extractvalue(self, st, fr, I):
        v = self.ev(st, fr, I.a[0])
        for i in I.idx:
            v = v[1][i] if isinstance(v, tuple) and v[0] == 'agg' else UNDEF if v is UNDEF else self.anyval(st, I.t, 'extractvalue')
        fr.regs[I.i] = v

    def op_insertvalue(self, st, fr, I):
        v = self.ev(st, fr, I.a[0])
        x = self.ev(st, fr, I.a[1])
        n = len(I.t[2]) if isinstance(I.t, list) and I.t[0] == 's' else 8
        l = list(v[1]) if isinstance(v, tuple) and v[0] == 'agg' else [UNDEF] * n
        i = I.idx[0]
        l[i] = x
        fr.regs[I.i] = ('agg', tuple(l))

    # ---- control flow
    def goto(self, st, fr, d):
        blk = fr.fn.blocks[d]
        src = fr.b
        if blk[0].o == 'phi':
            vals = []
            n = 0
            for I in blk:
                if I.o != 'phi':
                    break
                vals.append((I.i, self.ev(st, fr, I.inc[src])))
                n += 1
            for i, v in vals:
                fr.regs[i] = v
            fr.ip = n
        else:
            fr.ip = 0
        fr.b = d
        return 'H' if d in fr.fn.heads else 'J'

    def op_br(self, st, fr, I):
        if not I.a:
            return self.goto(st, fr, I.d[0])
        c = self.ev(st, fr, I.a[0])
        if isinstance(c, Lin):
            c = self.bool(st, c)
        if c is UNDEF:
            self.violation(st, 'undef-branch', 'branch on an uninitialised value')
        return self.goto(st, fr, I.d[0] if c else I.d[1])

    def op_switch(self, st, fr, I):
        v = self.ev(st, fr, I.a[0])
        if v is UNDEF:
            self.violation(st, 'undef-branch', 'switch on an uninitialised value')
        if isinstance(v, int):
            for c, d in I.cases:
                if c == v:
                    return self.goto(st, fr, d)
            return self.goto(st, fr, I.df)
        if not isinstance(v, Lin):
            st.note(2, 'switch on %r' % (v,))
            v = st.fresh(64, tag='unk')
            raise AnalysisError('switch')
        groups = {}
        for c, d in I.cases:
            groups.setdefault(d, []).append((c, c))
        allc = iv_norm([x for g in groups.values() for x in g])
        M = (1 << v.w) - 1
        opts = [(d, iv_norm(g)) for d, g in groups.items() if d != I.df]
        opts.append((I.df, iv_norm(list(iv_not(allc, 0, M)) + groups.get(I.df, []))))
        r = st.ranges(v)
        opts = [(d, iv_and(r, g)) for d, g in opts if iv_and(r, g)]
        if len(opts) == 1:
            return self.goto(st, fr, opts[0][0])
        if any(k[0] == 'a' and k[3] == 'unk' for k, _ in v.t):
            st.note(2, st.why or 'switch on an unknown value')
        out = []
        for i, (d, g) in enumerate(opts):
            s = st.fork() if i + 1 < len(opts) else st
            ok, _ = assume_in(s, v, g)
            if ok:
                f = s.top()
                how = self.goto(s, f, d)
                if how == 'H':
                    s.pend = 'H'
                out.append(s)
        self.stats['forks'] += 1
        return out

    def op_unreachable(self, st, fr, I):
        raise Dead()

    def op_fence(self, st, fr, I):
        return None

    def op_ret(self, st, fr, I):
        v = self.ev(st, fr, I.a[0]) if I.a else None
        return self.do_return(st, v)

    def do_return(self, st, v):
        fr = st.frames.pop()
        for r in fr.allocas:
            g = st.wreg(r)
            g.alive = False
            g.cells = {}
        if not st.frames:
            return self.finish_path(st, 'return', v)
        if fr.k is not None:
            k, data = fr.k
            caller = st.frames[-1]
            I = caller.fn.blocks[caller.b][caller.ip]
            c = Ctx(self, st, I, None, None)
            return self.result(st, I, k(c, v, *data))
        caller = st.top()
        I = caller.fn.blocks[caller.b][caller.ip]
        return self.complete(st, I, v)

    def finish_path(self, st, how, v):
        self.stats['finished'] += 1
        if self.finish:
            self.finish(self, st, how, v)
        raise Dead()

    def complete(self, st, I, v):
        """call instruction I of the top frame returned v"""
        fr = st.top()
        if I.t != 'void':
            if v is None:
                v = self.anyval(st, I.t, 'missing return value')
            fr.regs[I.i] = v
        if I.o == 'invoke':
            return self.goto(st, fr, I.n)
        fr.ip += 1
        return 'J'

    # ---- exceptions
    def throw(self, st, ti, obj):
        st.exc = (ti, obj)
        return self.unwind(st)

    def unwind(self, st):
        """the exception st.exc propagates out of the call instruction of the top frame"""
        while True:
            if not st.frames:
                return self.finish_path(st, 'throw', st.exc)
            fr = st.top()
            I = fr.fn.blocks[fr.b][fr.ip]
            if I.o == 'invoke':
                pad = fr.fn.blocks[I.u]
                lp = None
                for x in pad:
                    if x.o == 'landingpad':
                        lp = x
                        break
                sel = None
                ti = st.exc[0]
                for kind, c in lp.clauses:
                    c = c[1]
                    if kind == 'catch':
                        if c == 0 or not isinstance(c, Ptr):
                            sel = self.tid(None)
                            break
                        if ti is None:
                            st.note(2, 'catch of an unknown exception')
                            continue
                        if self.isbase(ti, c.r[1:]):
                            sel = self.tid(c.r[1:])
                            break
                    else:
                        sel = -1 & 0xffffffff
                if sel is None and lp.cleanup:
                    sel = 0
                if sel is not None:
                    how = self.goto(st, fr, I.u)
                    fr.regs[('lp',)] = ('agg', (st.exc[1], sel))
                    return how
            fr = st.frames.pop()
            for r in fr.allocas:
                g = st.wreg(r)
                g.alive = False
                g.cells = {}
            if fr.exk is not None and st.frames:
                k, data = fr.exk
                caller = st.frames[-1]
                I2 = caller.fn.blocks[caller.b][caller.ip]
                exc = st.exc
                st.exc = None
                res = k(Ctx(self, st, I2, None, None), exc, *data)
                if not isinstance(res, Rethrow):
                    return self.result(st, I2, res)
                st.exc = exc

    def tid(self, name):
        if name not in self.tids:
            self.tids[name] = len(self.tids) + 1
        return self.tids[name]

    def op_landingpad(self, st, fr, I):
        fr.regs[I.i] = fr.regs.pop(('lp',))

    def op_resume(self, st, fr, I):
        f = st.frames.pop()
        for r in f.allocas:
            g = st.wreg(r)
            g.alive = False
            g.cells = {}
        if f.exk is not None and st.frames:
            k, data = f.exk
            caller = st.frames[-1]
            I2 = caller.fn.blocks[caller.b][caller.ip]
            exc = st.exc
            st.exc = None
            res = k(Ctx(self, st, I2, None, None), exc, *data)
            if not isinstance(res, Rethrow):
                return self.result(st, I2, res)
            st.exc = exc
        return self.unwind(st)

    # ---- calls
    def op_call(self, st, fr, I):
        f = self.ev(st, fr, I.f)
        args = [self.ev(st, fr, a) for a in I.a]
        return self.call(st, I, f, args)
    op_invoke = op_call

    def call(self, st, I, f, args, k=None, exk=None):
        if not isinstance(f, Fn):
            if isinstance(f, int) or f is UNDEF:
                self.violation(st, 'bad-call', 'call through a null or uninitialised function pointer')
            st.note(2, 'call through an unknown pointer')
            return self.complete_k(st, I, self.anyval(st, I.t), k)
        fn = self.mod.funcs.get(f.n)
        name = f.n
        m = None
        if fn is not None:
            m = self.models.get(fn.name) or self.models.get(fn.qual)
            if m is None and fn.name.startswith('llvm.'):
                m = self.models.get('.'.join(fn.name.split('.')[:2])) or self.models.get('.'.join(fn.name.split('.')[:3]))
        else:
            m = self.models.get(name)
        if m is None and fn is not None and fn.decl:
            m = self.models.wild(fn)
        self.stats['calls'] += 1
        if m is not None:
            c = Ctx(self, st, I, fn, args)
            r = m(c, *args)
            if r is not NotImplemented:
                nm = fn.qual if fn else name
                self.models_used[nm] = self.models_used.get(nm, 0) + 1
                return self.result(st, I, r, k, exk)
        if fn is None or fn.decl:
            nm = fn.dem if fn else name
            self.unmodelled[nm] = self.unmodelled.get(nm, 0) + 1
            st.note(2, 'unmodelled call of %s' % nm)
            if fn is not None and fn.noreturn:
                raise Dead()
            self.havoc(st, args)
            return self.complete_k(st, I, self.anyval(st, I.t), k)
        return self.enter(st, fn, args, k, exk)

    def havoc(self, st, args):
        for a in args:
            if isinstance(a, Ptr) and a.r in st.mem and not (isinstance(a.r, str)):
                g = st.wreg(a.r)
                for o in list(g.cells):
                    if not isinstance(o, tuple) and not isinstance(g.cells[o][0], (Ptr, Fn)):
                        del g.cells[o]
                if g.lazy[0] == 'undef':
                    g.lazy = ('any',)

    def enter(self, st, fn, args, k=None, exk=None):
        if len(st.frames) > self.max_depth:
            self.notes['call depth limit'] = self.notes.get('call depth limit', 0) + 1
            raise Dead()
        fr = Frame(fn, st.ep)
        self.funcs_seen[fn.name] = self.funcs_seen.get(fn.name, 0) + 1
        for i, a in enumerate(args[:fn.nparams]):
            bv = fn.params[i].get('byval')
            if bv and isinstance(a, Ptr):
                r = st.new_region('stack', bv)
                self.memcpy(st, Ptr(r, 0), a, bv)
                fr.allocas = fr.allocas + (r,)
                a = Ptr(r, 0)
            fr.regs[i] = a
        fr.k = k
        fr.exk = exk
        st.frames.append(fr)
        if 0 in fn.heads:
            return 'H'
        return 'J'

    def complete_k(self, st, I, v, k):
        if k is not None:
            return self.result(st, I, k[0](Ctx(self, st, I, None, None), v, *k[1]))
        return self.complete(st, I, v)

    def result(self, st, I, r, k=None, exk=None):
        """process what a model returned for call instruction I of the top frame"""
        if isinstance(r, Throw):
            if exk is not None:
                raise AnalysisError('throwing model below a continuation')
            obj = r.obj
            if obj is None:
                obj = Ptr(st.new_region('exc', None, ('any',)), 0)
            return self.throw(st, r.ti, obj)
        if isinstance(r, Call):
            if k is not None:
                # nest: run r, then its own k, then ours
                return self.call(st, I, r.fn, r.args, (_chain, (r.k, r.data, k)) if r.k else k,
                                 (r.onexc, r.data) if r.onexc else exk)
            return self.call(st, I, r.fn, r.args, (r.k, r.data) if r.k else None,
                             (r.onexc, r.data) if r.onexc else None)
        if isinstance(r, Forks):
            out = []
            for s, x in r.lst:
                try:
                    how = self.result(s, I, x, k, exk)
                    if isinstance(how, list):
                        out += how
                    else:
                        if how == 'H':
                            s.pend = 'H'
                        out.append(s)
                except Dead:
                    pass
                except ForkTo:
                    raise AnalysisError('fork inside result')
            return out
        if k is not None:
            return self.result(st, I, k[0](Ctx(self, st, I, None, None), r, *k[1]))
        return self.complete(st, I, r)

    # ---- driver: run one state until it forks, dies or reaches a loop head
    def run(self, st):
        """returns list of states to continue with (each possibly flagged as standing at a loop head)"""
        disp = self.dispatch
        n = 0
        try:
            if st.pend == 'H':
                st.pend = None
                return self.athead(st)
            fr = st.top()
            blk = fr.fn.blocks[fr.b]
            while True:
                I = blk[fr.ip]
                n += 1
                if st.pend is not None and I.o == 'icmp':
                    fr.regs[I.i] = st.pend
                    st.pend = None
                    fr.ip += 1
                    continue
                try:
                    h = disp.get(I.o)
                    if h is None:
                        raise AnalysisError('opcode ' + I.o)
                    r = h(st, fr, I)
                except ForkTo as e:
                    return e.states
                if r is None:
                    fr.ip += 1
                elif r == 'J':
                    fr = st.top()
                    blk = fr.fn.blocks[fr.b]
                elif r == 'H':
                    return self.athead(st)
                else:
                    return r
        except Dead:
            return []
        finally:
            self.stats['insts'] += n

    def athead(self, st):
        if self.headhook:
            st = self.headhook(self, st)
            if st is None:
                return []
        return [st]


class Rethrow:
    pass


def _chain(c, v, k1, d1, k2):
    r = k1(c, v, *d1)
    if isinstance(r, (Throw, Forks, Call)):
        if isinstance(r, Call):
            return Call(r.fn, r.args, _chain if r.k else k2[0], (r.k, r.data, k2) if r.k else k2[1], r.onexc)
        if isinstance(r, Forks):
            return Forks([(s, _chain2(c, s, x, k2)) for s, x in r.lst])
        return r
    return k2[0](c, r, *k2[1])


def _chain2(c, s, x, k2):
    if isinstance(x, (Throw, Forks, Call)):
        if isinstance(x, Throw):
            return x
        raise AnalysisError('nested continuation')
    return k2[0](Ctx(c.it, s, c.I, None, None), x, *k2[1])


# ---- what is known of the order of two values the number domain cannot relate: a subset of {<, =, >, unordered}
REL = {'eq': 2, 'ne': 5, 'lt': 1, 'le': 3, 'gt': 4, 'ge': 6}
FREL = dict({'o' + k: v for k, v in REL.items()}, **{'u' + k: v | 8 for k, v in REL.items()}, ord=7, uno=8)


def relkey(st, p, w, a, b):
    if w == 0:
        m, full, kind = FREL[p], 15, 'f'
        x, y = a, b
    else:
        m, full = REL[p[-2:] if p not in ('eq', 'ne') else p], 7
        kind = p[0] if p not in ('eq', 'ne') else '*'
        x, y = (mathrep(st, v, w, kind == 's') for v in (a, b))
        if x is not None and y is not None:
            # the sign of one number: the difference, without common factors
            acc = dict(x[0])
            for k, q in y[0]:
                acc[k] = acc.get(k, 0) - q
            t, g = mkset(acc), x[1] - y[1]
            for _, q in t:
                g = gcd(g, q)
            if g > 1:
                t, x = frozenset((k, q // g) for k, q in t), (None, (x[1] - y[1]) // g)
            else:
                x = (None, x[1] - y[1])
            n = frozenset((k, -q) for k, q in t)
            if repr(sorted(n, key=repr)) < repr(sorted(t, key=repr)):
                m = m & 10 | (m & 1) << 2 | (m & 4) >> 2
                return ('rel', 'd', n, -x[1]), m, full
            return ('rel', 'd', t, x[1]), m, full
        x, y = (mathrep(st, v, w, False) or ('w', w, v.t, v.c) if isinstance(v, Lin) else ('c', v) for v in (a, b))
    if repr(y) < repr(x):
        x, y = y, x
        m = m & 10 | (m & 1) << 2 | (m & 4) >> 2
    if x == y:
        full &= 10
    return ('rel', kind, x, y), m, full


def relset(st, key, full):
    if key[1] == '*':
        # equality: known from either order
        r = full
        for k in 'su':
            v = st.mon.get(('rel', k) + key[2:], 7)
            if v & 2 == 0:
                r &= 5
            elif v == 2:
                r = 2
        return r & st.mon.get(key, full)
    r = st.mon.get(key, full) & full
    if key[1] in 'su':
        r &= st.mon.get(('rel', '*') + key[2:], 7)
    return r


def relknown(st, p, w, a, b):
    key, m, full = relkey(st, p, w, a, b)
    r = relset(st, key, full)
    return True if r & ~m == 0 else False if r & m == 0 else None


def relassume(st, p, w, a, b, val):
    key, m, full = relkey(st, p, w, a, b)
    st.mon[key] = relset(st, key, full) & (m if val else ~m)


def addoff(o, d):
    if isinstance(o, int) and isinstance(d, int):
        return cen(o + d, 64)
    r = add(64, o, d)
    return cen(r, 64) if isinstance(r, int) else r


def offdiff(st, a, b):
    """a-b when constant, else None"""
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    d = sub(64, a, b)
    if isinstance(d, int):
        return cen(d, 64)
    d = st.simp(d)
    if isinstance(d, int):
        return cen(d, 64)
    return None
