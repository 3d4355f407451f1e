"""Worklist exploration to a fixpoint: states are compared, merged and widened at loop heads."""
import os
import time
from .values import *
from .state import *
from .ir import width
from . import state as S
from .interp import AnalysisError

SLOT = ('#',)


class Canon:
    """canonical description of a state: skeleton (exact), slots (numbers that may be generalised)"""

    def __init__(self, it, st, s32=False):
        self.it = it
        self.st = st
        self.s32 = s32
        self.slotw = []
        self.spec = set()
        self.regs = {}
        self.queue = []
        self.atoms = {}       # anonymous atoms found in the skeleton
        self.skel = []
        self.slots = []
        self.locs = []
        self.pin = pinned(st)
        self.build()

    def rid(self, r):
        if isinstance(r, str):
            if r not in self.regs:
                self.regs[r] = r
                self.queue.append(r)
            return r
        n = self.regs.get(r)
        if n is None:
            n = self.regs[r] = len(self.regs)
            self.queue.append(r)
        return n

    def key(self, k):
        if k[0] == 'a':
            if isinstance(k[1], str):
                return k
            n = self.atoms.get(k)
            if n is None:
                n = self.atoms[k] = len(self.atoms)
            return ('a', n, k[2], k[3])
        if k[0] == 'sl':
            return ('sl', self.lin(k[1]), k[2], k[3])
        return ('op', k[1], k[2]) + tuple(self.val(x) for x in k[3:])

    def lin(self, v):
        if isinstance(v, int):
            return v
        # deterministic order: named first
        items = sorted(v.t, key=_order)
        return ('L', v.w, tuple((self.key(k), m) for k, m in items), v.c)

    def val(self, v):
        """exact form of a value"""
        if v is None or isinstance(v, (int, str, float)):
            return v
        if isinstance(v, Lin):
            return self.lin(self.st.simp(v))
        if isinstance(v, Ptr):
            o = v.o
            return ('P', self.rid(v.r), o if isinstance(o, int) else self.slot(o))
        if isinstance(v, Fn):
            return ('F', v.n)
        if isinstance(v, Op):
            return ('O', v.n) + tuple(self.val(x) for x in v.a)
        if isinstance(v, (tuple, list)):
            return tuple(self.val(x) for x in v)
        if isinstance(v, frozenset):
            return ('fs',) + tuple(sorted((self.val(x) for x in v), key=repr))
        if isinstance(v, dict):
            return ('d',) + tuple((k, self.val(x)) for k, x in sorted(v.items(), key=lambda t: repr(t[0])))
        if hasattr(v, 'canon'):
            return v.canon(self)
        if callable(v):
            return ('py', getattr(v, '__qualname__', repr(v)))
        return repr(v)

    def slot(self, v, w=64):
        if isinstance(v, Lin):
            v = self.st.simp(v)
        self.slots.append(v)
        self.slotw.append(w)
        return SLOT

    def pins(self, v):
        return v == self.pin if isinstance(v, int) else isinstance(self.pin, Lin) and self.st.simp(v) == self.pin

    def wval(self, v, w):
        if w == 64 and isinstance(v, (int, Lin)):
            if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and next(iter(v.t))[0][3:4] == ('str',):
                return self.lin(self.st.simp(v))
            return self.slot(v)
        if w == 32 and self.s32 and isinstance(v, (int, Lin)) and not self.pins(v):
            return self.slot(v, 32)
        return self.val(v)

    def build(self):
        st = self.st
        out = self.skel
        fr = st.frames
        for i, f in enumerate(fr):
            top = i == len(fr) - 1
            live = f.fn.live_at(f.b, f.ip) if top else f.fn.live_after(f.b, f.ip)
            out.append((f.fn.name, f.b, f.ip))
            blk = None
            for r in live:
                v = f.regs.get(r)
                if v is None:
                    continue
                if isinstance(v, (int, Lin)):
                    out.append((r, self.wval(v, f.fn.regw(r))))
                else:
                    out.append((r, self.val(v)))
            if f.k:
                out.append(('k', self.val(f.k)))
            if f.exk:
                out.append(('xk', self.val(f.exk)))
            lp = f.regs.get(('lp',))
            if lp is not None:
                out.append(('lp', self.val(lp)))
        n0 = len(out)
        out.append(('mon', self.val(st.mon)))
        self.mk = tuple((f.fn.name, f.b, f.ip) for f in fr), out[n0]
        out.append(('exc', self.val(st.exc), self.val(st.caught)))
        q = self.queue
        i = 0
        while i < len(q):
            r = q[i]
            i += 1
            g = st.mem.get(r)
            if g is None:
                continue
            if g.kind == 'global' and g.info and self.it.mod.globals.get(g.info[1:], {}).get('const'):
                continue
            if not g.alive:
                out.append((self.regs[r], 'dead'))
                continue
            out.append((self.regs[r], g.kind, self.val(g.lazy)))
            if g.size is not None and not isinstance(g.size, int):
                out.append(self.slot(g.size))
            else:
                out.append(g.size)
            io = [o for o in g.cells if isinstance(o, int)]
            io.sort()
            for o in io:
                v, s = g.cells[o]
                out.append((o, s, self.wval(v, s * 8) if isinstance(v, (int, Lin)) else self.val(v)))
            for o in g.cells:
                if isinstance(o, int):
                    continue
                c = g.cells[o]
                if isinstance(o, tuple):
                    out.append((('M', o[1] if isinstance(o[1], int) else self.slot(o[1])), self.model(c)))
                else:
                    out.append((self.slot(o), c[1], self.wval(c[0], c[1] * 8) if isinstance(c[0], (int, Lin)) else self.val(c[0])))
        # ranges of the skeleton's anonymous atoms and of named atoms / terms whose atoms are all known
        self.out2 = env = []
        for k, iv in st.rng.items():
            if k[0] == 'a':
                if isinstance(k[1], str):
                    if k[2] < 64:
                        env.append((k, iv))
                elif k in self.atoms and k[2] < 64:
                    env.append((self.key(k), iv))
            else:
                if all(isinstance(a[1], str) or a in self.atoms for a in atoms_of(k)):
                    env.append((self.key(k), iv))
        env.sort(key=repr)
        self.sk = (tuple(out), tuple(env))
        self.hash = hash(self.sk)

    def model(self, c):
        """a std model object: numbers in it are slots unless marked discrete"""
        return tuple(self.mval(x) for x in c)

    def mval(self, x):
        if isinstance(x, int) and not isinstance(x, bool):
            return self.slot(x)
        if isinstance(x, Lin):
            if len(x.t) == 1 and next(iter(x.t))[0][3:4] == ('str',):
                return self.lin(self.st.simp(x))
            return self.slot(x)
        return self.val(x)


def pinned(st):
    """the character just delivered: numbers equal to it are never generalised"""
    P = st.mon.get('P')
    while isinstance(P, tuple) and len(P) == 2:
        P = P[1]
    if isinstance(P, Chr):
        P = P.v
    return st.simp(P) if isinstance(P, Lin) else P


def _order(t):
    k = t[0]
    return (k[0], isinstance(k[1], int), str(k[1]) if not isinstance(k[1], int) else '', k[1] if isinstance(k[1], int) else 0)


_ao = {}


def atoms_of(k):
    r = _ao.get(k)
    if r is None:
        s = set()
        _atoms(k, s)
        _ao[k] = r = frozenset(s)
    return r


def _atoms(k, s):
    if k[0] == 'a':
        s.add(k)
    elif k[0] == 'sl':
        _avals(k[1], s)
    else:
        for x in k[3:]:
            _avals(x, s)


def _avals(v, s):
    if isinstance(v, Lin):
        for k, _ in v.t:
            _atoms(k, s)
    elif isinstance(v, Ptr):
        _avals(v.o, s)
    elif isinstance(v, Op):
        for x in v.a:
            _avals(x, s)
    elif isinstance(v, tuple):
        for x in v:
            _avals(x, s)


class Rep:
    """a remembered state at a loop head"""
    __slots__ = ('slots', 'rng', 'forms', 'atoms', 'st', 'imp')

    def __init__(self, C):
        st = C.st
        self.slots = C.slots
        self.st = st
        self.imp = st.imp
        ks = set()
        for v in C.slots:
            if isinstance(v, Lin):
                for k, _ in v.t:
                    ks |= atoms_of(k)
        ks |= set(C.atoms)
        # keep named 64-bit atoms too
        self.forms = {}
        ch = True
        for ft, b in st.forms.items():
            at = set()
            for k, _ in ft:
                at |= atoms_of(k)
            if all(isinstance(a[1], str) or a in ks for a in at):
                self.forms[ft] = b
        self.rng = {}
        for k, iv in st.rng.items():
            if k[0] == 'a':
                if k in ks or isinstance(k[1], str):
                    self.rng[k] = iv
            elif all(isinstance(a[1], str) or a in ks for a in atoms_of(k)):
                self.rng[k] = iv
        self.atoms = dict(C.atoms)


def rng_of(rep, k):
    r = rep.rng.get(k)
    if r is None:
        return rep.st.keyrng(k)
    return r


def subsumed(rep, C, N):
    """is state N (canon C) covered by rep?  Both have the same skeleton."""
    st = C.st
    if rep.imp > st.imp:
        return False
    m = {}
    inv = {n: k for k, n in C.atoms.items()}
    for k, n in rep.atoms.items():
        if n in inv:
            m[k] = keylin(inv[n], k[2])
    pend = []
    for a, b in zip(rep.slots, C.slots):
        if isinstance(a, int):
            if not (isinstance(b, int) and a == b):
                return False
        else:
            pend.append((a, b))
    for rounds in range(len(pend) + 1):
        rest = []
        for a, b in pend:
            w = a.w
            acc = b
            un = []
            for k, c in a.t:
                if k[0] == 'a' and isinstance(k[1], int):
                    v = m.get(k)
                    if v is None:
                        un.append((k, c))
                    else:
                        acc = sub(w, acc, scale(w, rew2(v, w), c))
                elif k[0] == 'a':
                    acc = sub(w, acc, Lin(w, frozenset([(k, c)]), 0))
                else:
                    kk = subkey(k, m)
                    if kk is None:
                        return False
                    acc = sub(w, acc, Lin(w, frozenset([(kk, c)]), 0))
            acc = sub(w, acc, a.c & ((1 << w) - 1))
            if not un:
                acc = st.simp(acc)
                if acc != 0:
                    return False
            elif len(un) == 1:
                k, c = un[0]
                acc = st.simp(acc)
                q = divlin(acc, c, w)
                if q is None:
                    return False
                m[k] = q
            else:
                rest.append((a, b))
        if not rest:
            break
        if len(rest) == len(pend):
            # underdetermined: guess by equal terms (the guess is checked like any other)
            a, b = rest[0]
            if not isinstance(b, Lin):
                return False
            bt = dict(b.t)
            for k, c in sorted(a.t, key=_order):
                if k[0] == 'a' and isinstance(k[1], int) and k not in m:
                    if bt.get(k) == c:
                        hit = k
                    else:
                        hit = next((q for q, d in sorted(b.t, key=_order) if d == c and q[0] == 'a'), None)
                        if hit is None:
                            return False
                    m[k] = keylin(hit, k[2])
                    break
            else:
                return False
        pend = rest
    # constraints of rep must hold in st
    for k, iv in rep.rng.items():
        if k[0] == 'a':
            if isinstance(k[1], int):
                v = m.get(k)
                if v is None:
                    continue
                if isinstance(v, int):
                    x = v if v < (1 << 63) else v - (1 << 64)
                    if not any(a <= x <= b for a, b in iv):
                        return False
                    continue
                h = st.hull(v)
                if len(v.t) == 1 and v.c == 0 and next(iter(v.t))[1] == 1:
                    r = st.keyrng(next(iter(v.t))[0])
                    if iv_and(r, iv) != r:
                        return False
                elif not any(a <= h[0] and h[1] <= b for a, b in iv):
                    return False
            else:
                if k in st.sub:
                    v = st.simp(keylin(k, k[2]))
                    r = st.ranges(v)
                else:
                    r = st.keyrng(k)
                if iv_and(r, iv) != r:
                    return False
        else:
            kk = subkey(k, m)
            if kk is None:
                continue
            r = st.keyrng(kk)
            if iv_and(r, iv) != r:
                return False
    for ft, (lo, hi) in rep.forms.items():
        acc = {}
        c = 0
        ok = True
        for k, mm in ft:
            if k[0] == 'a' and isinstance(k[1], int):
                v = m.get(k)
                if v is None:
                    ok = False
                    break
                v = st.simp(v) if isinstance(v, Lin) else v
                if isinstance(v, int):
                    c += mm * (v if v < (1 << 63) else v - (1 << 64))
                else:
                    c += mm * v.c
                    for k2, m2 in v.t:
                        acc[k2] = acc.get(k2, 0) + mm * m2
            else:
                kk = k if k[0] == 'a' else subkey(k, m)
                if kk is None:
                    ok = False
                    break
                v = st.simp(keylin(kk, 64))
                if isinstance(v, int):
                    c += mm * v
                else:
                    c += mm * v.c
                    for k2, m2 in v.t:
                        acc[k2] = acc.get(k2, 0) + mm * m2
        if not ok:
            continue
        t = mkset(acc)
        h = st.hullt(t, c) if t else (c, c)
        if not (lo <= h[0] and h[1] <= hi):
            return False
    return True


def rew2(v, w):
    if isinstance(v, int):
        return v & ((1 << w) - 1)
    return v if v.w == w else mk(w, dict(v.t), v.c)


def subkey(k, m):
    if k[0] == 'a':
        if isinstance(k[1], str):
            return k
        v = m.get(k)
        if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0:
            (k2, c), = v.t
            if c == 1:
                return k2
        return None
    if k[0] == 'sl':
        b = sublin(k[1], m)
        return None if b is None else ('sl', b, k[2], k[3])
    na = []
    for x in k[3:]:
        if isinstance(x, Lin):
            y = sublin(x, m)
            if y is None:
                return None
            na.append(y)
        else:
            na.append(x)
    return k[:3] + tuple(na)


def sublin(v, m):
    d = {}
    for k, c in v.t:
        kk = subkey(k, m)
        if kk is None:
            return None
        d[kk] = d.get(kk, 0) + c
    return mk(v.w, d, v.c)


def divlin(v, c, w):
    if c == 1:
        return v
    if c == -1:
        return scale(w, v, -1)
    if isinstance(v, int):
        x = cen(v, w)
        return (x // c) & ((1 << w) - 1) if x % c == 0 else None
    if v.c % c or any(mm % c for _, mm in v.t):
        return None
    return mk(w, {k: mm // c for k, mm in v.t}, v.c // c)


def threshold(w, *rs, mark=None):
    """the smallest range bounded by landmarks that holds all given unsigned interval sets"""
    H = 1 << (w - 1)
    M = 1 << w
    for r in rs:
        if all(iv_and(q, r) == q for q in rs):
            return r
    his = max(r[-1][1] for r in rs)
    mark = set(mark) if mark and w == 64 else {(1 << n) - 1 for n in (7, 8, 15, 16, 31, 32, 63)}
    mark.add(H)
    low = {0, H, M - H // 2}
    for tw, b in S.THR:
        if tw == w:
            mark |= {b - 1, b, (b + 1) % M}
            low |= {b - 1, b, (b + 1) % M}
    if his <= H:
        return ((0, min(x for x in mark if x >= his)),)
    neg = [b for r in rs for a, b in r if b < H]
    lo = [a for r in rs for a, b in r if a >= H]
    if len(lo) + len(neg) != sum(len(r) for r in rs):
        return None
    x = max(x for x in low if x >= H and x <= min(lo))
    if not neg:
        return ((x, M - 1),)
    if max(neg) == 0:
        return ((0, 0), (x, M - 1))
    return None


def affine(w, a0, b0, a, b):
    """(q, r) with a == q*a0 + r and b == q*b0 + r, if there are any"""
    qs = [1, -1, 10, -10, 2, 4, 8, 16]
    if all(isinstance(x, int) for x in (a0, b0, a, b)) and b0 != a0:
        d, d0 = cen(sub(w, b, a), w), cen(sub(w, b0, a0), w)
        qs = [d // d0] if d % d0 == 0 and 0 < abs(d // d0) < 1 << 16 else []
    else:
        d, d0 = sub(w, b, a), sub(w, b0, a0)
        if isinstance(d, int) and isinstance(d0, int) and d0:
            d, d0 = cen(d, w), cen(d0, w)
            if d % d0 == 0 and 0 < abs(d // d0) < 1 << 16:
                ra, rb = sub(w, a, scale(w, a0, d // d0)), sub(w, b, scale(w, b0, d // d0))
                if ra == rb:
                    return d // d0, ra
        elif isinstance(d, Lin) and isinstance(d0, Lin):
            k, m0 = next(iter(d0.t))
            m1 = dict(d.t).get(k, 0)
            if m1 and m1 % m0 == 0 and abs(m1 // m0) < 1 << 16 and d == scale(w, d0, m1 // m0):
                return m1 // m0, sub(w, a, scale(w, a0, m1 // m0))
    for q in qs:
        ra, rb = sub(w, a, scale(w, a0, q)), sub(w, b, scale(w, b0, q))
        if isinstance(ra, int) and ra == rb:
            return q, ra
    return None


def widen(it, rep, C, hard, rep0=None):
    """generalise state C.st (same skeleton as rep) so that both are covered; in place"""
    st = C.st
    st0 = st.fork() if it.zones else None
    groups = {}
    subs = []
    T = None

    old = list(rep.slots)
    new = list(C.slots)
    # map rep's skeleton atoms to ours
    m = {}
    inv = {n: k for k, n in C.atoms.items()}
    for k, n in rep.atoms.items():
        if n in inv:
            m[k] = keylin(inv[n], k[2])
    repl = {}
    ext = []
    for i, (a, b) in enumerate(zip(old, new)):
        a2 = a
        if isinstance(a, Lin):
            acc = {}
            bad = False
            for k, c in a.t:
                if k[0] == 'a' and isinstance(k[1], int) and k in m and isinstance(m[k], Lin):
                    (k2, _), = m[k].t
                    acc[k2] = acc.get(k2, 0) + c
                else:
                    acc[k] = acc.get(k, 0) + c
            a2 = mk(a.w, acc, a.c)
        if a2 == b:
            continue
        w = C.slotw[i]
        d = sub(64, b, a2) if w == 64 else None
        if C.slotw[i] == 32:
            d = None
        if it.widen_ok and rep0 is not None and isinstance(d, int) and i < len(rep0.slots):
            # not moving by a constant step
            d0 = sub(64, a, rep0.slots[i])
            if d0 != d:
                d = None
        repl[i] = (a2, b, cen(d, 64) if isinstance(d, int) else None)
    if not repl:
        # only ranges / forms differ: join them below
        pass
    t = None
    newvals = {}
    done = []
    for i, (a, b, d) in repl.items():
        # slots that moved in step (one is a linear function of the other) stay in step
        for e in done:
            a0, b0, j, wd = e
            w = C.slotw[i]
            if w != wd:
                continue
            hit = affine(w, a0, b0, a, b)
            if hit and it.zones and hit[0] < 0:
                hit = None
            if hit:
                newvals[i] = add(w, scale(w, newvals[j], hit[0]), hit[1])
                break
            hit = affine(w, a, b, a0, b0) if it.widen_ok else None
            if hit and not (it.zones and hit[0] < 0) and isinstance(newvals[j], Lin) and len(newvals[j].t) == 1 and newvals[j].c == 0:
                (k0, m0), = newvals[j].t
                if m0 != 1 or k0[3:4] != ('W',):
                    continue
                f = st.fresh(w, threshold(w, rep.st.ranges(old[i]), st.ranges(b), mark=it.zones), tag='W')
                x = add(w, scale(w, f, hit[0]), hit[1])
                was = newvals[j]
                for q, v in list(newvals.items()):
                    if isinstance(v, Lin) and v.w == w and any(k == k0 for k, _ in v.t):
                        m1 = dict(v.t)[k0]
                        newvals[q] = add(w, sub(w, v, scale(w, was, m1)), scale(w, x, m1))
                newvals[i] = f
                break
        if i in newvals:
            continue
        if d is not None and not hard:
            if t is None:
                t = st.fresh(64, ((0, it.tmax),), tag='T')
            newvals[i] = add(64, a, scale(64, t, d))
        else:
            w = C.slotw[i]
            f = st.fresh(w, threshold(w, rep.st.ranges(old[i]), st.ranges(b), mark=it.zones) if it.widen_ok else None, tag='W')
            if not it.widen_ok:
                st.note(1, 'widened')
            newvals[i] = f
        done.append((a, b, i, C.slotw[i]))
    # range/forms: named and shared 64-bit atoms whose bounds moved
    newforms = []
    made = {k for v in newvals.values() if isinstance(v, Lin) for k, _ in v.t if k[3:4] in (('W',), ('T',)) and k not in rep.st.rng}
    for k, iv in list(st.rng.items()):
        if k[0] == 'a' and k[2] == 64 and k not in made:
            o = rep.rng.get(k)
            if o is None:
                o = rep.st.rng.get(k) or ((0, (1 << 64) - 1),)
            if o == iv:
                continue
            lo, hi = min(o[0][0], iv[0][0]), max(o[-1][1], iv[-1][1])
            if t is not None:
                if o[0][0] < iv[0][0]:
                    d = iv[0][0] - o[0][0]
                    newforms.append((keylin(k, 64), d, o[0][0]))
            st.rng[k] = ((lo, hi),)
    allk = set(st.forms) | set(rep.forms)
    for ft in list(st.forms):
        b = st.forms[ft]
        o = rep.forms.get(ft)
        if o is None:
            ng = frozenset((k, -mm) for k, mm in ft)
            if ng in rep.forms:
                x = rep.forms[ng]
                o = (-x[1], -x[0])
        if o is None:
            h = rep.st.hullt(ft, 0)
            o = h
        if o == b:
            continue
        if t is not None and o[0] < b[0] and o[0] > -(1 << 100):
            newforms.append((Lin(64, ft, 0), b[0] - o[0], o[0]))
        if t is not None and b[0] < o[0] and b[0] > -(1 << 100):
            # bound moving down: x >= lo - d*t
            newforms.append((Lin(64, ft, 0), -(o[0] - b[0]), o[0]))
        st.forms[ft] = (min(o[0], b[0]), max(o[1], b[1]))
        if it.zones and (st.forms[ft][0] < -(1 << 63) and st.forms[ft][1] > 1 << 63):
            del st.forms[ft]
        elif st.forms[ft][0] < -(1 << 100) and st.forms[ft][1] > (1 << 100):
            del st.forms[ft]
    for v, d, lo in newforms:
        # v - d*t >= lo
        acc = dict(v.t)
        (tk, _), = t.t
        acc[tk] = acc.get(tk, 0) - d
        st.forms[mkset(acc)] = (lo, INF)
        if it.widen_ok and d > 0:
            hi = (st.hullt(v.t, v.c)[1] - lo) // d
            if 0 <= hi < st.keyrng(tk)[-1][1]:
                st.rng[tk] = ((0, hi),)
    if it.zones:
        zones(it, rep, C, st0, old, new, newvals)
    # apply new values
    Apply(it, C, newvals).run()
    return st


def zones(it, rep, C, st0, old, new, newvals):
    """differences between a generalised number and the others that both states bound are kept"""
    st = C.st
    simple = lambda v: isinstance(v, int) or len(v.t) == 1 and next(iter(v.t))[1] == 1
    js = {}
    for j, w in enumerate(C.slotw):
        v = newvals.get(j, new[j])
        if w == 64 and isinstance(v, Lin) and simple(v) and simple(old[j]) and simple(new[j]):
            js.setdefault(v, j)
    for i in newvals:
        f = newvals[i]
        if js.get(f) != i or f.c or next(iter(f.t))[0][3:4] != ('W',):
            continue
        for v, j in js.items():
            if v.t == f.t:
                continue
            b = []
            for s, x, y in ((rep.st, old[j], old[i]), (st0, new[j], new[i])):
                d = sub(64, x, y)
                b.append((cen(d, 64),) * 2 if isinstance(d, int) else s.hullt(d.t, cen(d.c, 64)))
            lo = next((z for z in (2, 1, 0, -1) if z <= min(b[0][0], b[1][0])), -INF)
            hi = next((z for z in (-2, -1, 0, 1) if z >= max(b[0][1], b[1][1])), INF)
            if lo == -INF and hi == INF:
                continue
            d = sub(64, v, f)
            c = cen(d.c, 64)
            ng = frozenset((k, -m) for k, m in d.t)
            lo1, hi1 = max(lo - c, -INF), min(hi - c, INF)
            if ng in st.forms:
                x = st.forms[ng]
                st.forms[ng] = (max(x[0], -hi1), min(x[1], -lo1))
            else:
                x = st.forms.get(d.t, (-INF, INF))
                st.forms[d.t] = (max(x[0], lo1), min(x[1], hi1))
            if lo != -INF:
                (kf, _), = f.t
                top = st.hullt(v.t, cen(v.c, 64))[1] - lo
                r = iv_and(st.keyrng(kf), ((0, top),)) if top >= 0 else None
                if r:
                    st.rng[kf] = r


class Apply:
    """write generalised slot values back, walking the state in the order Canon used"""

    def __init__(self, it, C, newvals):
        self.C = C
        self.it = it
        self.nv = newvals
        self.n = 0

    def take(self, v):
        i = self.n
        self.n += 1
        return self.nv.get(i, v)

    def run(self):
        W = _Writer(self.it, self.C.st, self.nv, self.C.s32)
        W.go()


class _Writer(Canon):
    """re-runs the canonical walk; every slot position is rewritten"""

    def __init__(self, it, st, nv, s32=False):
        self.nv = nv
        self.s32 = s32
        self.slotw = []
        self.spec = set()
        self.it = it
        self.st = st
        self.pin = pinned(st)
        self.regs = {}
        self.queue = []
        self.atoms = {}
        self.skel = []
        self.slots = []

    def nslot(self, v):
        i = len(self.slots)
        self.slots.append(v)
        return self.nv.get(i, v)

    def rw(self, v):
        """returns the rewritten value, visiting in Canon order"""
        if v is None or isinstance(v, (int, str, float)):
            return v
        if isinstance(v, Lin):
            self.lin(self.st.simp(v))
            return v
        if isinstance(v, Ptr):
            self.rid(v.r)
            if isinstance(v.o, int):
                return v
            n = self.nslot(v.o)
            return v if n is v.o else Ptr(v.r, n)
        if isinstance(v, Op):
            na = tuple(self.rw(x) for x in v.a)
            return v if all(a is b for a, b in zip(na, v.a)) else Op(v.n, *na)
        if isinstance(v, tuple):
            na = tuple(self.rw(x) for x in v)
            return v if all(a is b for a, b in zip(na, v)) else na
        if isinstance(v, list):
            return [self.rw(x) for x in v]
        if isinstance(v, frozenset):
            self.val(v)
            return v
        if isinstance(v, dict):
            r = dict(v)
            for k, x in sorted(v.items(), key=lambda t: repr(t[0])):
                r[k] = self.rw(x)
            return r
        if hasattr(v, 'canon'):
            return v.rewrite(self)
        return v

    def rww(self, v, w):
        if w == 64 and isinstance(v, (int, Lin)):
            if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and next(iter(v.t))[0][3:4] == ('str',):
                self.lin(self.st.simp(v))
                return v
            return self.nslot(v)
        if w == 32 and self.s32 and isinstance(v, (int, Lin)) and not self.pins(v):
            return self.nslot(v)
        return self.rw(v)

    def go(self):
        st = self.st
        fr = st.frames
        for i in range(len(fr)):
            f = st.frame(i)
            top = i == len(fr) - 1
            live = f.fn.live_at(f.b, f.ip) if top else f.fn.live_after(f.b, f.ip)
            for r in live:
                v = f.regs.get(r)
                if v is None:
                    continue
                if isinstance(v, (int, Lin)):
                    f.regs[r] = self.rww(v, f.fn.regw(r))
                else:
                    f.regs[r] = self.rw(v)
            if f.k:
                f.k = self.rw(f.k)
            if f.exk:
                f.exk = self.rw(f.exk)
            lp = f.regs.get(('lp',))
            if lp is not None:
                f.regs[('lp',)] = self.rw(lp)
        st.mon = self.rw(st.mon)
        st.exc = self.rw(st.exc)
        st.caught = self.rw(st.caught)
        q = self.queue
        i = 0
        while i < len(q):
            r = q[i]
            i += 1
            g = st.mem.get(r)
            if g is None:
                continue
            if g.kind == 'global' and g.info and self.it.mod.globals.get(g.info[1:], {}).get('const'):
                continue
            if not g.alive:
                continue
            g = st.wreg(r)
            g.lazy = self.rw(g.lazy)
            if g.size is not None and not isinstance(g.size, int):
                g.size = self.nslot(g.size)
            cells = {}
            io = [o for o in g.cells if isinstance(o, int)]
            io.sort()
            for o in io:
                v, s = g.cells[o]
                cells[o] = (self.rww(v, s * 8) if isinstance(v, (int, Lin)) else self.rw(v), s)
            for o, c in g.cells.items():
                if isinstance(o, int):
                    continue
                if isinstance(o, tuple):
                    no = o if isinstance(o[1], int) else ('M', self.nslot(o[1]))
                    cells[no] = tuple(self.mrw(x) for x in c)
                else:
                    no = self.nslot(o)
                    cells[no] = (self.rww(c[0], c[1] * 8) if isinstance(c[0], (int, Lin)) else self.rw(c[0]), c[1])
            g.cells = cells

    def mrw(self, x):
        if isinstance(x, int) and not isinstance(x, bool):
            return self.nslot(x)
        if isinstance(x, Lin):
            if len(x.t) == 1 and next(iter(x.t))[0][3:4] == ('str',):
                self.lin(self.st.simp(x))
                return x
            return self.nslot(x)
        return self.rw(x)


STRICT = bool(os.environ.get('VERIF_STRICT'))


THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'


class Explorer:
    def __init__(self, it, keep=2, soft=8, budget=600, fifo=False):
        self.it = it
        self.fifo = fifo
        self.keep = keep
        self.soft = soft
        self.seen = {}
        self.mkc = {}
        self.t0 = time.time()
        self.budget = budget
        self.incomplete = None
        it.headhook = self.head
        it.explorer = self

    def head(self, it, st):
        if it.gc is not None:
            it.gc(st)
        if it.progress is not None:
            it.progress.head(st)
        for f in st.frames:
            sc = f.fn.scratch
            if sc:
                for r, b in sc.items():
                    p = f.regs.get(r)
                    if b != f.b and isinstance(p, Ptr) and p.r in st.mem and st.mem[p.r].cells:
                        st.wreg(p.r).cells.clear()
        C = Canon(it, st)
        it.stats['heads'] += 1
        if it.slot32_after:
            k = C.mk
            n = self.mkc.get(k, 0)
            if n > it.slot32_after:
                C = Canon(it, st, True)
            elif C.sk not in self.seen:
                self.mkc[k] = n + 1
        reps = self.seen.get(C.sk)
        if reps is None:
            self.seen[C.sk] = [Rep(C)]
            it.stats['states'] += 1
            return self.protect(st)
        for r in reversed(reps):
            if subsumed(r, C, None):
                it.stats['merged'] += 1
                return None
        if len(reps) >= self.keep:
            hard = len(reps) >= self.soft
            if len(reps) > self.soft + 12:
                self.incomplete = self.incomplete or 'widening did not stabilise at %s' % it.where(st)[:3]
                return None
            if hard or not self.covers(C, reps[-1]):
                widen(it, reps[-1], C, hard, reps[-2] if len(reps) > 1 else None)
                it.stats['widened'] += 1
                C = Canon(it, st, C.s32)
                reps = self.seen.setdefault(C.sk, [])
                for r in reversed(reps):
                    if subsumed(r, C, None):
                        it.stats['merged'] += 1
                        return None
        reps.append(Rep(C))
        it.stats['states'] += 1
        return self.protect(st)

    def covers(self, C, rep):
        """is the new state already a generalisation of rep (made at another loop head)?"""
        if not any(isinstance(v, Lin) and any(k[3:4] in (('T',), ('W',)) for k, _ in v.t) for v in C.slots):
            return False
        C0 = Canon(self.it, rep.st, C.s32)
        return C0.sk == C.sk and subsumed(Rep(C), C0, None)

    def protect(self, st):
        """the Rep keeps a reference to st: continue with a fork so it stays unchanged"""
        return st.fork()

    def point(self, st):
        """explicit merge point (used by models); returns False when already covered"""
        return self.head(self.it, st)

    only = None

    def found(self):
        return any(self.only is None or v['rule'] in self.only for v in self.it.violations.values())

    def run(self, init):
        work = list(init)
        it = self.it
        n = 0
        while work:
            st = work.pop(0 if self.fifo else -1)
            try:
                work.extend(it.run(st))
            except (AnalysisError, RecursionError, KeyError, TypeError, AttributeError, ValueError, IndexError, AssertionError) as e:
                # this path is not decided; the others are
                if STRICT:
                    raise
                k = 'undecided path: %s %s' % (type(e).__name__, str(e)[:120])
                it.notes[k] = it.notes.get(k, 0) + 1
            n += 1
            if n % 64 == 0:
                t = time.time() - self.t0
                if t > self.budget or t > 60 and not THOROUGH and self.found():
                    self.incomplete = 'time budget' if t > self.budget else 'stopped at the violations found'
                    return


class Num:
    """a number of the property automaton: compared and generalised like program data"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def canon(self, C):
        return ('num', C.slot(self.v))

    def rewrite(self, W):
        n = W.nslot(self.v)
        return self if n is self.v else Num(n)

    def __repr__(self):
        return 'Num(%r)' % (self.v,)


class Chr(Num):
    """a character delivered and not yet interpreted"""
    __slots__ = ()

    def canon(self, C):
        return ('chr', C.val(self.v))

    def rewrite(self, W):
        n = W.rw(self.v)
        return self if n is self.v else Chr(n)
