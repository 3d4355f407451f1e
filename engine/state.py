"""Abstract state: stack frames, memory regions, numeric environment.

The numeric domain is non-relational interval sets per key (atom, bit slice, opaque term)
plus a table of interval bounds for multi-term linear forms.  No solver is involved."""
from math import gcd
from .values import *

BOT = 'bot'


class Region:
    __slots__ = ('cells', 'kind', 'alive', 'size', 'lazy', 'ep', 'info')

    def __init__(self, kind, size, lazy, ep, info=None):
        self.cells = {}
        self.kind = kind
        self.alive = True
        self.size = size
        self.lazy = lazy
        self.ep = ep
        self.info = info

    def copy(self, ep):
        r = Region.__new__(Region)
        r.cells = dict(self.cells)
        r.kind = self.kind
        r.alive = self.alive
        r.size = self.size
        r.lazy = self.lazy
        r.ep = ep
        r.info = self.info
        return r


class Frame:
    __slots__ = ('fn', 'b', 'ip', 'regs', 'k', 'allocas', 'ep', 'exk', 'nsite')

    def __init__(self, fn, ep):
        self.fn = fn
        self.b = 0
        self.ip = 0
        self.regs = {}
        self.k = None
        self.exk = None
        self.allocas = ()
        self.ep = ep
        self.nsite = None

    def copy(self, ep):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.b = self.b
        f.ip = self.ip
        f.regs = dict(self.regs)
        f.k = self.k
        f.exk = self.exk
        f.allocas = self.allocas
        f.ep = ep
        f.nsite = self.nsite
        return f


_ep = [0]
_ids = [0]


def fresh_id():
    _ids[0] += 1
    return _ids[0]


def kwidth(k):
    if k[0] == 'a':
        return k[2]
    if k[0] == 'sl':
        return k[3]
    return k[1]


class State:
    __slots__ = ('frames', 'mem', 'rng', 'forms', 'sub', 'mon', 'exc', 'caught', 'imp', 'trace', 'ep', 'why', 'pend')

    def __init__(self):
        _ep[0] += 1
        self.ep = _ep[0]
        self.frames = []
        self.mem = {}
        self.rng = {}
        self.forms = {}
        self.sub = {}
        self.mon = {}
        self.exc = None
        self.caught = ()
        self.imp = 0
        self.why = None
        self.trace = None
        self.pend = None

    def fork(self):
        n = State.__new__(State)
        _ep[0] += 2
        n.ep = _ep[0]
        self.ep = _ep[0] - 1
        n.frames = list(self.frames)
        n.mem = dict(self.mem)
        n.rng = dict(self.rng)
        n.forms = dict(self.forms)
        n.sub = dict(self.sub)
        n.mon = dict(self.mon)
        n.exc = self.exc
        n.caught = self.caught
        n.imp = self.imp
        n.why = self.why
        n.trace = self.trace
        n.pend = self.pend
        return n

    # ---- frames
    def top(self):
        f = self.frames[-1]
        if f.ep != self.ep:
            f = f.copy(self.ep)
            self.frames[-1] = f
        return f

    def frame(self, i):
        f = self.frames[i]
        if f.ep != self.ep:
            f = f.copy(self.ep)
            self.frames[i] = f
        return f

    # ---- memory
    def new_region(self, kind, size=None, lazy=('undef',), info=None, name=None):
        r = name if name is not None else fresh_id()
        self.mem[r] = Region(kind, size, lazy, self.ep, info)
        return r

    def wreg(self, r):
        g = self.mem[r]
        if g.ep != self.ep:
            g = g.copy(self.ep)
            self.mem[r] = g
        return g

    def note(self, level, why):
        if level > self.imp:
            self.imp = level
            self.why = why

    # ---- numeric environment
    def fresh(self, w, ivs=None, tag='', name=None):
        k = ('a', name if name is not None else fresh_id(), w, tag)
        if ivs is not None:
            if len(ivs) == 1 and ivs[0][0] == ivs[0][1]:
                return ivs[0][0]
            self.rng[k] = ivs
        return Lin(w, frozenset([(k, 1)]), 0)

    def keyrng(self, k):
        r = self.rng.get(k)
        if r is not None:
            return r
        if k[0] == 'sl':
            lo, hi = self.hull(k[1])
            top = 1 << (k[2] + k[3])
            if 0 <= lo and hi < top:
                return ((lo >> k[2], hi >> k[2]),)
            return ((0, (1 << k[3]) - 1),)
        if k[0] == 'op' and k[2] == 'udiv' and isinstance(k[4], int):
            lo, hi = self.hull(k[3])
            if lo >= 0:
                return ((lo // k[4], hi // k[4]),)
        if k[0] == 'op' and k[2] == 'urem' and isinstance(k[4], int):
            return ((0, k[4] - 1),)
        return ((0, (1 << kwidth(k)) - 1),)

    def simp(self, v):
        """apply substitutions"""
        if not self.sub or not isinstance(v, Lin):
            return v
        sub = self.sub
        for k, c in v.t:
            if k in sub or k[0] != 'a':
                break
        else:
            return v
        r = v.c
        w = v.w
        ch = False
        acc = {}
        for k, c in v.t:
            n = self.simpkey(k, w)
            if n is k:
                acc[k] = acc.get(k, 0) + c
            elif isinstance(n, int):
                r += n * c
                ch = True
            else:
                ch = True
                r += n.c * c
                for k2, c2 in n.t:
                    acc[k2] = acc.get(k2, 0) + c2 * c
        if not ch:
            return v
        return mk(w, acc, r)

    def simpkey(self, k, w):
        n = self.sub.get(k)
        if n is not None:
            return self.simp(n)
        if k[0] == 'sl':
            b = self.simp(k[1])
            if b is not k[1]:
                r = slice_(self, b, k[2], k[3])
                return r
        elif k[0] == 'op' and len(k) > 3:
            ch = False
            na = []
            for a in k[3:]:
                b = self.simp(a) if isinstance(a, Lin) else a
                ch = ch or b is not a
                na.append(b)
            if ch:
                if all(isinstance(x, int) for x in na):
                    f = CONSTOP.get(k[2])
                    if f:
                        return f(k[1], *na)
                nk = k[:3] + tuple(na)
                if k in self.rng and nk not in self.rng:
                    self.rng[nk] = self.rng[k]
                return keylin(nk, w)
        return k

    def hull(self, v):
        """mathematical interval of the linear sum (not reduced mod 2^w)"""
        if isinstance(v, int):
            return v, v
        return self.hullt(v.t, v.c)

    def hullt(self, t, c):
        if len(t) == 1:
            for k, m in t:
                r = self.rng.get(k)
                if r is None:
                    r = self.keyrng(k)
                a, b = r[0][0], r[-1][1]
                return (c + m * a, c + m * b) if m >= 0 else (c + m * b, c + m * a)
        lo = hi = c
        for k, m in t:
            r = self.keyrng(k)
            a, b = r[0][0], r[-1][1]
            if m >= 0:
                lo += m * a
                hi += m * b
            else:
                lo += m * b
                hi += m * a
        if self.forms:
            f = self.form(t)
            if f is not None:
                lo = max(lo, f[0] + c)
                hi = min(hi, f[1] + c)
            if len(t) > 2:
                td = dict(t)
                n = len(t)
                for ft, (a, b) in self.forms.items():
                    if len(ft) >= n:
                        continue
                    s = 0
                    for k, m in ft:
                        x = td.get(k)
                        if x is None or x % m:
                            s = 0
                            break
                        if s == 0:
                            s = x // m
                        elif s * m != x:
                            s = 0
                            break
                    if s:
                        l2, h2 = self.hullt(t - frozenset((k, s * m) for k, m in ft), c)
                        if s > 0:
                            lo = max(lo, s * a + l2)
                            hi = min(hi, s * b + h2)
                        else:
                            lo = max(lo, s * b + l2)
                            hi = min(hi, s * a + h2)
            elif len(t) == 2:
                # one transitive step: x - y = (x - z) + (z - y)
                (k1, m1), (k2, m2) = t
                if m1 == -m2:
                    for ft, (a, b) in self.forms.items():
                        if len(ft) != 2:
                            continue
                        for s in (1, -1):
                            d = {k: m * s for k, m in ft}
                            aa, bb = (a, b) if s == 1 else (-b, -a)
                            if d.get(k1) == m1:
                                kz = [k for k in d if k != k1][0]
                                if kz != k2:
                                    rest = mkset({k2: m2, kz: -d[kz]})
                                    g = self.form(rest)
                                    if g:
                                        lo = max(lo, aa + g[0] + c)
                                        hi = min(hi, bb + g[1] + c)
                else:
                    # a weighted difference: m1 x + m2 y = s (x - y) + rest
                    for ft, (a, b) in self.forms.items():
                        d = dict(ft)
                        if len(d) != 2 or k1 not in d or k2 not in d:
                            continue
                        for s in {m1 // d[k1], m2 // d[k2]}:
                            if s == 0:
                                continue
                            l2, h2 = (s * a, s * b) if s > 0 else (s * b, s * a)
                            for k, m in ((k1, m1 - s * d[k1]), (k2, m2 - s * d[k2])):
                                r = self.keyrng(k)
                                x, y = m * r[0][0], m * r[-1][1]
                                l2 += min(x, y)
                                h2 += max(x, y)
                            lo = max(lo, l2 + c)
                            hi = min(hi, h2 + c)
        return lo, hi

    def form(self, t):
        f = self.forms.get(t)
        if f is not None:
            return f
        f = self.forms.get(frozenset((k, -m) for k, m in t))
        if f is not None:
            return -f[1], -f[0]
        g = 0
        for _, m in t:
            g = gcd(g, m)
            if g == 1:
                return None
        f = self.form(frozenset((k, m // g) for k, m in t))
        return f and (f[0] * g, f[1] * g)

    def ranges(self, v):
        """unsigned interval set of v mod 2^w"""
        if isinstance(v, int):
            return ((v, v),)
        if any(k in self.sub for k, _ in v.t):
            v = self.simp(v)
            if isinstance(v, int):
                return ((v, v),)
        w = v.w
        M = 1 << w
        if len(v.t) == 1:
            for k, m in v.t:
                r = self.keyrng(k)
                if m == 1:
                    if r[-1][1] >= M:
                        return ((0, M - 1),)
                    return iv_shift(r, v.c, M)
                if m == -1:
                    if r[-1][1] >= M:
                        return ((0, M - 1),)
                    q = tuple((-y % M, -max(x, 1) % M) for x, y in reversed(r) if y > 0)
                    return iv_shift((((0, 0),) if r[0][0] == 0 else ()) + q, v.c, M)
        lo, hi = self.hull(v)
        if hi - lo + 1 >= M:
            return ((0, M - 1),)
        a, b = lo % M, hi % M
        if a <= b:
            return ((a, b),)
        return ((0, b), (a, M - 1))

    def const(self, v):
        v = self.simp(v)
        return v

    def setrng(self, k, ivs):
        """intersect the range of key k; returns False if empty"""
        cur = self.keyrng(k)
        n = iv_and(cur, ivs)
        if not n:
            return False
        if n == cur:
            return True
        if len(n) == 1 and n[0][0] == n[0][1]:
            return self.subst(k, n[0][0])
        self.rng[k] = n
        if k[0] == 'sl' and not self.slbase(k, n):
            return False
        if self.forms:
            return self.propagate(k)
        return True

    def slbase(self, k, ivs):
        """the value of a slice of an atom restricts the atom"""
        b, lo, n = k[1], k[2], k[3]
        if len(b.t) != 1 or b.c:
            return True
        (bk, m), = b.t
        if m != 1 or bk[0] != 'a' or bk in self.sub:
            return True
        cur = self.keyrng(bk)
        if cur[-1][1] < 1 << (lo + n):
            return self.setrng(bk, iv_norm([(x << lo, (y << lo) + (1 << lo) - 1) for x, y in ivs]))
        if sum(y - x + 1 for x, y in cur) <= 4096:
            mask = (1 << n) - 1
            keep = []
            for x, y in cur:
                for v in range(x, y + 1):
                    q = v >> lo & mask
                    if any(p <= q <= r for p, r in ivs):
                        keep.append((v, v))
            return bool(keep) and self.setrng(bk, iv_norm(keep))
        return True

    def recanon(self, v):
        """name slices according to what is known now"""
        if not isinstance(v, Lin) or not any(k[0] == 'sl' for k, _ in v.t):
            return v
        acc, r = {}, v.c
        for k, c in v.t:
            if k[0] == 'sl':
                n = slice_(self, k[1], k[2], k[3])
                if isinstance(n, int):
                    r += n * c
                    continue
                r += n.c * c
                for k2, c2 in n.t:
                    acc[k2] = acc.get(k2, 0) + c2 * c
            else:
                acc[k] = acc.get(k, 0) + c
        return mk(v.w, acc, r)

    def propagate(self, k0):
        for ft, (a, b) in list(self.forms.items()):
            if len(ft) > 6:
                continue
            if not any(k == k0 for k, _ in ft):
                continue
            if not self._prop1(ft, a, b):
                return False
        return True

    def _prop1(self, ft, a, b):
        # sum m_i k_i in [a,b]; tighten each key
        items = list(ft)
        hs = []
        tl = th = 0
        for k, m in items:
            r = self.keyrng(k)
            lo, hi = m * r[0][0], m * r[-1][1]
            if lo > hi:
                lo, hi = hi, lo
            hs.append((lo, hi))
            tl += lo
            th += hi
        if tl > b or th < a:
            return False
        if a <= tl and th <= b:
            return True
        for i, (k, m) in enumerate(items):
            lo, hi = a - (th - hs[i][1]), b - (tl - hs[i][0])
            if m < 0:
                lo, hi = -hi, -lo
            am = abs(m)
            lo = -((-lo) // am)
            hi = hi // am
            cur = self.keyrng(k)
            n = iv_and(cur, ((lo, hi),)) if lo <= hi else ()
            if not n:
                return False
            if n != cur:
                if len(n) == 1 and n[0][0] == n[0][1]:
                    if not self.subst(k, n[0][0]):
                        return False
                    return True
                self.rng[k] = n
        return True

    def subst(self, k, v):
        """k := v (int or Lin not containing k)"""
        r = self.rng.pop(k, None)
        self.sub[k] = v
        if isinstance(v, int):
            if r is not None and not any(a <= v <= b for a, b in r):
                return False
            if k[0] == 'sl' and not self.slbase(k, ((v, v),)):
                return False
        else:
            if r is not None:
                if len(v.t) == 1:
                    (k2, m), = v.t
                    if m == 1:
                        if not self.setrng(k2, tuple((a - v.c, b - v.c) for a, b in r)):
                            return False
        # rewrite forms
        for ft in list(self.forms):
            if any(x == k for x, _ in ft):
                a, b = self.forms.pop(ft)
                acc = {}
                c = 0
                for x, m in ft:
                    if x == k:
                        if isinstance(v, int):
                            c += m * v
                        else:
                            c += m * v.c
                            for y, m2 in v.t:
                                acc[y] = acc.get(y, 0) + m * m2
                    else:
                        acc[x] = acc.get(x, 0) + m
                if not self.addform(mkset(acc), a - c, b - c):
                    return False
        # ranges of slices / terms over k keep their own entries; reconcile them
        for x in list(self.rng):
            if x[0] != 'a' and x in self.rng:
                n = self.simpkey(x, kwidth(x))
                if n is not x:
                    rr = self.rng.pop(x)
                    self.sub[x] = n
                    if isinstance(n, int):
                        if not any(a <= n <= b for a, b in rr):
                            return False
                    elif len(n.t) == 1 and n.c == 0:
                        (k2, m), = n.t
                        if m == 1 and not self.setrng(k2, rr):
                            return False
        return True

    def addform(self, t, lo, hi):
        if not t:
            return lo <= 0 <= hi
        if len(t) == 1:
            (k, m), = t
            if m < 0:
                lo, hi, m = -hi, -lo, -m
            lo = -((-lo) // m)
            hi = hi // m
            return lo <= hi and self.setrng(k, ((max(lo, 0), hi),)) if hi >= 0 else False
        g = 0
        for _, m in t:
            g = gcd(g, m)
        if g > 1:
            t = frozenset((k, m // g) for k, m in t)
            lo, hi = -(-lo // g), hi // g
        h = self.hullt(t, 0)
        lo = max(lo, h[0])
        hi = min(hi, h[1])
        if lo > hi:
            return False
        ng = frozenset((k, -m) for k, m in t)
        if ng in self.forms:
            t, lo, hi = ng, -hi, -lo
        if lo == hi:
            for k, m in sorted(t, key=lambda x: 0 if (x[0][0] == 'a' and isinstance(x[0][1], int)) else 1):
                if m in (1, -1) and k[0] == 'a':
                    rest = [k2 for k2, _ in t if k2 != k]
                    if any(occurs(k, k2) for k2 in rest):
                        # k and a part of it: enumerate the part
                        if len(rest) == 1 and rest[0][0] == 'sl' and rest[0][1].t == ((k, 1),) or len(rest) == 1 and rest[0][0] == 'sl' and dict(rest[0][1].t) == {k: 1}:
                            s = rest[0]
                            c2 = dict(t)[s]
                            rr = self.keyrng(s)
                            if sum(b - a + 1 for a, b in rr) <= 64:
                                vals = []
                                for a, b in rr:
                                    for q in range(a, b + 1):
                                        x = m * (lo - c2 * q)
                                        if x >= 0 and ((x + s[1].c) >> s[2]) & ((1 << s[3]) - 1) == q:
                                            vals.append((x, x))
                                return bool(vals) and self.setrng(k, iv_norm(sorted(vals)))
                        continue
                    # k = m*(lo - rest)
                    d = {k2: -m2 * m for k2, m2 in t if k2 != k}
                    self.forms.pop(t, None)
                    return self.subst(k, mk(64, d, lo * m))
        self.forms[t] = (lo, hi)
        if len(t) <= 6:
            return self._prop1(t, lo, hi)
        return True


def occurs(k, k2):
    """k is part of the term k2"""
    if k == k2:
        return True
    if k2[0] == 'sl':
        return any(occurs(k, x) for x, _ in k2[1].t)
    if k2[0] == 'op':
        return any(isinstance(a, Lin) and any(occurs(k, x) for x, _ in a.t) for a in k2[3:])
    return False


def mkset(d):
    return frozenset((k, m) for k, m in d.items() if m)


def _sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


CONSTOP = {
    'mul': lambda w, a, b: (a * b) & ((1 << w) - 1),
    'udiv': lambda w, a, b: a // b if b else 0,
    'urem': lambda w, a, b: a % b if b else 0,
    'and': lambda w, a, b: a & b,
    'or': lambda w, a, b: a | b,
    'xor': lambda w, a, b: a ^ b,
    'shl': lambda w, a, b: (a << b) & ((1 << w) - 1) if b < w else 0,
    'lshr': lambda w, a, b: a >> b if b < w else 0,
    'ashr': lambda w, a, b: (_sgn(a, w) >> min(b, w - 1)) & ((1 << w) - 1),
    'sdiv': lambda w, a, b: _sdiv(w, a, b),
    'srem': lambda w, a, b: _srem(w, a, b),
}


def _sdiv(w, a, b):
    a, b = _sgn(a, w), _sgn(b, w)
    if b == 0:
        return 0
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    return q & ((1 << w) - 1)


def _srem(w, a, b):
    a, b = _sgn(a, w), _sgn(b, w)
    if b == 0:
        return 0
    r = abs(a) % abs(b)
    if a < 0:
        r = -r
    return r & ((1 << w) - 1)


# ---- arithmetic on abstract integers -------------------------------------------------

def slice_(st, x, lo, n):
    """bits [lo,lo+n) of x as an unsigned integer (value with width lo+n or more; caller sets width)"""
    if n <= 0:
        return 0
    if isinstance(x, int):
        return (x >> lo) & ((1 << n) - 1)
    W = lo + n
    M = 1 << W
    d = {}
    for k, m in x.t:
        m = cen(m, W)
        if m:
            d[k] = d.get(k, 0) + m
    c = x.c & (M - 1)
    if not d:
        return (c >> lo) & ((1 << n) - 1)
    if lo:
        step = 1 << lo
        hi_t = {k: m for k, m in d.items() if m % step == 0}
        lo_t = {k: m for k, m in d.items() if m % step}
        ch, cl = divmod(c, step)
        if not lo_t or (lambda h: 0 <= h[0] and h[1] < step)(st.hullt(frozenset(lo_t.items()), cl)):
            y = mk(max(n, 1), {k: m // step for k, m in hi_t.items()}, ch)
            return slice_(st, y, 0, n) if not isinstance(y, int) else y & ((1 << n) - 1)
    else:
        # whole value fits
        for cc in ((c,) if c == cen(c, W) else (c, cen(c, W))):
            h = st.hullt(frozenset(d.items()), cc)
            if 0 <= h[0] and h[1] < M:
                return Lin(64 if W <= 64 else W, frozenset(d.items()), cc)
    if len(d) == 1 and c == 0:
        (k, m), = d.items()
        if m == 1 and k[0] == 'sl':
            n2 = min(n, k[3] - lo)
            if n2 <= 0:
                return 0
            return slice_(st, k[1], k[2] + lo, n2)
        if m == 1 and lo == 0 and n >= kwidth(k):
            return Lin(64, frozenset(d.items()), 0)
        if m == 1 and k[0] == 'a' and W > kwidth(k):
            n = kwidth(k) - lo
            W = kwidth(k)
            if n <= 0:
                return 0
        if m == 1 and k[0] == 'a':
            kw = kwidth(k)
            if n < kw - lo and st.keyrng(k)[-1][1] < 1 << (lo + n):
                n = kw - lo     # the bits above are zero: name the whole upper part
            if n < 64:
                kb = keylin(k, kw)
                q0, q1 = st.keyrng(k)[0][0] >> lo, st.keyrng(k)[-1][1] >> lo
                if n == kw - lo and q0 == q1:
                    return q0
                return keylin(('sl', kb, lo, n), 64)
    # high part known to be constant over the range -> linear
    h = st.hullt(frozenset(d.items()), c)
    if lo == 0:
        q = h[0] // M
        if q == h[1] // M:
            return Lin(64, frozenset(d.items()), c - q * M)
    else:
        q0, q1 = h[0] >> lo, h[1] >> lo
        if q0 == q1:
            return q0 & ((1 << n) - 1)
    b = Lin(W, frozenset(d.items()), cen(c, W))
    return keylin(('sl', b, lo, n), 64)


def rew(v, w):
    """change the width tag of a value whose sum is already right"""
    if isinstance(v, int):
        return v & ((1 << w) - 1)
    if v.w == w:
        return v
    return mk(w, dict(v.t), v.c)


def bitmask(st, v, w):
    """superset of the bits that may be set"""
    full = (1 << w) - 1
    if isinstance(v, int):
        return v & full
    if v.c >= 0:
        m = v.c
        ok = True
        for k, c in v.t:
            if c <= 0 or c & (c - 1):
                ok = False
                break
            hi = st.keyrng(k)[-1][1]
            b = ((1 << hi.bit_length()) - 1) * c
            if b & m:
                ok = False
                break
            m |= b
        if ok and m <= full:
            return m
    lo, hi = st.hull(v)
    g = 0
    for k, c in v.t:
        g |= c
    g |= v.c
    z = (g & -g) - 1 if g else 0
    if lo >= 0 and hi <= full:
        return ((1 << hi.bit_length()) - 1) & ~z
    return full & ~z


def andconst(st, x, m, w):
    if isinstance(x, int):
        return x & m
    acc = 0
    i = 0
    bm = bitmask(st, x, w)
    if bm & ~m == 0:
        return x
    m &= bm
    while m >> i:
        if not (m >> i) & 1:
            i += 1
            continue
        j = i
        while (m >> j) & 1:
            j += 1
        s = rew(slice_(st, x, i, j - i), w)
        acc = add(w, acc, scale(w, s, 1 << i))
        i = j
    return acc


def opk(w, name, *a):
    return keylin(('op', w, name) + a, w)


def binop(st, op, w, a, b):
    """abstract integer operation; operands already simplified"""
    if isinstance(a, int) and isinstance(b, int):
        if op == 'add':
            return (a + b) & ((1 << w) - 1)
        if op == 'sub':
            return (a - b) & ((1 << w) - 1)
        return CONSTOP[op](w, a, b)
    if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
        if isinstance(a, Op) and a is UNDEF or isinstance(b, Op) and b is UNDEF:
            return UNDEF
        return opk(w, op, a, b)
    if op == 'add':
        return add(w, a, b)
    if op == 'sub':
        return sub(w, a, b)
    if op == 'mul':
        if isinstance(b, int):
            return scale(w, a, b)
        if isinstance(a, int):
            return scale(w, b, a)
        return opk(w, 'mul', *sorted((a, b), key=repr))
    if op == 'shl' and isinstance(b, int):
        return scale(w, a, 1 << b) if b < w else 0
    if op in ('lshr', 'udiv') and isinstance(b, int) and (op == 'lshr' or b & (b - 1) == 0) and b:
        if op == 'udiv':
            b = b.bit_length() - 1
        if b >= w:
            return 0
        return rew(slice_(st, a, b, w - b), w)
    if op == 'urem' and isinstance(b, int) and b and b & (b - 1) == 0:
        return andconst(st, a, b - 1, w)
    if op == 'and':
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            return andconst(st, a, b, w)
        if a == b:
            return a
        if bitmask(st, a, w) & bitmask(st, b, w) == 0:
            return 0
        return opk(w, 'and', *sorted((a, b), key=repr))
    if op == 'or':
        if bitmask(st, a, w) & bitmask(st, b, w) == 0:
            return add(w, a, b)
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            return add(w, a, (b - 0) if True and isinstance(andconst(st, a, b, w), int) and andconst(st, a, b, w) == 0 else sub(w, b, andconst(st, a, b, w)))
        if a == b:
            return a
        return opk(w, 'or', *sorted((a, b), key=repr))
    if op == 'xor':
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if b == (1 << w) - 1:
                return sub(w, b, a)
            return sub(w, add(w, a, b), scale(w, andconst(st, a, b, w), 2))
        if a == b:
            return 0
        return opk(w, 'xor', *sorted((a, b), key=repr))
    if op in ('sdiv', 'ashr') and isinstance(b, int):
        q = _sgn(b, w) if op == 'sdiv' else 1 << b
        if q == 1:
            return a
        h = st.hull(a)
        if q > 0 and all(m % q == 0 for _, m in a.t) and a.c % q == 0:
            return mk(w, {k: m // q for k, m in a.t}, a.c // q)
        if h[0] >= 0 and h[1] < 1 << (w - 1) and q > 0:
            return binop(st, 'udiv', w, a, q) if q & (q - 1) == 0 else opk(w, 'udiv', a, q)
        return opk(w, op, a, b)
    if op == 'udiv' and isinstance(b, int) and b:
        h = st.hull(a)
        if all(m % b == 0 for _, m in a.t) and a.c % b == 0 and h[0] >= 0:
            return mk(w, {k: m // b for k, m in a.t}, a.c // b)
        return opk(w, 'udiv', a, b)
    if op == 'srem' and isinstance(b, int):
        h = st.hull(a)
        if h[0] >= 0 and h[1] < 1 << (w - 1) and b > 0:
            return binop(st, 'urem', w, a, b)
    if op == 'urem' and isinstance(b, int) and b:
        h = st.hull(a)
        if 0 <= h[0] and h[1] < b:
            return a
    return opk(w, op, a, b)


def trunc(st, v, w):
    if isinstance(v, int):
        return v & ((1 << w) - 1)
    if not isinstance(v, Lin):
        return v if v is UNDEF else opk(w, 'trunc', v)
    return mk(w, dict(v.t), v.c)


def zext(st, v, fw, w):
    if isinstance(v, int):
        return v
    if not isinstance(v, Lin):
        return v if v is UNDEF else opk(w, 'zext', v)
    if fw == 1 and len(v.t) == 1:
        (k, m), = v.t
        if m & 1 and st.keyrng(k)[-1][1] <= 1:
            return keylin(k, w) if v.c & 1 == 0 else sub(w, 1, keylin(k, w))
    return rew(slice_(st, v, 0, fw), w)


def is_nonneg(st, v, w):
    r = st.ranges(v)
    return r[-1][1] < 1 << (w - 1)


# ---- comparisons ---------------------------------------------------------------------
SIGNED = {'slt': 'ult', 'sle': 'ule', 'sgt': 'ugt', 'sge': 'uge'}
NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'slt': 'sge', 'sge': 'slt',
       'sle': 'sgt', 'sgt': 'sle'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt',
        'sle': 'sge', 'sge': 'sle'}


def cmpconst(p, w, a, b):
    if p[0] == 's':
        a, b = _sgn(a, w), _sgn(b, w)
        p = SIGNED[p]
    return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[p]


def satset(p, w, c):
    """unsigned values v (mod 2^w) with v p c"""
    M = 1 << w
    if p == 'eq':
        return ((c, c),)
    if p == 'ne':
        return iv_norm(((0, c - 1), (c + 1, M - 1)))
    if p[0] == 's':
        s = _sgn(c, w)
        lo, hi = -(M >> 1), (M >> 1) - 1
        r = {'slt': (lo, s - 1), 'sle': (lo, s), 'sgt': (s + 1, hi), 'sge': (s, hi)}[p]
        if r[0] > r[1]:
            return ()
        out = []
        if r[0] < 0:
            out.append((r[0] + M, min(r[1], -1) + M))
        if r[1] >= 0:
            out.append((max(r[0], 0), r[1]))
        return iv_norm(out)
    r = {'ult': (0, c - 1), 'ule': (0, c), 'ugt': (c + 1, M - 1), 'uge': (c, M - 1)}[p]
    return (r,) if r[0] <= r[1] else ()


def assume_in(st, v, ivs):
    """restrict v (Lin) to the unsigned interval set; returns (ok, exact)"""
    w = v.w
    M = 1 << w
    if len(v.t) == 1:
        (k, m), = v.t
        cur = st.keyrng(k)
        if m in (1, -1) and cur[-1][1] < M:
            if m == 1:
                pre = iv_shift(ivs, -v.c, M)
            else:
                # value = c - key  -> key = c - value
                pre = iv_norm([p for x, y in ivs for p in _wrap(v.c - y, v.c - x, M)])
            return st.setrng(k, pre), True
        # general coefficient without wrap
        h = st.hull(v)
        if h[1] // M - h[0] // M <= 32:
            out = []
            for q in range(h[0] // M, h[1] // M + 1):
                for x, y in ivs:
                    lo, hi = x - v.c + q * M, y - v.c + q * M
                    if m < 0:
                        lo, hi = -hi, -lo
                    am = abs(m)
                    lo = -((-lo) // am)
                    hi = hi // am
                    if lo <= hi and hi >= 0:
                        out.append((max(lo, 0), hi))
            out.sort()
            return st.setrng(k, iv_norm(out)), True
        return True, False
    r = st.ranges(v)
    n = iv_and(r, ivs)
    if not n:
        return False, True
    h = st.hull(v)
    # normalise to the representative in [0,M)
    q = h[0] // M
    if q == h[1] // M:
        lo, hi = n[0][0] + q * M - v.c, n[-1][1] + q * M - v.c
        return st.addform(v.t, lo, hi), len(n) == 1
    if -(M >> 1) <= h[0] and h[1] < M >> 1:
        neg = [(x - M, y - M) for x, y in iv_and(n, ((M >> 1, M - 1),))]
        pos = iv_and(n, ((0, (M >> 1) - 1),))
        al = neg + list(pos)
        return st.addform(v.t, al[0][0] - v.c, al[-1][1] - v.c), len(al) == 1
    return True, False


def _wrap(lo, hi, M):
    if hi - lo + 1 >= M:
        return [(0, M - 1)]
    lo, hi = lo % M, hi % M
    if lo <= hi:
        return [(lo, hi)]
    return [(lo, M - 1), (0, hi)]


def mathrep(st, v, w, signed):
    """value as an unreduced linear sum in the (un)signed range, or None"""
    M = 1 << w
    if isinstance(v, int):
        return (frozenset(), _sgn(v, w) if signed else v)
    lo, hi = st.hull(v)
    L, H = (-(M >> 1), (M >> 1) - 1) if signed else (0, M - 1)
    q = (lo - L) // M
    if q == (hi - L) // M:
        return (v.t, v.c - q * M)
    return None


def common(st, d):
    """d divided by the greatest common divisor of its parts, when it cannot wrap and is worth dividing"""
    if len(d.t) < 2:
        return None
    g = 0
    for _, m in d.t:
        g = gcd(g, m)
    if g < 2 or d.c % g:
        return None
    lo, hi = st.hull(d)
    if lo <= -(1 << d.w) or hi >= 1 << d.w:
        return None
    return frozenset((k, m // g) for k, m in d.t), d.c // g


def simped(st, v):
    return st.simp(v) if isinstance(v, Lin) and any(k in st.sub for k, _ in v.t) else v


def decide(st, p, w, a, b):
    """True / False / None"""
    if isinstance(a, int) and isinstance(b, int):
        return cmpconst(p, w, a, b)
    if st.sub:
        a, b = simped(st, a), simped(st, b)
        if isinstance(a, int) and isinstance(b, int):
            return cmpconst(p, w, a, b)
    if p in ('eq', 'ne'):
        d = st.recanon(sub(w, a, b))
        if isinstance(d, int):
            return (d == 0) == (p == 'eq')
        r = st.ranges(d)
        if r[0][0] > 0:
            return p == 'ne'
        e = common(st, d)
        if e is not None:
            h = st.hullt(*e)
            if h[0] > 0 or h[1] < 0:
                return p == 'ne'
        return None
    if a == b:
        return p in ('ule', 'uge', 'sle', 'sge')
    if isinstance(a, int):
        a, b, p = b, a, SWAP[p]
    if isinstance(b, int):
        r = st.ranges(a)
        s = satset(p, w, b)
        n = iv_and(r, s)
        if not n:
            return False
        if n == r:
            return True
        return None
    s = p[0] == 's'
    x, y = mathrep(st, a, w, s), mathrep(st, b, w, s)
    if x is None or y is None:
        return None
    acc = dict(x[0])
    for k, m in y[0]:
        acc[k] = acc.get(k, 0) - m
    t = mkset(acc)
    lo, hi = st.hullt(t, x[1] - y[1]) if t else (x[1] - y[1],) * 2
    q = SIGNED.get(p, p)
    if q == 'ult':
        return True if hi < 0 else False if lo >= 0 else None
    if q == 'ule':
        return True if hi <= 0 else False if lo > 0 else None
    if q == 'ugt':
        return True if lo > 0 else False if hi <= 0 else None
    return True if lo >= 0 else False if hi < 0 else None


INF = 1 << 200
BIG = (1 << 58) - 1         # no container holds more elements (max_size)
THR = {(64, BIG)}        # large constants the program or the automaton compares with: landmarks for widening


def refine(st, p, w, a, b):
    """assume a p b in st (in place); returns False when contradictory"""
    if isinstance(a, int) and isinstance(b, int):
        return cmpconst(p, w, a, b)
    if p in ('eq', 'ne'):
        if isinstance(a, Lin) and isinstance(b, int):
            ok, ex = assume_in(st, a, satset(p, w, b))
            return ok
        if isinstance(b, Lin) and isinstance(a, int):
            ok, ex = assume_in(st, b, satset(p, w, a))
            return ok
        # two linear values
        x, y = mathrep(st, a, w, False), mathrep(st, b, w, False)
        if x is None or y is None:
            x, y = mathrep(st, a, w, True), mathrep(st, b, w, True)
        if x is None or y is None:
            d = sub(w, a, b)
            ok, ex = assume_in(st, d, satset(p, w, 0))
            if ok and not ex:
                st.note(1, 'comparison of wrapped values')
            return ok
        acc = dict(x[0])
        for k, m in y[0]:
            acc[k] = acc.get(k, 0) - m
        t = mkset(acc)
        c = x[1] - y[1]
        if not t:
            return (c == 0) == (p == 'eq')
        if len(t) > 1:
            g = c
            for _, m in t:
                g = gcd(g, m)
            if g > 1:
                t, c = frozenset((k, m // g) for k, m in t), c // g
        if p == 'eq':
            return st.addform(t, -c, -c)
        lo, hi = st.hullt(t, c)
        if lo == 0:
            lo = 1
        if hi == 0:
            hi = -1
        if lo > hi:
            return False
        return st.addform(t, lo - c, hi - c)
    if isinstance(a, int):
        a, b, p = b, a, SWAP[p]
    if isinstance(b, int):
        if b > 1 << 16 and len(THR) < 200:
            THR.add((w, b))
        ok, ex = assume_in(st, a, satset(p, w, b))
        if ok and not ex:
            st.note(1, 'range refinement lost')
        return ok
    s = p[0] == 's'
    x, y = mathrep(st, a, w, s), mathrep(st, b, w, s)
    if x is None or y is None:
        st.note(1, 'comparison of wrapped values')
        return True
    acc = dict(x[0])
    for k, m in y[0]:
        acc[k] = acc.get(k, 0) - m
    t = mkset(acc)
    c = x[1] - y[1]
    q = SIGNED.get(p, p)
    lo, hi = {'ult': (-INF, -1), 'ule': (-INF, 0), 'ugt': (1, INF), 'uge': (0, INF)}[q]
    if not t:
        return lo <= c <= hi
    return st.addform(t, lo - c, hi - c)
