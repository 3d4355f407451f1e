"""Abstract values: integers modulo 2^w as linear forms over atoms and bit slices,
pointers as (region, offset), opaque terms.  No solver: everything is decided by
interval arithmetic on atoms, on slices and on remembered linear forms."""


class Lin:
    """sum(coef*key) + c  modulo 2^w.  Never a constant (constants are Python ints)."""
    __slots__ = ('w', 't', 'c', 'h')

    def __init__(self, w, t, c):
        self.w = w
        self.t = t
        self.c = c
        self.h = hash((w, t, c))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.w == o.w and self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        s = '+'.join('%s%s' % ('' if k == 1 else '%d*' % k, keystr(a)) for a, k in self.t)
        return '%s%s:%d' % (s, '' if self.c == 0 else '%+d' % self.c, self.w)


def keystr(k):
    if k[0] == 'a':
        return 'x%s' % (k[1],)
    if k[0] == 'sl':
        return '%r[%d+%d]' % (k[1], k[2], k[3])
    return '%s(%s)' % (k[2], ','.join(map(repr, k[3:])))


class Ptr:
    __slots__ = ('r', 'o', 'h')

    def __init__(self, r, o):
        self.r = r
        self.o = o
        self.h = hash((r, o, 'P'))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Ptr) and self.r == o.r and self.o == o.o)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return '&%s+%r' % (self.r, self.o)


class Fn:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return hash(self.n)

    def __eq__(self, o):
        return isinstance(o, Fn) and o.n == self.n

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return 'fn:' + self.n


class Op:
    """opaque non-integer term (floats and such)"""
    __slots__ = ('n', 'a', 'h', 'd')

    def __init__(self, n, *a):
        self.n = n
        self.a = a
        self.h = hash((n, a))
        self.d = 1 + max([x.d for x in a if isinstance(x, Op)] + [0])

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Op) and self.h == o.h and self.n == o.n and self.a == o.a)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return '%s(%s)' % (self.n, ','.join(map(repr, self.a)))


UNDEF = Op('undef')


def cen(v, w):
    """centred representative mod 2^w"""
    m = 1 << w
    v &= m - 1
    return v - m if v >> (w - 1) else v


def mk(w, d, c):
    """build from dict key->coef"""
    m = (1 << w) - 1
    t = {}
    for k, v in d.items():
        v = cen(v, w)
        if v:
            t[k] = v
    if not t:
        return c & m
    if len(t) > 1:
        _merge(t, w)
    return Lin(w, frozenset(t.items()), cen(c, w))


def _merge(t, w):
    """c*slice(b,lo,n) + c*2^n*slice(b,lo+n,m) -> c*slice(b,lo,n+m)"""
    again = True
    while again:
        again = False
        sl = [(k, c) for k, c in t.items() if k[0] == 'sl']
        if len(sl) < 2:
            return
        for k1, c1 in sl:
            for k2, c2 in sl:
                if k1 is k2 or k1[1] != k2[1] or k2[2] != k1[2] + k1[3]:
                    continue
                if cen(c1 << k1[3], w) == c2:
                    del t[k1], t[k2]
                    nk = ('sl', k1[1], k1[2], k1[3] + k2[3])
                    t[nk] = t.get(nk, 0) + c1
                    if not t[nk]:
                        del t[nk]
                    again = True
                    break
            if again:
                break


def atom(id, w):
    return Lin(w, frozenset([(('a', id, w, ''), 1)]), 0)


def keylin(k, w):
    return Lin(w, frozenset([(k, 1)]), 0)


def add(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & ((1 << w) - 1)
    if isinstance(a, int):
        return Lin(w, b.t, cen(b.c + a, w))
    if isinstance(b, int):
        return Lin(w, a.t, cen(a.c + b, w))
    d = dict(a.t)
    for k, v in b.t:
        d[k] = d.get(k, 0) + v
    return mk(w, d, a.c + b.c)


def scale(w, a, k):
    if isinstance(a, int):
        return (a * k) & ((1 << w) - 1)
    return mk(w, {x: v * k for x, v in a.t}, a.c * k)


def sub(w, a, b):
    return add(w, a, scale(w, b, -1))


# ---- interval sets: tuples of disjoint sorted (lo,hi)

def iv_and(a, b):
    r = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            r.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(r)


def iv_not(a, lo, hi):
    r = []
    p = lo
    for x, y in a:
        if x > p:
            r.append((p, x - 1))
        p = max(p, y + 1)
    if p <= hi:
        r.append((p, hi))
    return iv_and(tuple(r), ((lo, hi),)) if r else ()


def iv_norm(a):
    r = []
    for x, y in sorted(a):
        if x > y:
            continue
        if r and x <= r[-1][1] + 1:
            r[-1] = (r[-1][0], max(r[-1][1], y))
        else:
            r.append((x, y))
    return tuple(r)


def iv_shift(a, k, m):
    """(a+k) mod m for a within [0,m)"""
    r = []
    for x, y in a:
        x += k
        y += k
        if y - x + 1 >= m:
            return ((0, m - 1),)
        x %= m
        y %= m
        if x <= y:
            r.append((x, y))
        else:
            r.append((x, m - 1))
            r.append((0, y))
    return iv_norm(r)
