"""Termination: between two visits of a loop head, either input is consumed or the loop is counted.

The loop heads visited since the last unit of input was consumed are carried in the state (so states are only merged when
they agree on them).  A head that is visited again without consumption lies on a cycle that makes no progress on the
input.  Such a cycle is endless when the state at both visits is the same, or when it goes on asking for input after the
end; it is fine when its loop is counted.  Recursion is allowed for nesting only."""
from .values import *
from .explore import Canon, SLOT


class Saved:
    """the state at the first visit; not part of the comparison of states"""

    def __init__(self, st):
        self.st = st

    def canon(self, C):
        return ('saved',)

    def rewrite(self, W):
        return self


def stackof(st):
    return tuple((f.fn.name, f.b, f.ip) for f in st.frames[:-1])


def loop(fn, head):
    """blocks of the natural loop with this head"""
    preds = {}
    for b in range(len(fn.blocks)):
        for s in fn.succs(b):
            preds.setdefault(s, []).append(b)
    free, work = set(), [0] if head != 0 else []
    while work:
        b = work.pop()
        if b not in free and b != head:
            free.add(b)
            work.extend(fn.succs(b))
    body, work = {head}, [p for p in preds.get(head, ()) if p not in free]
    while work:
        b = work.pop()
        if b not in body:
            body.add(b)
            work.extend(preds.get(b, ()))
    return body


def counted(fn, head):
    """every round changes a number by a constant (or shifts or divides it), and a test of it against something the loop
    does not change, passed in every round, leaves the loop.  The result is False, True, or the list of limits (operand,
    largest value the counter can have) of which one must hold"""
    c = fn.__dict__.setdefault('_counted', {})
    if head not in c:
        c[head] = _counted(fn, head)
    return c[head]


WIDE = ('zext', 'sext', 'trunc', 'freeze')


def _counted(fn, head):
    body = loop(fn, head)
    defs = {I.i: I for b in body for I in fn.blocks[b]}

    def const(op):
        return op[1] if op[0] == 1 and isinstance(op[1], int) else None

    def outer(op):
        return op[0] != 0 or op[1] not in defs

    def root(op, depth=0):
        """(phi of the head that a value steps from, widened from how many bits) or None"""
        if op[0] != 0 or op[1] not in defs or depth > 6:
            return None
        I = defs[op[1]]
        if I.o == 'phi':
            return (I.i, None) if I in fn.blocks[head] else None
        if I.o in ('zext', 'sext', 'freeze'):
            r = root(I.a[0], depth + 1)
            return r and (r[0], r[1] or (I.o != 'freeze' and (I.fnw if I.fnw else width_of(defs, I.a[0])) or None))
        if I.o == 'trunc':
            return None
        if I.o == 'getelementptr':
            return root(I.a[0], depth + 1) if I.off and not I.var else None
        if I.o in ('add', 'sub', 'lshr', 'udiv', 'sdiv', 'shl', 'and', 'ashr') and outer(I.a[1]):
            return root(I.a[0], depth + 1)
        return None

    def kinds(op, phi, seen=()):
        """how the value steps from the phi: a set of 'one' (by one), 'step' (by a constant), 'shrink', or None"""
        if op[0] != 0 or op[1] not in defs or len(seen) > 8:
            return None
        I = defs[op[1]]
        if I.o == 'phi' and I.i != phi:
            if I.i in seen:
                return set()
            r = set()
            for v in I.inc.values():
                k = kinds(v, phi, seen + (I.i,))
                if k is None:
                    return None
                r |= k
            return r
        how = None
        if I.o in ('add', 'sub') and outer(I.a[1]):
            n = const(I.a[1])
            M = 1 << (I.w or 64)
            how = 'one' if n is not None and n % M in (1, M - 1) else 'step' if n else None
        elif I.o in ('lshr', 'udiv') and (const(I.a[1]) or 0) > (0 if I.o == 'lshr' else 1):
            how = 'shrink'
        elif I.o == 'getelementptr' and I.off and not I.var:
            how = 'one'
        elif I.o in WIDE:
            return kinds(I.a[0], phi, seen)
        if how is None:
            return None
        x = I.a[0]
        while x[0] == 0 and x[1] in defs and defs[x[1]].o in WIDE:
            x = defs[x[1]].a[0]
        if x == (0, phi):
            return {how}
        k = kinds(x, phi, seen)
        return None if k is None else k | {how, 'step'}
    phis = {}
    for I in fn.blocks[head]:
        if I.o == 'phi':
            ks = [kinds(v, I.i) for b, v in I.inc.items() if b in body]
            if ks and all(k for k in ks):
                phis[I.i] = (set().union(*ks), I.w)
    limits = []
    for b in body:
        t = fn.blocks[b][-1]
        if t.o != 'br' or len(t.d) != 2 or all(s in body for s in t.d) or not t.a:
            continue
        cond = t.a[0]
        I = defs.get(cond[1]) if cond[0] == 0 else None
        if I is None or I.o != 'icmp':
            continue
        for u, v in (I.a, I.a[::-1]):
            r = root(u)
            if r is None or r[0] not in phis or not outer(v):
                continue
            how, w = phis[r[0]]
            if I.p in ('eq', 'ne'):
                if not (how == {'one'} or how == {'shrink'} and const(v) == 0):
                    continue
            elif 'shrink' in how and const(v) is None:
                continue
            # every round passes the test
            reach, work = set(), [s for s in fn.succs(head) if s in body and head != b]
            while work:
                k = work.pop()
                if k in reach or k == b:
                    continue
                reach.add(k)
                work.extend(s for s in fn.succs(k) if s in body)
            if b == head or head not in reach:
                if r[1] is None or w is None or const(v) is not None and const(v) < 1 << (w - 1):
                    return True
                limits.append((v, (1 << w) - 1))
    return limits or False


def width_of(defs, op):
    I = defs.get(op[1]) if op[0] == 0 else None
    return I.w if I is not None else None


class Progress:
    def __init__(self, it, nesting):
        self.it = it
        self.nesting = nesting
        self.loops = set()
        self.free = set()

    def consumed(self, st):
        st.mon['np'] = ()
        st.mon['polled'] = 0
        seen = {}
        for f in st.frames:
            seen[f.fn.name] = seen.get(f.fn.name, 0) + 1
        n = self.nesting(st) + 2
        for k, m in seen.items():
            if m > n:
                self.it.violation(st, 'recursion', 'reading recurses without nesting: %d activations of one function at nesting depth %d' % (m, n - 2))

    def polled(self, st):
        """input was asked for after the end"""
        st.mon['polled'] = min(4, st.mon.get('polled', 0) + 1)

    def over(self, st, f, op, top):
        v = self.it.ev(st, f, op)
        return isinstance(v, (int, Lin)) and st.ranges(v)[-1][1] > top

    def head(self, st):
        f = st.frames[-1]
        here = stackof(st)
        key = (here, f.fn.name, f.b)
        self.loops.add((f.fn.name, f.b))
        np = st.mon.get('np', ())
        n = len(here)
        old = [x for x in np if x[0] == key]
        if old:
            how = counted(f.fn, f.b)
            if how and how is not True:
                if all(self.over(st, f, v, top) for v, top in how):
                    self.it.violation(st, 'endless', 'the counter of the loop wraps around before it reaches its limit')
            elif not how:
                self.free.add((f.fn.name, f.b))
                a, b = old[0][1].st, st
                if st.mon.get('polled', 0) > a.mon.get('polled', 0):
                    self.it.violation(st, 'endless', 'the loop goes on asking for input after the end of the text')
                elif same(self.it, a, b):
                    self.it.violation(st, 'endless', 'the loop comes back to the same state without consuming input')
                else:
                    self.it.notes['a loop without consumption that is not recognised as counted: %s' % f.fn.qual] = 1
        # what happened inside of earlier rounds of this loop is history
        np = tuple(x for x in np if x[0] != key and not (len(x[0][0]) > n and x[0][0][:n] == here and x[0][0][n][0] == f.fn.name))
        st.mon['np'] = np + ((key, Saved(st.fork())),)


def same(it, a, b):
    x, y = [], []
    for st, out in ((a, x), (b, y)):
        s = st.fork()
        s.mon['np'] = ()
        C = Canon(it, s)
        out.append(C.sk)
        out.append(tuple(C.val(s.simp(v)) if isinstance(v, Lin) else v for v in C.slots))
        out.append({k: s.ranges(v) for k, v in enumerate(C.slots) if isinstance(v, Lin)})
    return x == y
