"""What the stream buffers must do: deliver every unit of their source once and in order, and append what is written.

The state space of a buffer over a source of n units is explored exhaustively: from every state that any history of operations
can reach, every operation is interpreted on the units as free symbols, and its result and the state it leads to are compared with
a cursor into the sequence of units.  States are identified by the contents of the buffer object itself, so that the exploration
ends when the object has no further states."""
from .values import *
from .state import *
from .interp import *
from .models import Models, Ctx, Monitor, Call
from .models import SLOT
from . import build

EOF = 0xffffffff
HUGE = (1 << 63) - 1
WHERE = 'include/configor/details/stream.hpp'
CS = {'c': 1, 'w': 4}
KINDS = {'sin': 'string source', 'bin': 'buffer source', 'fin': 'file source', 'ain': 'source adapter',
         'sout': 'string sink', 'aout': 'sink adapter', 'ostr': 'output string stream'}
INPUTS, OUTPUTS = ('sin', 'bin', 'fin', 'ain'), ('sout', 'aout', 'ostr')


class _Fail(Exception):
    pass


class Mon(Monitor):
    def event(self, c, name, *d):
        st = c.st
        if name == 'fgetc':
            u, p = st.mon['units'], st.mon['pos']
            if p >= len(u):
                return EOF
            st.mon['pos'] = p + 1
            return u[p] if st.mon['cs'] == 4 else zext(st, u[p], 8, 32)
        if name == 'strlen':
            p = d[0]
            if p == Ptr('$text', 0):
                return len(st.mon['units'])
        if name == 'str.append' and 'out' in st.mon:
            this, ch, n = d
            if this == st.mon['sink']:
                if ch[:1] == ('rep',):
                    ch = (ch[1],) * n if isinstance(n, int) and n < 64 else None
                elif ch[:1] == ('span',):
                    ch = None
                if ch is None:
                    st.note(2, 'an unknown text is appended')
                else:
                    st.mon['out'] = st.mon['out'] + tuple(ch)
        if name in ('str.assign', 'str.clear', 'str.pop') and d and d[0] == st.mon.get('sink'):
            st.note(2, 'the string is rewritten')
        return None


def ext_read(c, a):
    st = c.st
    u, p = st.mon['units'], st.mon['pos']
    st.mon['pos'] = p + 1
    return u[p % len(u)] if p < len(u) else (255 if st.mon['cs'] == 1 else EOF)


def ext_write(c, a, ch):
    c.st.mon['out'] = c.st.mon['out'] + (ch,)
    return None


def fread(c, p, size, n, f):
    st = c.st
    if not isinstance(size, int) or not isinstance(n, int) or n > 64:
        st.note(2, 'fread of an unknown size')
        return st.fresh(64)
    u, q, cs = st.mon['units'], st.mon['pos'], st.mon['cs']
    if size != cs:
        st.note(2, 'fread of other units')
    k = min(n, len(u) - q)
    for i in range(k):
        c.it.store(st, Ptr(p.r, addoff(p.o, i * cs)), u[q + i], cs)
    st.mon['pos'] = q + k
    return k


def ungetc(c, ch, f):
    if c.st.mon['pos'] > 0:
        c.st.mon['pos'] -= 1
        return ch
    return EOF


def _real(mod, q, w):
    for f in mod.funcs.values():
        if f.qual == 'std::basic_streambuf::' + q and not f.decl and ('wchar_t' in f.ctxfull) == w:
            return Fn(f.name)


def _sgetn(c, this, s, n):
    """the default xsgetn: one uflow after another"""
    n = c.st.simp(n) if isinstance(n, Lin) else n
    if not isinstance(n, int):
        c.st.note(2, 'default xsgetn of unknown length')
        return 0
    return _sgetn_step(c, None, this, s, n, 0)


def _sgetn_step(c, r, this, s, n, i):
    from .models import virt
    cs = c.st.mon['cs']
    if r is not None:
        if r == EOF:
            return i
        c.it.store(c.st, Ptr(s.r, addoff(s.o, i * cs)), trunc(c.st, r, 8 * cs) if cs < 4 else r, cs)
        i += 1
    if i >= n:
        return i
    f = c.st.mon.get('sbumpc')
    return Call(f if f is not None else virt(c, c.st, this, 'uflow'), [this], _sgetn_step, (this, s, n, i))


def _sputn(c, this, s, n):
    """the default xsputn: one sputc after another"""
    n = c.st.simp(n) if isinstance(n, Lin) else n
    if not isinstance(n, int) or c.st.mon.get('sputc') is None:
        c.st.note(2, 'default xsputn of unknown length')
        return 0
    return _sputn_step(c, None, this, s, n, 0)


def _sputn_step(c, r, this, s, n, i):
    cs = c.st.mon['cs']
    if r == EOF:
        return i - 1
    if i >= n:
        return i
    x = c.it.load(c.st, Ptr(s.r, addoff(s.o, i * cs)), cs, 'i%d' % (8 * cs))
    return Call(c.st.mon['sputc'], [this, x], _sputn_step, (this, s, n, i + 1))


class Case:
    def __init__(self, mod, rep, kind, ch, n):
        self.mod, self.rep, self.kind, self.ch, self.n = mod, rep, kind, ch, n
        self.cs = CS[ch]
        self.name = '%s of %s, %d units' % (KINDS[kind], 'wchar_t' if ch == 'w' else 'char', n) if kind in INPUTS else '%s of %s' % (KINDS[kind], 'wchar_t' if ch == 'w' else 'char')

    def start(self):
        ext = dict(ext_read=ext_read, ext_wread=ext_read, ext_write=ext_write, ext_wwrite=ext_write, fread=fread, ungetc=ungetc, ungetwc=ungetc)
        M = Models(ext)
        for q in ('sgetc', 'sbumpc', 'sgetn', 'sputn', 'sputc', 'uflow'):
            M.d.pop('std::basic_streambuf::' + q, None)
        u = _real(self.mod, 'uflow', self.ch == 'w')
        if u is not None:
            M.d['$sb_uflow'] = lambda c, this: Call(u, [this])
        M.d['$sb_xsgetn'] = M.d['std::basic_streambuf::xsgetn'] = _sgetn
        M.d['$sb_xsputn'] = M.d['std::basic_streambuf::xsputn'] = _sputn
        it = self.it = Interp(self.mod, M, Mon())
        it.alloc_fail = False
        it.tokens = False
        st = State()
        c = Ctx(it, st, None, None, None)
        cs, n = self.cs, self.n
        lo = {'sin': 0, 'bin': 1, 'fin': 0, 'ain': 0}.get(self.kind, 0)
        top = (1 << 8 * cs) - 1 - (1 if cs == 4 or self.kind == 'ain' else 0)
        us = tuple(st.fresh(8 * cs, ((lo, top),), name='$unit%d' % i) for i in range(n))
        st.mon.update(units=us, pos=0, cs=cs, sbumpc=_real(self.mod, 'sbumpc', self.ch == 'w'), sputc=_real(self.mod, 'sputc', self.ch == 'w'))
        st.new_region('obj', None, ('undef',), name='$b')
        st.new_region('obj', 64, ('undef',), name='$s')
        if self.kind in ('sin', 'bin'):
            st.new_region('text', (n + 1) * cs, ('undef',), name='$text')
            for i in range(n):
                st.mem['$text'].cells[i * cs] = (us[i], cs)
            st.mem['$text'].cells[n * cs] = (0, cs)
        if self.kind == 'sin':
            c.setM(Ptr('$s', 0), ('str', st.fresh(64, name='$content'), n, Ptr('$text', 0)))
        if self.kind in OUTPUTS:
            st.mon['out'] = ()
            st.mon['sink'] = None
        if self.kind == 'sout':
            c.setM(Ptr('$s', 0), ('str', st.fresh(64, name='$content'), st.fresh(64, ((0, 1 << 40),), name='$length'), 0))
            st.mon['sink'] = Ptr('$s', 0)
        st.new_region('obj', None, ('any',), name='$file')
        a = {'sin': Ptr('$s', 0), 'sout': Ptr('$s', 0), 'bin': Ptr('$text', 0), 'fin': Ptr('$file', 0), 'ain': Ptr('$s', 0), 'aout': Ptr('$s', 0)}.get(self.kind)
        ends = self.call(st, 'make_%s_%s' % (self.kind, self.ch), [Ptr('$b', 0)] + ([a] if a is not None else []))
        if len(ends) != 1 or ends[0][1] != 'return' or not isinstance(ends[0][2], Ptr):
            it.notes['the %s was not constructed in one way' % KINDS[self.kind]] = 1
            return None
        st, _, self.buf = ends[0]
        if self.kind == 'ostr':
            e = self.call(st, 'str_ostr_' + self.ch, [Ptr('$b', 0)])
            if len(e) == 1 and isinstance(e[0][2], Ptr):
                st = e[0][0]
                st.mon['sink'] = e[0][2]
        return st

    def call(self, st, fn, args):
        it = self.it
        ends = []
        it.finish = lambda i, s, how, v: ends.append((s, how, v))
        it.enter(st, self.mod.funcs[fn], args)
        work, steps = [st], 0
        while work:
            steps += 1
            if steps > 2000:
                it.notes['an operation was not followed to the end'] = 1
                break
            work.extend(it.run(work.pop()))
        return ends

    def key(self, st, p):
        """what the buffer object remembers"""
        return p, repr(sorted(((repr(k), repr(v)) for k, v in st.mem['$b'].cells.items() if not (isinstance(k, tuple) and isinstance(v, tuple) and v[:1] == ('str',))))), \
            st.mon['pos'] if self.kind in ('fin', 'ain') else 0

    def need(self, cond, msg):
        self.rep.count('obligations')
        if not cond:
            raise _Fail(msg)

    def unit(self, st, v, i, as_char=False):
        """v is unit number i, as an int_type"""
        u = self.units[i]
        if as_char:
            v = trunc(st, v, 8 * self.cs) if self.cs < 4 and isinstance(v, (int, Lin)) else v
            return v == u or isinstance(v, (int, Lin)) and decide(st, 'eq', 8 * self.cs, v, u) is True
        w = u if self.cs == 4 else zext(st, u, 8, 32)
        return v == w or isinstance(v, (int, Lin)) and decide(st, 'eq', 32, v, w) is True

    def what(self, v):
        if v == EOF or self.kind == 'ain' and v in (255, EOF):
            return 'the end'
        return 'something else'

    def got(self, st, v, p, op):
        n = self.n
        if p < n:
            if not self.unit(st, v, p, self.kind == 'ain'):
                j = [i for i in range(n) if self.unit(st, v, i, self.kind == 'ain')]
                raise _Fail('%s gives %s instead of unit %d' % (op, 'unit %d' % j[0] if j else self.what(v), p))
        else:
            self.need(v == EOF, '%s at the end gives %s instead of the end' % (op, 'a unit' if v != EOF else ''))
        self.rep.count('obligations')

    # ---- sources
    def source(self):
        st0 = self.start()
        if st0 is None:
            return
        self.units = st0.mon['units']
        n = self.n
        seen = {self.key(st0, 0)}
        work = [(st0, 0, ())]
        blocks = list(range(0, n + 2)) + ([HUGE] if self.kind in ('sin', 'bin') else [])
        if self.kind == 'ain':
            blocks = [k for k in blocks if k <= n]
        while work and not self.it.violations:
            st, p, hist = work.pop(0)
            self.rep.count('states of a source')
            for op in ['peek', 'bump', 'next', 'unget'] + [('block', k) for k in blocks]:
                if self.kind == 'ain' and (isinstance(op, tuple) and p + op[1] > n or p >= n):
                    continue    # what a block read of an adapter gives beyond the end is up to the adapter
                s = st.fork()
                k = None
                if isinstance(op, tuple):
                    k = op[1]
                    name = 'block read of %s' % ('a huge number' if k == HUGE else k)
                    s.mem.pop('$d', None)
                    s.new_region('obj', None if k == HUGE else k * self.cs, ('undef',), name='$d')
                    args = [self.buf, Ptr('$d', 0), k]
                    fn = 'block_' + self.ch
                else:
                    name = {'peek': 'peek', 'bump': 'read', 'next': 'step', 'unget': 'put-back'}[op]
                    fn, args = '%s_%s' % (op, self.ch), [self.buf]
                h = hist + (name,)
                for e, how, v in self.call(s, fn, args):
                    self.rep.count('operations')
                    if e.imp:
                        self.it.notes['undecided: %s' % e.why] = self.it.notes.get('undecided: %s' % e.why, 0) + 1
                        continue
                    try:
                        q = self.step(e, how, v, p, op, name, k)
                    except _Fail as x:
                        self.fail(x, h)
                        continue
                    kk = self.key(e, q)
                    if kk not in seen:
                        seen.add(kk)
                        if len(seen) > 400:
                            self.it.notes['the states of a %s were not exhausted' % KINDS[self.kind]] = 1
                            work = []
                            break
                        work.append((e, q, h))

    def step(self, e, how, v, p, op, name, k):
        n = self.n
        self.need(how == 'return', '%s throws' % name)
        if op == 'peek':
            self.got(e, v, p, name)
            return p
        if op == 'bump':
            self.got(e, v, p, name)
            return min(p + 1, n)
        if op == 'next':
            if p >= n:
                self.need(v == EOF, '%s at the end gives a unit' % name)
                return p
            self.got(e, v, p + 1, name)
            return p + 1
        if op == 'unget':
            if v == EOF:
                return p
            self.need(p > 0, '%s before the first unit succeeds' % name)
            self.got(e, v, p - 1, name)
            return p - 1
        r = min(k, n - p)
        v = e.simp(v) if isinstance(v, Lin) else v
        self.need(v == r, '%s with %d units left reports %s units' % (name, n - p, v if isinstance(v, int) and v < 1 << 62 else 'another number of'))
        for i in range(r):
            x = self.it.load(e, Ptr('$d', i * self.cs), self.cs, 'i%d' % (8 * self.cs))
            self.need(x == self.units[p + i] or isinstance(x, (int, Lin)) and decide(e, 'eq', 8 * self.cs, x, self.units[p + i]) is True,
                      '%s gives something else as its unit %d' % (name, i))
        return p + r

    def fail(self, x, h):
        key = ('stream', self.kind, str(x)[:60])
        self.it.violations.setdefault(key, dict(rule='stream', message='%s, after %s: %s' % (self.name, ', '.join(h[:-1]) or 'construction', x),
                                                location=WHERE, function='%s_%s' % (self.kind, self.ch), stack=[], path=[]))

    # ---- sinks
    def sink(self):
        st0 = self.start()
        if st0 is None:
            return
        cs = self.cs
        seen = {self.key(st0, 0)}
        work = [(st0, ())]
        while work and not self.it.violations:
            st, hist = work.pop(0)
            self.rep.count('states of a sink')
            for op in ('put', 0, 1, 2, 3):
                s = st.fork()
                s.mem.pop('$d', None)
                k = 1 if op == 'put' else op
                s.new_region('obj', max(k, 1) * cs, ('undef',), name='$d')
                us = tuple(s.fresh(8 * cs, ((0, (1 << 8 * cs) - 1 - (cs == 4)),), name='$w%d' % i) for i in range(k))
                for i in range(k):
                    self.it.store(s, Ptr('$d', i * cs), us[i], cs)
                if op == 'put':
                    fn, args, name = 'put_' + self.ch, [self.buf, us[0]], 'writing one unit'
                else:
                    fn, args, name = 'puts_' + self.ch, [self.buf, Ptr('$d', 0), k], 'writing %d units' % k
                s.mon['out'] = ()
                h = hist + (name,)
                for e, how, v in self.call(s, fn, args):
                    self.rep.count('operations')
                    if e.imp:
                        self.it.notes['undecided: %s' % e.why] = self.it.notes.get('undecided: %s' % e.why, 0) + 1
                        continue
                    try:
                        self.need(how == 'return', '%s throws' % name)
                        if op == 'put':
                            self.need(v != EOF, '%s reports a failure' % name)
                        else:
                            v = e.simp(v) if isinstance(v, Lin) else v
                            self.need(v == k, '%s reports another number of units' % name)
                        o = e.mon['out']
                        self.need(len(o) == k, '%s appends %d' % (name, len(o)))
                        for i in range(k):
                            x = o[i]
                            x = trunc(e, x, 8 * cs) if isinstance(x, Lin) and x.w > 8 * cs else x
                            self.need(x == us[i] or isinstance(x, (int, Lin)) and decide(e, 'eq', 8 * cs, x, us[i]) is True, '%s appends something else as unit %d' % (name, i))
                    except _Fail as x:
                        self.fail(x, h)
                        continue
                    kk = self.key(e, 0)
                    if kk not in seen and len(seen) < 50:
                        seen.add(kk)
                        work.append((e, h))

    def run(self):
        try:
            (self.source if self.kind in INPUTS else self.sink)()
        except Violation:
            pass
        self.rep.engine(self.it, self.name)
