"""The JSON writer's property automaton: consumes what the serializer puts into the output stream, token by token,
and compares it with the value that is being written (whose kinds and sizes are left open and decided lazily)."""
from .values import *
from .state import *
from .interp import *
from .models import *
from . import models as M
from .explore import Explorer, Num
from .layout import *
from .ports import *
from .jsonspec import Quiet, JMon, MAXCP

WORDS = {'null': 'null'}
SHORT = {ord('b'): 8, ord('f'): 12, ord('n'): 10, ord('r'): 13, ord('t'): 9, 34: 34, 92: 92}
CLASSES = [('control character', ((0, 0x1F),)), ('quote', 0x22), ('backslash', 0x5C),
           ('plain character', ((0x20, 0x21), (0x23, 0x5B), (0x5D, 0x7E))), ('U+007F', 0x7F),
           ('U+0080-FFFF', ((0x80, 0xD7FF), (0xE000, 0xFFFF))), ('supplementary character', ((0x10000, MAXCP),))]
INTK = ('int', 'long', 'longlong', 'short', 'unsignedint', 'unsignedlong', 'unsignedlonglong', 'unsignedshort')
SCALARS = ('null', 'integer', 'floating', 'string', 'boolean')


class Cfg:
    def __init__(self, **kw):
        self.depth = 2
        self.root = None        # kinds of the document (None: any)
        self.kinds = None       # kinds below
        self.classes = ('plain character',)
        self.escape = False
        self.pretty = False     # 'width': by the stream's width, 'option': by with_indent, False: compact
        self.encfail = False
        self.decfail = False
        self.sinkfail = False
        self.decthrow = False
        self.handler = False
        self.slot32 = 40
        self.const = False      # report writes to the document
        self.__dict__.update(kw)


class DMon(Monitor):
    exctype = '_ZTIN8configor28configor_serialization_errorE'
    handler = False

    def __init__(self, cfg, layout, rep):
        self.cfg = cfg
        self.L = layout
        self.rep = rep

    eqn = JMon.eqn
    floatfacts = JMon.floatfacts
    wrong = JMon.wrong

    def finite(self, st, v):
        return JMon.finite(self, st, v)

    def start(self, st):
        st.mon.update(S=('V', 0), K=(), Q=(), ws=(), dead=None, bad=None, handled=0, forget=(), foreign=False,
                      width=0, fill=32, flt=None)

    # ---------------------------------------------------------------- expectations
    def kindof(self, c, p):
        k = self.L.kindof(c.it, c.st, p)
        if k is None or k == 'undef':
            self.L.kindof(c.it, c.st, p)
            c.st.note(2, 'the kind of a value is not decided')
            raise Dead()
        return k

    def payload(self, c, p, kind):
        return self.L.payload(c.it, c.st, p, kind)

    def cont(self, c, f):
        """the model of the container of frame f"""
        x = c.getM(f[1], 'vec' if f[0] == 'a' else 'map')
        if x is None:
            c.st.note(2, 'the container is gone')
            raise Dead()
        return x

    def elem(self, f, x, i):
        n = i.v if isinstance(i, Num) else i
        if f[0] == 'a':
            return Ptr(x[2].r, addoff(x[2].o, scale(64, n, self.L.size)))
        return Ptr(x[2].r, addoff(x[2].o, scale(64, n, M_NODE)))

    def nlin(self, m, depth):
        """what separates the elements: a line break and the indentation"""
        if not self.cfg.pretty or m['width'] == 0:
            return ()
        return (('nl',), ('fill', Num(scale(64, m['width'], depth))))

    def space(self, m):
        if not self.cfg.pretty or m['width'] == 0:
            return ()
        return (('fill', Num(1)),)

    def isconst(self, st, n):
        return st.simp(n) if isinstance(n, Lin) else n

    # ---------------------------------------------------------------- the document
    def number_end(self, c):
        """a number is followed by something else: is it complete?"""
        m = c.st.mon
        S = m['S']
        if S[1] == 'fi':
            self.wrong(c, c.st, 'float-kind', 'a float is written as an integer')
        if S[1] == 'f.':
            self.wrong(c, c.st, 'output', 'a number ends with a point')
        if S[1] == 'txt' and not self.marked(c.st, S[2]):
            self.wrong(c, c.st, 'float-kind', 'a float can be written as digits only, which read back as an integer')
        self.value_done(c)

    def marked(self, st, content):
        """does this formatted float certainly contain a point or an exponent?"""
        fl, p = content.a[2], content.a[4]
        fmt = binop(st, 'and', 32, fl, 260) if isinstance(fl, (int, Lin)) else None
        if fmt in (4, 256) and isinstance(p, (int, Lin)) and decide(st, 'sgt', 64, p, 0) is True:
            return True
        if fmt == 256:
            return True
        for d in (st.rng, st.sub):
            for k, x in d.items():
                if k[0] != 'op' or k[2] not in ('strof', 'strnot') or k[3] != content:
                    continue
                one = x == 1 if isinstance(x, int) else x[0][0] > 0
                s = set(chr(ch) for ch in k[4])
                if one and k[2] == 'strof' and s and s <= set('.eE'):
                    return True
                if one and k[2] == 'strnot' and s <= set('+-0123456789'):
                    return True
        return False

    def value_done(self, c):
        m = c.st.mon
        K = m['K']
        self.rep.count('values written')
        m['flt'] = None
        if not K:
            m['S'] = ('END',)
            return
        m['S'] = ('E',)

    def next_elem(self, c, first):
        """the element the current frame is at: what is expected for it"""
        m = c.st.mon
        f = m['K'][-1]
        if f[0] == 'a':
            m['S'] = ('V', 0)
        else:
            m['S'] = ('K',)
        m['ws'] = self.nlin(m, len(m['K']))

    def closing(self, c):
        m = c.st.mon
        m['S'] = ('C',)
        m['ws'] = self.nlin(m, len(m['K']) - 1)

    def char(self, c, x):
        """the next character of the output"""
        st = c.st
        m = st.mon
        S = m['S']
        t = S[0]
        if t == 's':
            return self.strchar(c, x)
        if t == 'n':
            if self.digits(c, x):
                return
            self.number_end(c)
            S = m['S']
            t = S[0]
        if t == 'E':
            f = m['K'][-1]
            size = self.cont(c, f)[1]
            n1 = add(64, f[2].v, 1)
            if c.test('eq', n1, size):
                self.forget(m, c, f)
                self.closing(c)
            else:
                if x != 44:
                    self.wrong(c, st, 'output', 'no comma between two elements but %s' % ch(x))
                self.forget(m, c, f)
                m['K'] = m['K'][:-1] + ((f[0], f[1], Num(n1)),)
                self.next_elem(c, False)
                return
        while m['ws']:
            w = m['ws'][0]
            if w[0] == 'nl':
                if x != 10:
                    self.wrong(c, st, 'layout', 'no line break where one is due but %s' % ch(x))
                m['ws'] = m['ws'][1:]
                return
            n = self.isconst(st, w[1].v)
            if c.test('eq', n, 0):
                m['ws'] = m['ws'][1:]
                continue
            if not self.eqn(st, x, m['fill'], 8):
                self.wrong(c, st, 'layout', 'less indentation than due: %s' % ch(x))
            m['ws'] = (('fill', Num(sub(64, n, 1))),) + m['ws'][1:]
            return
        S = m['S']
        t = S[0]
        if t == 'C':
            f = m['K'][-1]
            if x != (93 if f[0] == 'a' else 125):
                self.wrong(c, st, 'output', '%s instead of the closing bracket' % ch(x))
            m['K'] = m['K'][:-1]
            return self.value_done(c)
        if t == ':':
            if x != 58:
                self.wrong(c, st, 'output', '%s instead of a colon' % ch(x))
            m['S'] = ('V', M_KEY + 32)
            m['ws'] = self.space(m)
            return
        if t == 'l':
            if x != ord(S[1][S[2]]):
                self.wrong(c, st, 'output', '%s inside of %s' % (ch(x), S[1]))
            if S[2] + 1 == len(S[1]):
                return self.value_done(c)
            m['S'] = ('l', S[1], S[2] + 1)
            return
        if t == 'K':
            if x != 34:
                self.wrong(c, st, 'string', '%s instead of a key' % ch(x))
            return self.begin_string(c, M_KEY)
        if t == 'V':
            return self.begin_value(c, x, self.place(c, S[1]))
        if t == 'END':
            self.wrong(c, st, 'output', '%s after the end of the document' % ch(x))
        raise AnalysisError('output state %r' % (S,))

    def begin_value(self, c, x, p):
        st = c.st
        m = st.mon
        k = self.kindof(c, p)
        if k == 'null':
            word = 'null'
        elif k == 'boolean':
            b = self.payload(c, p, k)
            word = 'false' if c.test('eq', b, 0, 8) else 'true'
        elif k == 'string':
            if x != 34:
                self.wrong(c, st, 'string', '%s instead of a quoted string' % ch(x))
            return self.begin_string(c, None)
        elif k in ('array', 'object'):
            if x != (91 if k == 'array' else 123):
                self.wrong(c, st, 'output', '%s at the start of an %s' % (ch(x), k))
            v = self.payload(c, p, k)
            f = (k[0], v, Num(0))
            size = self.cont(c, f)[1]
            empty = c.test('eq', size, 0)
            m['K'] = m['K'] + (f,)
            if empty:
                self.closing(c)
            else:
                self.next_elem(c, True)
            return
        else:
            if isinstance(x, int) and (48 <= x <= 57 or x == 45):
                st.note(2, 'digits that are not written as a formatted number')
                raise Dead()
            self.wrong(c, st, 'output', '%s instead of a number' % ch(x))
        if x != ord(word[0]):
            self.wrong(c, st, 'output', '%s instead of %s' % (ch(x), word))
        m['S'] = ('l', word, 1)

    def forget(self, m, c, f):
        m['forget'] = m['forget'] + (self.elem(f, self.cont(c, f), f[2]),)

    def flush(self, st):
        """elements that were written: only their place matters from here on"""
        for p in st.mon['forget']:
            g = st.wreg(p.r)
            size = M_NODE if g.kind == 'nodes' else self.L.size
            for k in list(g.cells):
                o = k[1] if isinstance(k, tuple) else k
                d = offdiff(st, o, p.o)
                if isinstance(d, int) and 0 <= d < size:
                    del g.cells[k]
        st.mon['forget'] = ()

    def gc(self, st):
        """after a failure: elements nothing points at matter no longer"""
        if not st.mon['dead']:
            return
        refs = {}
        fr = st.frames
        for i, f in enumerate(fr):
            live = f.fn.live_at(f.b, f.ip) if i == len(fr) - 1 else f.fn.live_after(f.b, f.ip)
            for r in live:
                v = f.regs.get(r)
                if isinstance(v, Ptr):
                    refs.setdefault(v.r, []).append(v.o)
        for r, g in st.mem.items():
            if g.kind in ('elems', 'nodes'):
                continue
            for o, v in g.cells.items():
                for x in (v if isinstance(o, tuple) else v[:1]):
                    if isinstance(x, Ptr):
                        refs.setdefault(x.r, []).append(x.o)
        for r in list(st.mem):
            g = st.mem[r]
            if g.kind not in ('elems', 'nodes') or not g.alive or g.lazy[0] != 'py':
                continue
            size = M_NODE if g.kind == 'nodes' else self.L.size
            keep = []
            for o in refs.get(r, ()):
                for k in g.cells:
                    x = k[1] if isinstance(k, tuple) else k
                    d = offdiff(st, x, o)
                    if isinstance(d, int) and -size < d < size:
                        keep.append(k)
            gone = [k for k in g.cells if k not in keep]
            if gone:
                g = st.wreg(r)
                for k in gone:
                    del g.cells[k]

    # ---------------------------------------------------------------- numbers
    def digits(self, c, x):
        m = c.st.mon
        S = m['S']
        if S[1] in ('fi', 'txt') and x == 46:
            m['S'] = ('n', 'f.')
            return True
        if S[1] == 'f.' and x == 48:
            m['S'] = ('n', 'ok')
            return True
        if S[1] == 'ok' and x == 48:
            return True
        if x == 10 or x == 44 or x == 93 or x == 125 or x == 32 or self.eqn(c.st, x, m['fill'], 8):
            return False
        self.wrong(c, c.st, 'output', '%s right after a number' % ch(x))

    def formatted(self, c, x):
        """a formatted number reaches the output"""
        st = c.st
        m = st.mon
        kind, v, fl, w, prec, fill, loc = x.a
        S = m['S']
        if S[0] == 's':
            return self.hexout(c, kind, v, fl, w, fill)
        if S[0] in ('n', 'E'):
            self.wrong(c, st, 'output', 'a number right after another value')
        if not self.skip_ws(c):
            self.wrong(c, st, 'layout', 'a number is written without the indentation due')
        S = m['S']
        if S[0] != 'V':
            self.wrong(c, st, 'output', 'a number where none is due')
        pos = self.place(c, S[1])
        k = self.kindof(c, pos)
        if k == 'boolean' and kind == 'bool':
            if isinstance(fl, int) and fl & 1:
                return self.value_done(c)
        if k not in ('integer', 'floating'):
            self.wrong(c, st, 'output', 'a number is written for a value that is %s' % k)
        p = self.payload(c, pos, k)
        base = binop(st, 'and', 32, fl, 74) if isinstance(fl, (int, Lin)) else None
        if not self.eqn(st, w, 0):
            self.wrong(c, st, 'output', 'a number is padded to a field width')
        if not plainloc(loc):
            self.wrong(c, st, 'locale', 'a number is written with the digits and separators of another locale (%s)' % (loc,))
        if isinstance(fl, (int, Lin)) and binop(st, 'and', 32, fl, 2048) != 0:
            self.wrong(c, st, 'output', 'a number can be written with a plus sign (showpos)')
        if kind in INTK:
            if base not in (2, 0):
                self.wrong(c, st, 'output', 'an integer can be written in another base than ten')
            if k == 'integer':
                if not kind.endswith(('long', 'longlong')) or kind.startswith('unsigned') or not self.eqn(st, v, p):
                    self.wrong(c, st, 'output', 'another number than the integer stored is written (%s %r)' % (kind, v))
                self.rep.count('numbers written')
                return self.value_done(c)
            cv = opk(64, 'fptosi', p)
            if not self.eqn(st, v, cv) or kind.startswith('unsigned') or not kind.endswith(('long', 'longlong')):
                self.wrong(c, st, 'output', 'another number than the float stored is written')
            self.float_range(c, p)
            self.rep.count('numbers written')
            m['S'] = ('n', 'fi')
            return
        if k == 'integer':
            self.wrong(c, st, 'float-kind', 'an integer is written as a float')
        if v != p:
            self.wrong(c, st, 'output', 'another number than the float stored is written')
        if not self.finite(st, v):
            self.wrong(c, st, 'not-finite', 'infinity or NaN can be written')
        hexf = binop(st, 'and', 32, fl, 260) if isinstance(fl, (int, Lin)) else None
        if not (isinstance(hexf, int) and hexf != 260 or isinstance(hexf, Lin) and decide(st, 'ne', 32, hexf, 260)):
            self.wrong(c, st, 'hexfloat', 'a float can be written in hexadecimal')
        self.rep.count('numbers written')
        m['S'] = ('n', 'txt', x)
        m['flt'] = x

    def float_range(self, c, x):
        """facts that make the conversion of a float to int64 exact"""
        st = c.st
        lo = hi = integral = False
        for d in (st.rng, st.sub):
            for k, y in d.items():
                if k[0] != 'op' or k[2] != 'fcmp':
                    continue
                one = y == 1 if isinstance(y, int) else y[0][0] > 0
                zero = y == 0 if isinstance(y, int) else y[-1][1] == 0
                p, a, b = k[3:6]
                if one and p in ('oeq', 'ueq') and whole(a, x) and (whole(b, x) or b == x) or one and p in ('oeq', 'ueq') and whole(b, x) and a == x:
                    integral = True
                if one and p in ('oeq', 'ueq') and any(isinstance(q, Op) and q.n in ('frac', 'fmod') and q.a[0] == x for q in (a, b)):
                    integral = True
                mag = lambda q: isinstance(q, Op) and q.n == 'fabs' and q.a[0] == x
                for u, v, q in ((a, b, p[1:]), (b, a, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p[1:]))):
                    if q is None or not (isinstance(v, Op) and v.n == 'fc'):
                        continue
                    if not (u == x or mag(u)):
                        continue
                    cst = v.a[0]
                    if one and (q == 'lt' and cst <= 2.0 ** 63 or q == 'le' and cst < 2.0 ** 63):
                        hi = True
                        lo = lo or mag(u)
                    if one and (q == 'ge' and cst >= -2.0 ** 63 or q == 'gt' and cst >= -2.0 ** 63):
                        lo = lo or u == x
                    if zero and (q == 'ge' and cst <= 2.0 ** 63 or q == 'gt' and cst < 2.0 ** 63):
                        hi = True
                        lo = lo or mag(u)
                    if zero and (q == 'lt' and cst >= -2.0 ** 63 or q == 'le' and cst >= -2.0 ** 63):
                        lo = lo or u == x
        if not integral:
            self.wrong(c, st, 'float-kind', 'a float is written as an integer number although it may have a fraction')
        if not (lo and hi):
            self.wrong(c, st, 'float-range', 'a float is converted to a 64-bit integer although it may be out of its range')

    def skip_ws(self, c):
        """whitespace still due: none, or of no width"""
        m = c.st.mon
        while m['ws']:
            w = m['ws'][0]
            if w[0] == 'nl' or not c.test('eq', self.isconst(c.st, w[1].v), 0):
                return False
            m['ws'] = m['ws'][1:]
        return True

    # ---------------------------------------------------------------- strings
    def place(self, c, off):
        """where the value being written is"""
        m = c.st.mon
        if not m['K']:
            return Ptr('$v', 0)
        f = m['K'][-1]
        p = self.elem(f, self.cont(c, f), f[2])
        return Ptr(p.r, addoff(p.o, off)) if off else p

    def strat(self, c):
        """the string being written"""
        m = c.st.mon
        if m['S'][1] == 'key':
            return self.place(c, M_KEY)
        p = self.place(c, 0 if not m['K'] or m['K'][-1][0] == 'a' else M_KEY + 32)
        return self.payload(c, p, 'string')

    def begin_string(self, c, key):
        st = c.st
        st.mon['S'] = ('s', 'key' if key else 'value', None, 'open', None, None)     # -, end seen, stream, escape
        x = c.getM(self.strat(c), 'str')
        if x is None:
            st.note(2, 'the string is gone')
            raise Dead()
        st.mon['Q'] = ()

    def end_string(self, c):
        m = c.st.mon
        S = m['S']
        self.rep.count('strings written')
        m['Q'] = ()
        if S[1] == 'key':
            m['S'] = (':',)
        else:
            self.value_done(c)

    def need(self, cp, st):
        """must cp be escaped: True, False"""
        r = st.ranges(cp) if isinstance(cp, Lin) else ((cp, cp),)
        if r[-1][1] <= 0x1F or r in (((0x22, 0x22),), ((0x5C, 0x5C),)):
            return True
        return self.cfg.escape and r[0][0] >= 0x7F

    def strchar(self, c, x):
        st = c.st
        m = st.mon
        _, _, _, eof, stream, esc = S = m['S']
        Q = m['Q']
        if esc is None:
            if x == 34 and not Q:
                if eof != 'eof' and not self.eqn(st, c.getM(self.strat(c), 'str')[2], 0):
                    self.wrong(c, st, 'string', 'the quoted string is closed before all of its characters are written')
                return self.end_string(c)
            if not Q:
                self.wrong(c, st, 'string', '%s is written although no character of the string is due' % ch(x))
            if x == 92:
                m['S'] = S[:5] + ((),)
                return
            cp = Q[0]
            if isinstance(cp, tuple) or self.need(cp, st):
                self.wrong(c, st, 'string', 'a character that needs an escape is written without one')
            if not (isinstance(x, (int, Lin)) and st.ranges(cp)[-1][1] < 0x80 if isinstance(cp, Lin) else cp < 0x80) or not self.eqn(st, zx(st, x), cp, 32):
                self.wrong(c, st, 'string', 'another character is written than the one in the string')
            m['Q'] = Q[1:]
            return
        cp = Q[0]
        if esc == ():
            if x == 117:
                if not isinstance(cp, tuple) and not self.need(cp, st):
                    self.wrong(c, st, 'string', 'a character is escaped that needs no escape')
                m['S'] = S[:5] + (('u', 0, self.unit(c, cp)),)
                return
            if not isinstance(x, int) or x not in SHORT or isinstance(cp, tuple) or not self.eqn(st, cp, SHORT[x], 32):
                self.wrong(c, st, 'string', 'the escape %s does not stand for the character in the string' % ch(x))
            m['S'] = S[:5] + (None,)
            m['Q'] = Q[1:]
            return
        # a hex digit written as a character
        _, k, unit = esc
        nib = binop(st, 'and', 32, binop(st, 'lshr', 32, unit, 12 - 4 * k), 15)
        xx = zx(st, x)
        ok = False
        if isinstance(xx, (int, Lin)):
            if c.test('ult', nib, 10, 32):
                ok = self.eqn(st, xx, add(32, nib, 48), 32)
            else:
                ok = self.eqn(st, xx, add(32, nib, 55), 32) or self.eqn(st, xx, add(32, nib, 87), 32)
        if not ok:
            self.wrong(c, st, 'string', 'a wrong hex digit in an escape')
        self.hexdone(c, k + 1, unit)

    def unit(self, c, cp):
        """the next 16-bit unit due for a code point; ('trail', cp) after the first of two"""
        st = c.st
        if isinstance(cp, tuple):
            cp = cp[1]
            return add(32, binop(st, 'and', 32, sub(32, cp, 0x10000), 1023), 0xDC00)
        if c.test('ule', cp, 0xFFFF, 32):
            return cp
        return add(32, binop(st, 'lshr', 32, sub(32, cp, 0x10000), 10), 0xD800)

    def hexdone(self, c, k, unit):
        m = c.st.mon
        S = m['S']
        if k < 4:
            m['S'] = S[:5] + (('u', k, unit),)
            return
        cp = m['Q'][0]
        m['S'] = S[:5] + (None,)
        if not isinstance(cp, tuple) and c.test('ugt', cp, 0xFFFF, 32):
            m['Q'] = (('trail', cp),) + m['Q'][1:]
        else:
            m['Q'] = m['Q'][1:]

    def hexout(self, c, kind, v, fl, w, fill):
        """a formatted number inside a string: hex digits of an escape"""
        st = c.st
        m = st.mon
        S = m['S']
        esc = S[5]
        if esc is None or esc == ():
            self.wrong(c, st, 'string', 'a number is written inside a string')
        if kind not in INTK:
            self.wrong(c, st, 'string', 'an escape is written as %s' % kind)
        _, k, unit = esc
        if binop(st, 'and', 32, fl, 74) != 8:
            self.wrong(c, st, 'string', 'the digits of an escape can be written in another base than sixteen')
        if binop(st, 'and', 32, fl, 512) != 0:
            self.wrong(c, st, 'string', 'the digits of an escape can be written with a prefix (showbase)')
        bits = {'int': 32, 'unsignedint': 32, 'short': 16, 'unsignedshort': 16}.get(kind, 64)
        n = st.simp(w) if isinstance(w, Lin) else w
        r = (v, v) if isinstance(v, int) else (st.ranges(v)[0][0], st.ranges(v)[-1][1])
        digs = lambda x: max(1, (x.bit_length() + 3) // 4)
        least, most = digs(r[0]), digs(r[1])
        if not isinstance(n, int):
            self.wrong(c, st, 'string', 'an escape with a variable number of digits')
        if most > max(n, 1) and most != least or max(least, n) + k > 4:
            self.wrong(c, st, 'string', 'an escape can have more than four hex digits')
        total = max(n, least)
        if total > least and fill != 48:
            self.wrong(c, st, 'string', 'the digits of an escape are padded with %s' % ch(fill))
        if k + total != 4:
            self.wrong(c, st, 'string', 'an escape can have fewer than four hex digits')
        if k != 0:
            st.note(2, 'an escape written in several pieces')
            raise Dead()
        vv = zext(st, v, bits, 32) if bits < 32 and isinstance(v, Lin) else v if bits == 32 else trunc(st, v, 32) if isinstance(v, Lin) else v
        if not self.eqn(st, vv, unit, 32):
            self.wrong(c, st, 'string', 'an escape stands for another character than the one in the string')
        self.hexdone(c, 4, unit)

    # ---------------------------------------------------------------- the output stream
    def guarded(self, c, f):
        """run f; when it must fork, the automaton starts over in each of the states"""
        st = c.st
        snap = dict(st.mon)
        try:
            f()
        except ForkTo as e:
            for s in e.states:
                s.mon = dict(snap)
            raise
        self.flush(st)

    def alive(self, m):
        return not (m['dead'] or m['bad'])

    def kill(self, st, why):
        """the document failed: nothing else is expected of it"""
        st.mon.update(dead=Quiet(why), S=('dead',), K=(), Q=(), ws=(), forget=(), flt=None)

    def sink(self, c, ok, fail):
        st = c.st
        if not self.cfg.sinkfail or st.mon['dead']:
            return ok
        s = st.fork()
        self.kill(s, 'the output stream fails')
        c.it.mark(s, 'the output stream fails')
        return Forks([(s, fail), (st, ok)])

    def write(self, c, this, chars):
        st = c.st
        if self.alive(st.mon):
            pre = st.fork() if self.cfg.sinkfail else None

            def go():
                for x in chars:
                    if isinstance(x, Lin) and x.w == 32:
                        x = trunc(st, x, 8)
                    elif isinstance(x, int):
                        x &= 255
                    self.char(c, x)
            self.guarded(c, go)
            c.it.mark(st, ch(chars[0]))
        r = chars[0]
        if isinstance(r, int):
            r &= 255
        return self.sink(c, r, 0xffffffff)

    def writen(self, c, this, s, n):
        st = c.st
        n = st.simp(n) if isinstance(n, Lin) else n
        if self.eqn(st, n, 0):
            return 0
        if not isinstance(s, Ptr):
            c.it.deref(st, s, 'read')
        if self.alive(st.mon):
            self.guarded(c, lambda: self.text(c, s, n))
        return self.sink(c, n, 0)

    def text(self, c, s, n):
        st = c.st
        g = c.it.deref(st, s, 'read')
        lz = g.lazy
        if lz[0] == 'py' and lz[1] is M.StrData and len(lz) > 4 and isinstance(lz[3], Op):
            content, ln = lz[3], lz[4]
            if content.n == 'fill':
                self.indent(c, content.a[0], s, n, ln, lz[2])
                return
            if self.eqn(st, ln, n) and s.o == 0:
                c.it.mark(st, 'text %r' % (content,))
                return self.content(c, content)
        else:
            lit = readlit(c, s, n, 1)
            if lit is None and not isinstance(n, int):
                # whether anything is written at all
                if c.test('eq', n, 0):
                    return
            if lit is not None:
                c.it.mark(st, 'text ' + ''.join(ch(x).strip("'") for x in lit))
                for x in lit:
                    self.char(c, x)
                return
        st.note(2, 'text of unknown contents is written')
        raise Dead()

    def content(self, c, x):
        if x.n == 'fmt':
            return self.formatted(c, x)
        if x.n == 'cat':
            self.content(c, x.a[0])
            for u in x.a[1][1]:
                self.char(c, u)
            return
        raise AnalysisError('content %r' % (x,))

    def indent(self, c, fillch, s, n, ln, cs):
        """n fill characters at s"""
        st = c.st
        m = st.mon
        off = binop(st, 'udiv', 64, s.o, cs) if cs > 1 else s.o
        c.require('ule', add(64, off, n) if isinstance(off, (int, Lin)) else n, ln, 'out-of-bounds', 'more characters are written than the text holds')
        if c.test('eq', n, 0):
            return
        S = m['S']
        c.it.mark(st, 'indentation %r' % (n,))
        if S[0] == 'n':
            self.number_end(c)
            S = m['S']
        if S[0] == 'E':
            f = m['K'][-1]
            n1 = add(64, f[2].v, 1)
            if c.test('eq', n1, self.cont(c, f)[1]):
                self.forget(m, c, f)
                self.closing(c)
            else:
                self.wrong(c, st, 'layout', 'indentation where a comma is due')
        if S[0] == 's':
            self.wrong(c, st, 'string', 'indentation inside a string')
        while m['ws'] and m['ws'][0][0] == 'fill' and c.test('eq', self.isconst(st, m['ws'][0][1].v), 0):
            m['ws'] = m['ws'][1:]
        w = m['ws'][0] if m['ws'] else None
        if w is None or w[0] != 'fill':
            self.wrong(c, st, 'layout', 'indentation where none is due')
        if not self.eqn(st, fillch, m['fill'], 8):
            self.wrong(c, st, 'layout', 'the indentation consists of another character than the one asked for')
        d = st.simp(sub(64, w[1].v, n)) if isinstance(sub(64, w[1].v, n), Lin) else sub(64, w[1].v, n)
        if d == 0:
            m['ws'] = m['ws'][1:]
        elif c.test('ule', n, w[1].v):
            m['ws'] = (('fill', Num(d)),) + m['ws'][1:]
        else:
            self.wrong(c, st, 'layout', 'more indentation than due: %r instead of %r' % (n, w[1].v))

    # ---------------------------------------------------------------- nothing that is only read is written
    def inside(self, st, r):
        """does region r belong to the document?"""
        if r == '$v':
            return True
        g = st.mem.get(r)
        if g is None or g.kind not in ('heap', 'elems', 'nodes', 'node'):
            return False
        seen, work = {'$v'}, ['$v']
        while work:
            x = st.mem.get(work.pop())
            if x is None:
                continue
            for k, v in x.cells.items():
                ps = [v[0]] if not isinstance(k, tuple) else [y for y in v[1:] if isinstance(y, Ptr)] + [
                    y for _, y in (v[4] if v[0] == 'map' and len(v) > 4 else ())]
                for y in ps:
                    if isinstance(y, Ptr) and y.r not in seen:
                        if y.r == r:
                            return True
                        seen.add(y.r)
                        work.append(y.r)
        return False

    def on_store(self, it, st, p, v, size):
        if isinstance(p.r, str) and p.r[0] == '@':
            if not st.mon.get('guard') and not p.r.startswith('@_ZGV'):
                it.violation(st, 'const-write', 'writing a value changes the shared object %s' % p.r[1:])
        elif self.inside(st, p.r):
            it.violation(st, 'const-write', 'writing a value out changes it')

    def on_setM(self, it, st, p, old, m):
        if (old is None or m is None or old[:3] != m[:3]) and (p.r == '$v' or not isinstance(p.r, str) or p.r[0] == '@'):
            self.on_store(it, st, p, None, 0)

    def event(self, c, name, *data):
        if name == 'guard' and self.watch_store:
            n = c.st.mon.pop('guard', 0) + data[0]
            if n:
                c.st.mon['guard'] = n
        if name == 'pad' and self.alive(c.st.mon):
            d = data[1]
            if d['buf'] == Ptr('$buf', 0) and not self.eqn(c.st, d['w'], 0):
                self.wrong(c, c.st, 'output', 'text is padded to a field width')
        return None

    # ---------------------------------------------------------------- ports
    def reads(self, c, is_, p):
        """does the stream read the string at p?"""
        st = c.st
        d = ios(c, iosof(c, is_))
        if not isinstance(d['buf'], Ptr):
            return None
        x = c.getM(p, 'str')
        g = st.mem.get(d['buf'].r)
        for o, v in g.cells.items():
            if isinstance(o, tuple):
                if v[0] == 'str' and v[1] == x[1]:
                    return True
                continue
            if isinstance(v[0], Ptr) and (v[0] == p or isinstance(x[3], Ptr) and v[0].r == x[3].r):
                return True
            if isinstance(v[0], Ptr) and v[0].r in st.mem:
                y = st.mem[v[0].r].cells.get(('M', v[0].o))
                if y is not None and y[0] == 'str' and y[1] == x[1]:
                    return True
        return False

    def decode(self, c, is_, out):
        it, st = c.it, c.st
        m = st.mon
        p = iosof(c, is_)
        if not self.alive(m):
            # only whether the failure is noticed still matters
            s = st.fork()
            c2 = Ctx(it, s, c.I, c.f, c.args)
            setst(c2, p, e=1, f=1)
            it.store(st, out, 0x41, 4)
            return Forks([(s, 0), (st, 1)])
        S = m['S']
        if S[0] != 's':
            st.note(2, 'a string is read before its quote is written')
            raise Dead()
        if S[3] == 'eof':
            setst(c, p, e=1, f=1)
            return 0
        if S[4] is None:
            if not self.reads(c, is_, self.strat(c)):
                self.wrong(c, st, 'string', 'the characters written are those of another string')
        elif S[4] != is_:
            st.note(2, 'a string is read twice')
            raise Dead()
        if len(m['Q']) > 2:
            self.wrong(c, st, 'string', 'characters of the string are left out')
        res = []
        s = st.fork()
        setst(Ctx(it, s, c.I, c.f, c.args), p, e=1, f=1)
        s.mon['S'] = S[:3] + ('eof', is_) + S[5:]
        it.mark(s, 'end of the string')
        res.append((s, 0))
        for name, v in CLASSES:
            if name not in self.cfg.classes:
                continue
            s = st.fork()
            x = v if isinstance(v, int) else s.fresh(32, v)
            s.mon['S'] = S[:4] + (is_,) + S[5:]
            s.mon['Q'] = m['Q'] + (x,)
            it.mark(s, name)
            it.store(s, out, x, 4)
            res.append((s, 1))
        if self.cfg.decfail:
            s = st.fork()
            setst(Ctx(it, s, c.I, c.f, c.args), p, f=1)
            self.kill(s, 'the string cannot be decoded')
            it.mark(s, 'undecodable')
            it.store(s, out, s.fresh(32, ((0, MAXCP),)), 4)
            res.append((s, 1))
            s = st.fork()
            setst(Ctx(it, s, c.I, c.f, c.args), p, f=1, e=1)
            self.kill(s, 'the string ends with a truncated sequence')
            it.mark(s, 'truncated sequence')
            it.store(s, out, s.fresh(32, ((0, MAXCP),)), 4)
            res.append((s, 1))
        if self.cfg.decthrow:
            s = st.fork()
            self.kill(s, 'the decoder throws')
            s.mon['foreign'] = True
            it.mark(s, 'the decoder throws')
            res.append((s, Throw('_ZTISt13runtime_error')))
        self.rep.count('characters fed', len(res))
        return Forks(res)

    def encode(self, c, os, cp):
        it, st = c.it, c.st
        m = st.mon
        p = iosof(c, os)
        d = ios(c, p)
        if d['buf'] != Ptr('$buf', 0):
            st.note(2, 'encoding into another stream')
            raise Dead()
        if not self.alive(m):
            return None
        if d['st'] != (0, 0, 0):
            return None

        def go():
            S = m['S']
            if S[0] != 's' or S[5] is not None:
                self.wrong(c, st, 'string', 'a character is encoded outside of a string')
            if not m['Q']:
                self.wrong(c, st, 'string', 'a character is written although none of the string is due')
            q = m['Q'][0]
            if isinstance(q, tuple) or self.need(q, st):
                self.wrong(c, st, 'string', 'a character that needs an escape is written without one')
            if not self.eqn(st, cp, q, 32):
                self.wrong(c, st, 'string', 'another character is written than the one in the string')
            m['Q'] = m['Q'][1:]
        s = st.fork() if self.cfg.encfail else None
        self.guarded(c, go)
        if s is None:
            return None
        setst(Ctx(it, s, c.I, c.f, c.args), p, f=1)
        self.kill(s, 'the encoder reports an error')
        it.mark(s, 'the encoder fails')
        return Forks([(s, None), (st, None)])

    # ---------------------------------------------------------------- results
    def returned(self, it, st):
        c = Ctx(it, st, None, None, None)
        m = st.mon
        if m['bad']:
            return
        try:
            if self.handler:
                self.rep.count('returns with a handler installed')
                if m['handled'] > 1:
                    self.wrong(c, st, 'handler-twice', 'the error handler is called more than once for one error')
                if m['dead'] and not m['handled']:
                    self.wrong(c, st, 'handler-missed', 'dump returns without calling the error handler although %s' % m['dead'])
                if m['handled']:
                    return
            self.rep.count('accepted')
            if m['dead']:
                self.wrong(c, st, 'accepts-failure', 'dump returns normally although %s' % m['dead'])
            if m['dead']:
                return
            self.guarded(c, lambda: self.number_end(c) if m['S'][0] == 'n' else None)
            if m['S'] != ('END',):
                self.wrong(c, st, 'string' if m['S'][0] == 's' else 'output', 'dump returns before the document is complete (state %s)' % (m['S'][0],))
            self.rep.count('documents checked')
        except ForkTo as f:
            for s in f.states:
                self.returned(it, s)
        except Dead:
            return

    def refusable(self, st):
        """a float that was found not to be finite may be refused"""
        return any(fin is not True for k, fin in self.floatfacts(st))

    def thrown(self, it, st, exc):
        c = Ctx(it, st, None, None, None)
        m = st.mon
        if m['bad']:
            return
        try:
            self.rep.count('refused')
            if self.handler:
                self.wrong(c, st, 'escapes-handler', 'an exception of type %s escapes although an error handler is installed' % exc)
            if not it.isbase(exc, self.exctype) and not m['foreign']:
                self.wrong(c, st, 'exception-type', 'an exception of type %s leaves the serializer' % exc)
            if not m['dead'] and not self.refusable(st):
                self.wrong(c, st, 'refuses-valid', 'a value that can be written is refused')
        except Dead:
            return

    def handle(self, c, this, ep):
        it, st = c.it, c.st
        m = st.mon
        self.rep.count('handler calls')
        v = it.load(st, ep, 8, 'ptr')
        if not isinstance(v, Ptr) or not st.caught or v != st.caught[-1][1]:
            self.wrong(c, st, 'handler-argument', 'the error handler does not get the exception that was thrown')
        elif not it.isbase(st.caught[-1][0], self.exctype) and not m['foreign']:
            self.wrong(c, st, 'exception-type', 'the error handler gets an exception of type %s' % st.caught[-1][0])
        if not m['dead'] and not self.refusable(st):
            self.wrong(c, st, 'refuses-valid', 'the error handler is called although the value can be written')
        m['handled'] = min(m['handled'] + 1, 2)
        return None


M_NODE = containers.NODE
M_KEY = 32


def whole(a, x):
    return isinstance(a, Op) and a.n in ('ceil', 'floor', 'trunc', 'rint', 'round', 'nearbyint') and a.a[0] == x


def zx(st, x):
    return zext(st, x, x.w, 32) if isinstance(x, Lin) and x.w < 32 else x


def ch(x):
    if not isinstance(x, int):
        return 'an unknown character'
    return {10: 'a line break', 32: 'a space'}.get(x & 255, repr(chr(x & 255)))


def plainloc(loc):
    """digits and separators are those of the classic locale"""
    if loc == 'classic':
        return True
    if isinstance(loc, tuple) and loc and loc[0] == 'mix':
        cats = loc[3] if isinstance(loc[3], int) else None
        return plainloc(loc[1]) and cats is not None and (not cats & NUMERIC or plainloc(loc[2]))
    return False


NUMERIC = 2     # std::locale::numeric (libstdc++: 1L << 1)


def kindsfor(mon, it):
    def f(st, p):
        m = st.mon
        if m['dead'] or m['bad']:
            return ('null',)
        n = len(m['K'])
        ks = (mon.cfg.root if p.r == '$v' else mon.cfg.kinds) or KINDS
        if n >= mon.cfg.depth:
            ks = tuple(k for k in ks if k not in ('array', 'object')) or ('null',)
        return ks
    return f


def explore(mod, layout, cfg, rep, name, entry='h_dump', budget=400):
    mon = DMon(cfg, layout, rep)
    mon.watch_store = cfg.const
    ms = Models(dict(PORTS, **{'ext_encoding::decode': lambda c, is_, out: mon.decode(c, is_, out),
                               'ext_encoding::encode': lambda c, os, cp: mon.encode(c, os, cp),
                               '$eh_handle': lambda c, this, ep: mon.handle(c, this, ep)}))
    it = Interp(mod, ms, mon)
    it.layout = layout
    it.float_opaque = True
    it.widen_ok = True
    it.gc = mon.gc
    it.tmax = 1 << 40
    it.zones = (1 << 40,)
    it.slot32_after = cfg.slot32
    st = State()
    c = Ctx(it, st, None, None, None)
    mon.start(st)
    it.lazykinds = kindsfor(mon, it)
    st.new_region('obj', None, ('py', ValuePolicy, 0, 0), name='$v')
    os = stream(c, '$os', portbuf(c, '$buf'), out=True)
    args = [Ptr('$v', 0), os]
    p = iosof(c, os)
    d = ios(c, p)
    if cfg.pretty == 'width':
        w = st.fresh(8, ((1, 255),), name='$width')
        f = st.fresh(8, ((1, 255),), name='$fill')
        d['w'] = zext(st, w, 8, 64)
        d['fill'] = f
        st.mon.update(width=d['w'], fill=f)
    elif entry == 'h_dump_indent':
        w = st.fresh(8, ((1, 255),), name='$width') if cfg.pretty else 0
        f = st.fresh(8, ((1, 255),), name='$fill')
        args += [w, f]
        st.mon.update(width=zext(st, w, 8, 64) if cfg.pretty else 0, fill=f)
    setios(c, p, d)
    if entry == 'h_dump_eh':
        mon.handler = True
        st.new_region('obj', None, ('undef',), name='$eh')
        st.new_region('ext', None, ('any',), name='$vteh')
        for o in (0, 8, 16):
            st.mem['$vteh'].cells[o] = (Fn('$eh_handle'), 8)
        it.store(st, Ptr('$eh', 0), Ptr('$vteh', 0), 8)
        args.append(Ptr('$eh', 0))
    it.enter(st, mod.funcs[entry], args)

    def finish(it, s, how, v):
        if how == 'throw':
            mon.thrown(it, s, v[0])
        else:
            mon.returned(it, s)
    it.finish = finish
    ex = Explorer(it, budget=budget, fifo=True)
    ex.only = rep.only
    ex.run([st])
    rep.engine(it, name, ex)
    return it, ex
