"""The JSON reader's property automaton: feeds the parser one class of character at a time, follows the
grammar, and checks what the parser has built whenever an element is complete.

Lag one: a delivered character is interpreted ("settled") when the next one is asked for, because only
then has the parser finished reacting to it."""
from .values import *
from .state import *
from .interp import *
from .models import *
from .explore import Explorer, Num, Chr
from .layout import *
from .ports import *
from .progress import Progress

MAXCP = 0x10FFFF
WS = ((9, 10), (13, 13), (32, 32))
SPECIAL = sorted(set([0, 9, 10, 13, 32] + [ord(c) for c in '[]{}:,"/+-0123456789tfn']))
REST = iv_not(tuple((c, c) for c in SPECIAL), 0, MAXCP)
PLAIN_ASCII = iv_not(((0x22, 0x22), (0x5C, 0x5C)), 0x20, 0x7F)
NONASCII = ((0x80, MAXCP),)
HEXD, HEXU, HEXL = ((48, 57),), ((65, 70),), ((97, 102),)
NONHEX = iv_not(((0, 0x1F), (48, 57), (65, 70), (97, 102), (0x22, 0x22), (0x5C, 0x5C)), 0, MAXCP)
NOESC = iv_not(tuple(sorted((ord(c), ord(c)) for c in '"\\/bfnrtu')), 0x20, MAXCP)
ESC = {'"': 0x22, '\\': 0x5C, '/': 0x2F, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9}
VALUE_START = set('[{"tfn+-0123456789')
MAXI = (1 << 63) - 1


UNKNOWN = 'it is not known'


class Cfg:
    """what is fed: an alphabet per kind of state"""

    def __init__(self, **kw):
        self.struct = set('[]{}:,"7t') | {'ws', 'nul', 'eof', 'rest'}
        self.comments = False
        self.strings = False        # escapes, controls, non-ASCII
        self.esc = False
        self.escs = None
        self.nou = False            # no \\u escapes
        self.hexmode = None         # restrict hex digits: 'd', 'u', 'l'
        self.pairs = False
        self.digits = '7'
        self.floats = False
        self.depth = 1
        self.overflow = False
        self.decfail = False
        self.decthrow = False       # a user's decoder may throw
        self.encfail = False
        self.handler = False
        self.litrest = True
        self.slot32 = 40
        self.progress = False
        self.num1 = False           # numbers of one digit
        self.str1 = False           # strings of one character
        self.__dict__.update(kw)


class Quiet:
    """a reason: shown in reports, ignored when states are compared"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def canon(self, C):
        return ('why',)

    def rewrite(self, W):
        return self

    def __str__(self):
        return self.v
    __repr__ = __str__


class JMon(Monitor):
    def __init__(self, cfg, layout, rep):
        self.cfg = cfg
        self.L = layout
        self.rep = rep

    # ------------------------------------------------------------------ feeding
    def start(self, st):
        st.mon.update(S='V0', K=(), V=None, P=None, T=None, B=False, Q=(), E=(), W=None, neg=False, dead=None,
                      flt=False, ins=(), handled=0, bad=None, foreign=False)

    def alphabet(self, m):
        """classes that can be delivered next: list of (class, interval set or code point)"""
        cfg, S = self.cfg, m['S']
        if m['bad'] or m['dead']:
            return self.closing(m)
        out = []
        if isinstance(S, str):
            if S in ('EOF', 'NUL'):
                return [('eof', None)]
            s = cfg.struct
            deep = len(m['K'])
            for c in '[]{}:,"tfn+-':
                if c in s and not (c in '[{' and deep >= cfg.depth and S in ('V0', 'A0', 'A1', 'OV')):
                    if c in '[{' and S not in ('V0', 'A0', 'A1', 'OV') and not cfg.litrest:
                        continue
                    out.append((c, ord(c)))
            for c in cfg.digits:
                out.append((c, ord(c)))
            if 'ws' in s:
                out.append(('ws', WS))
            if 'nul' in s:
                out.append(('nul', 0))
            if 'rest' in s:
                out.append(('rest', REST))
            if cfg.comments:
                out.append(('/', ord('/')))
            out.append(('eof', None))
            return out
        t = S[0]
        if t == 'l':
            e = S[1][S[2]]
            out = [(e, ord(e)), ('eof', None)]
            if cfg.litrest:
                out.append(('lrest', iv_not(((ord(e), ord(e)), (0, 0), (10, 10), (47, 47)), 0, MAXCP)))
            return out
        if t == 's':
            if cfg.str1:
                return [('"', 34)] if m['P'] or m['Q'] or m['B'] else [('plain', PLAIN_ASCII), ('eof', None)]
            out = [('"', 34), ('plain', PLAIN_ASCII), ('eof', None)]
            if cfg.strings or cfg.esc:
                out += [('\\', 92)]
            if cfg.strings:
                out += [('ctl', ((0, 0x1F),)), ('uni', NONASCII)]
            return out
        if t == 'e':
            return [(c, ord(c)) for c in (cfg.escs or ESC)] + ([] if cfg.nou else [('u', ord('u'))]) + [('noesc', NOESC), ('ctl', ((0, 0x1F),)), ('eof', None)]
        if t == 'u':
            return self.hexalpha(S)
        if t == 'ls':       # after a lead surrogate escape: backslash expected
            return [('\\', 92), ('"', 34), ('plain', PLAIN_ASCII), ('eof', None)]
        if t == 'lu':       # ... then u
            return [('u', ord('u')), ('n', ord('n')), ('noesc', NOESC), ('eof', None)]
        if t == 'n':
            return self.numalpha(m, S[1])
        if t == 'c1':
            return [('/', 47), ('*', 42), ('crest', iv_not(((47, 47), (42, 42)), 1, MAXCP)), ('nul', 0), ('eof', None)]
        if t == 'cl':
            return [('nl', ((10, 10), (13, 13))), ('crest', iv_not(((10, 10), (13, 13), (42, 42), (47, 47)), 1, MAXCP)),
                    ('*', 42), ('/', 47), ('nul', 0), ('eof', None)]
        if t in ('cb', 'cs'):
            return [('*', 42), ('/', 47), ('crest', iv_not(((42, 42), (47, 47)), 1, MAXCP)), ('nul', 0), ('eof', None)]
        raise AnalysisError('state %r' % (S,))

    def hexalpha(self, S):
        _, lead, k, val, first = S
        hm = self.cfg.hexmode
        out = []
        ok = lambda c: hm is None or hm == c
        if k == 0:
            if not lead and not self.cfg.pairs:
                out += [('h', HEXD)] if ok('d') else []
                out += [('h', ((65, 67),)), ('h', ((69, 70),))] if ok('u') else []
                out += [('h', ((97, 99),)), ('h', ((101, 102),))] if ok('l') else []
            elif lead:
                out += [('h', HEXD)]
            out += [('hD', 68)] if hm in (None, 'u', 'd') else []
            out += [('hD', 100)] if hm in (None, 'l') else []
        elif k == 1 and first:
            out += [('h', ((48, 55),))]
            if ok('d') or ok('u') or hm is None:
                out += [('h', ((56, 57),)), ('h', ((65, 66),)), ('h', ((67, 70),))]
            if ok('l'):
                out += [('h', ((97, 98),)), ('h', ((99, 102),))]
        else:
            out += [('h', HEXD)] if ok('d') else []
            out += [('h', HEXU)] if ok('u') else []
            out += [('h', HEXL)] if ok('l') else []
        out += [('nonhex', NONHEX), ('"', 34), ('eof', None)]
        return out

    def numalpha(self, m, s):
        cfg = self.cfg
        out = [('eof', None), ('ws', WS)]
        deep = len(m['K'])
        for c in ',]}':
            if deep and c in cfg.struct:
                out.append((c, ord(c)))
        if cfg.litrest:
            out.append(('rest', iv_not(tuple((c, c) for c in sorted(set(SPECIAL) | {ord('e'), ord('E'), ord('.')})), 0, MAXCP)))
        if 'nul' in cfg.struct:
            out.append(('nul', 0))
        if cfg.comments:
            out.append(('/', 47))
        if s in ('S', '0', 'I') and not (cfg.num1 and s != 'S'):
            out += [(c, ord(c)) for c in cfg.digits]
            if cfg.floats == 'frac':
                out += [('.', 46)]
            elif cfg.floats:
                out += [('.', 46), ('e', 101), ('E', 69)]
                if s == 'S':
                    out += [('-', 45)]
        elif s in ('.', 'F'):
            out += [('dig', ((48, 57),)), ('.', 46), ('-', 45)] + ([('e', 101), ('E', 69)] if cfg.floats != 'frac' else [])
        elif s == 'E':
            out += [('0', 48), ('dig19', ((49, 57),)), ('+', 43), ('-', 45), ('.', 46)]
        elif s in ('ES', 'ED'):
            out += [('0', 48), ('dig19', ((49, 57),)), ('.', 46), ('-', 45)]
        return out

    def closing(self, m):
        """after the text went wrong: the shortest way to a text that might be accepted by mistake"""
        S = m['S']
        if isinstance(S, str):
            c = {'V0': '7', 'A0': ']', 'A1': ']', 'O0': '}', 'O1': '}', 'OC': ':', 'OV': '7', 'AE': ']', 'OE': '}'}.get(S)
            return [('eof', None)] + ([(c, ord(c))] if c else [])
        t = S[0]
        if t == 'l':
            return [('eof', None), (S[1][S[2]], ord(S[1][S[2]]))]
        if t == 's':
            return [('"', 34), ('eof', None)]
        if t == 'e':
            return [('n', ord('n')), ('eof', None)]
        if t == 'u':
            return [('h', 48), ('eof', None)] if not (S[1] and S[2] < 2) else [('hD' if S[2] == 0 else 'h', 68 if S[2] == 0 else 67), ('eof', None)]
        if t == 'ls':
            return [('\\', 92), ('"', 34)]
        if t == 'lu':
            return [('u', ord('u')), ('"', 34)]
        if t == 'n':
            out = [('eof', None), ('ws', WS)]
            if m['K']:
                out.append((']', 93) if m['K'][-1][0] == 'a' else ('}', 125))
            if S[1] in ('S', '.', 'E', 'ES'):
                out.append(('7', 55))
            return out
        if t == 'cl':
            return [('nl', ((10, 10), (13, 13))), ('eof', None)]
        return [('*', 42), ('/', 47), ('eof', None)]

    # ------------------------------------------------------------------ the grammar
    def settle(self, c, st):
        """interpret the pending character; mutates st.mon"""
        m = st.mon
        P = m['P']
        if P is None:
            return
        m['P'] = None
        if P[0] == 'decfail':
            m['dead'] = m['dead'] or Quiet('the decoder reported an error')
            P = P[1]
        self.step(c, st, P[0], P[1].v if isinstance(P[1], Chr) else P[1])

    nocheck = False

    def settle_only(self, c, st):
        """settle after a failure: what was built is gone"""
        self.nocheck = True
        try:
            self.settle(c, st)
        finally:
            self.nocheck = False

    def die(self, m, why):
        if not m['dead']:
            m['dead'] = Quiet(why)

    def step(self, c, st, cls, v):
        m = st.mon
        S = m['S']
        if isinstance(S, str):
            return self.structure(c, st, cls, v)
        t = S[0]
        if t == 'l':
            text, i = S[1], S[2]
            if cls == text[i]:
                if i + 1 == len(text):
                    self.value_done(m, {'t': ('true',), 'f': ('false',), 'n': ('null',)}[text[0]])
                else:
                    m['S'] = ('l', text, i + 1)
                return
            self.die(m, 'misspelt literal')
            if cls == 'eof':
                m['S'] = 'EOF'
                return
            if i + 1 == len(text):
                self.value_done(m, ('?',))
            else:
                m['S'] = ('l', text, i + 1)
            return
        if t in ('s', 'e', 'u', 'ls', 'lu'):
            return self.string(c, st, cls, v)
        if t == 'n':
            return self.number(c, st, cls, v)
        base = S[1]
        if cls == 'eof':
            if t != 'cl':
                self.die(m, 'the text ends inside a comment')
            m['S'] = base
            return self.structure(c, st, 'eof', None)
        if cls == 'nul':
            if t != 'cl':
                self.die(m, 'the text ends inside a comment')
            m['S'] = base
            return self.structure(c, st, 'nul', 0)
        if t == 'c1':
            if cls == '/':
                m['S'] = ('cl', base)
            elif cls == '*':
                m['S'] = ('cb', base)
            else:
                self.die(m, 'a slash that starts no comment')
                m['S'] = base
        elif t == 'cl':
            if cls == 'nl':
                m['S'] = base
        elif t == 'cb':
            if cls == '*':
                m['S'] = ('cs', base)
        elif t == 'cs':
            if cls == '/':
                m['S'] = base
            elif cls != '*':
                m['S'] = ('cb', base)

    def value_done(self, m, rec):
        """a value is complete"""
        m['V'] = rec
        K = m['K']
        if not K:
            m['S'] = 'END'
        elif K[-1][0] == 'a':
            m['S'] = 'AE'
        elif K[-1][2] is None:
            # a key
            m['K'] = K[:-1] + (('o', rec, True, K[-1][3], K[-1][4]),)
            m['S'] = 'OC'
        else:
            m['S'] = 'OE'

    def structure(self, c, st, cls, v):
        m = st.mon
        S = m['S']
        K = m['K']
        if S in ('EOF', 'NUL'):
            return
        if cls == 'ws' or cls == 'nl':
            return
        if cls == '/':
            m['S'] = ('c1', S)
            return
        if cls in ('eof', 'nul'):
            if S != 'END':
                self.die(m, 'the text ends early')
            m['S'] = 'EOF' if cls == 'eof' else 'NUL'
            return
        if cls in ('rest', 'lrest', 'crest', 'plain'):
            self.die(m, 'an unexpected character')
            return
        if cls in VALUE_START:
            if S in ('O0', 'O1'):
                if cls != '"':
                    self.die(m, 'a key that is not a string')
                m['K'] = K[:-1] + (('o', None, None, K[-1][3], K[-1][4]),)
            elif S in ('AE', 'OE', 'OC', 'END'):
                self.die(m, 'two values without a separator' if S != 'END' else 'text after the end of the document')
            return self.begin_value(c, st, cls, v)
        if cls == ',':
            if S == 'AE':
                self.element(c, st)
                m['S'] = 'A1'
            elif S == 'OE':
                self.member(c, st)
                m['S'] = 'O1'
            else:
                self.die(m, 'a misplaced comma')
                if S == 'OC':
                    m['S'] = 'O1'
            return
        if cls == ':':
            if S == 'OC':
                m['S'] = 'OV'
            else:
                self.die(m, 'a misplaced colon')
            return
        if cls in (']', '}'):
            if not K:
                self.die(m, 'an unmatched bracket')
                return
            f = K[-1]
            if (cls == ']') != (f[0] == 'a'):
                self.die(m, 'the wrong closing bracket')
            elif S not in ('A0', 'A1', 'AE', 'O0', 'O1', 'OE'):
                self.die(m, 'an incomplete member')
            if not m['dead']:
                if S == 'AE':
                    self.element(c, st)
                elif S == 'OE':
                    self.member(c, st)
            f = m['K'][-1]
            m['K'] = K[:-1]
            rec = ('?',) if m['dead'] else ('a', f[1], f[2]) if f[0] == 'a' else ('o', f[3], f[4])
            return self.value_done(m, rec)
        raise AnalysisError('class %r in %r' % (cls, S))

    def begin_value(self, c, st, cls, v):
        m = st.mon
        if cls == '[':
            m['K'] += (('a', False, None),)
            m['S'] = 'A0'
        elif cls == '{':
            m['K'] += (('o', None, None, 0, None),)
            m['S'] = 'O0'
        elif cls == '"':
            m['S'] = ('s',)
            m['T'] = st.fresh(64, tag='str')
            m['B'] = False
            m['Q'] = ()
        elif cls in 'tfn':
            m['S'] = ('l', {'t': 'true', 'f': 'false', 'n': 'null'}[cls], 1)
        else:
            m['neg'] = cls == '-'
            if cls in '+-':
                m['W'] = Num(0)
                m['S'] = ('n', 'S')
            else:
                m['W'] = Num(ord(cls) - 48)
                m['S'] = ('n', '0' if cls == '0' else 'I')

    # ---- numbers
    def number(self, c, st, cls, v):
        m = st.mon
        s = m['S'][1]
        isd = len(cls) == 1 and cls.isdigit()
        if s in ('S', '0', 'I'):
            if isd and s != '0':
                d = ord(cls) - 48
                if s == 'S':
                    m['W'] = Num(d)
                    m['S'] = ('n', '0' if d == 0 else 'I')
                    return
                W = m['W']
                if W is not None and W != 'over':
                    lim = (MAXI + (1 if m['neg'] else 0) - d) // 10
                    if c.test('ule', W.v, lim):
                        m['W'] = Num(add(64, scale(64, W.v, 10), d))
                    else:
                        m['W'] = 'over'
                return
            if s == 'I' and cls == '.' or s == '0' and cls == '.':
                m['S'] = ('n', '.')
                m['W'] = None
                return
            if s == 'I' and cls in ('e', 'E'):
                m['S'] = ('n', 'E')
                m['W'] = None
                return
            if s == 'S':
                self.die(m, 'a sign without digits')
            elif s == '0' and (isd or cls in ('e', 'E')):
                self.die(m, 'a superfluous zero')
            elif m['W'] == 'over':
                self.die(m, 'an integer out of range')
            W, neg = m['W'], m['neg']
            rec = ('int', W, neg)
        else:
            dig = isd or cls in ('dig', 'dig19')
            if s in ('.', 'F') and dig:
                m['S'] = ('n', 'F')
                return
            if s == 'F' and cls in ('e', 'E'):
                m['S'] = ('n', 'E')
                return
            if s == 'E' and cls in ('+', '-'):
                m['S'] = ('n', 'ES')
                return
            if s == 'E' and dig:
                if cls == '0':
                    self.die(m, 'an exponent that starts with zero')
                m['S'] = ('n', 'ED')
                return
            if s in ('ES', 'ED') and dig:
                m['S'] = ('n', 'ED')
                return
            if s in ('.', 'E', 'ES'):
                self.die(m, 'a fraction or exponent without digits')
            m['flt'] = True
            rec = ('flt', m['neg'])
        m['W'] = None
        m['neg'] = False
        self.value_done(m, rec)
        if cls in ('.', 'e', 'E', 'dig', 'dig19'):
            self.die(m, 'a malformed number')
            return
        self.structure(c, st, cls, v)

    # ---- strings
    def push(self, st, m, cp):
        if m['Q']:
            # something expected earlier was never appended
            m['T'] = st.fresh(64, tag='str')
            m['Q'] = ()
        m['Q'] = m['Q'] + (cp,)

    def string(self, c, st, cls, v):
        m = st.mon
        S = m['S']
        t = S[0]
        if cls == 'eof':
            self.die(m, 'the text ends inside a string')
            m['S'] = 'EOF'
            return
        if t == 's':
            if cls == '"':
                rec = ('s', m['T'], m['B'] or bool(m['Q']))
                if m['Q']:
                    rec = ('s', st.fresh(64, tag='str'), True)
                m['T'] = None
                m['B'] = False
                m['Q'] = ()
                m['E'] = ()
                return self.value_done(m, rec)
            if cls == '\\':
                m['S'] = ('e',)
                return
            if cls == 'ctl':
                self.die(m, 'a control character inside a string')
            self.push(st, m, v)
            return
        if t == 'e':
            if cls == 'u':
                m['S'] = ('u', None, 0, 0, False)
                return
            m['S'] = ('s',)
            if cls in ESC:
                self.push(st, m, ESC[cls])
            else:
                self.die(m, 'an unknown escape')
            return
        if t == 'u':
            _, lead, k, val, first = S
            if cls in ('h', 'hD') or cls == '0':
                if isinstance(v, int):
                    d = int(chr(v), 16)
                else:
                    lo = st.ranges(v)[0][0]
                    d = sub(32, v, 48 if lo < 58 else 55 if lo < 91 else 87)
                val = add(32, val, scale(32, d, 1 << (12 - 4 * k)))
                if k == 0:
                    first = cls == 'hD'
                if k < 3:
                    m['S'] = ('u', lead, k + 1, val, first)
                    return
                r = st.ranges(val)
                lo, hi = r[0][0], r[-1][1]
                islead = lo >= 0xD800 and hi <= 0xDBFF
                istrail = lo >= 0xDC00 and hi <= 0xDFFF
                if not islead and not istrail and not (hi < 0xD800 or lo > 0xDFFF):
                    raise AnalysisError('hex classes do not separate the surrogates: %x-%x' % (lo, hi))
                if lead is not None:
                    if istrail:
                        cp = add(32, add(32, scale(32, sub(32, lead, 0xD800), 1024), sub(32, val, 0xDC00)), 0x10000)
                        self.push(st, m, cp)
                    else:
                        self.die(m, 'a lead surrogate without a trail surrogate')
                    m['S'] = ('s',)
                elif islead:
                    m['S'] = ('ls', val)
                elif istrail:
                    self.die(m, 'a lone trail surrogate')
                    m['S'] = ('s',)
                else:
                    self.push(st, m, val)
                    m['S'] = ('s',)
                return
            self.die(m, 'fewer than four hex digits')
            m['S'] = ('s',)
            if cls == '"':
                return self.string(c, st, cls, v)
            return
        if t == 'ls':
            if cls == '\\':
                m['S'] = ('lu', S[1])
                return
            self.die(m, 'a lead surrogate without a trail surrogate')
            m['S'] = ('s',)
            if cls == '"':
                return self.string(c, st, cls, v)
            return
        if t == 'lu':
            if cls == 'u':
                m['S'] = ('u', S[1], 0, 0, False)
                return
            self.die(m, 'a lead surrogate without a trail surrogate')
            m['S'] = ('s',)

    # ------------------------------------------------------------------ what was built
    def objs(self, st, kind):
        for r, g in st.mem.items():
            if g.alive and g.kind != 'global':
                for k, x in g.cells.items():
                    if isinstance(k, tuple) and k[0] == 'M' and x[0] == kind:
                        yield Ptr(r, k[1]), x

    def cell(self, st, p, off, size):
        g = st.mem.get(p.r)
        if g is None or not g.alive:
            return None
        o = addoff(p.o, off)
        o = st.simp(o) if isinstance(o, Lin) else o
        x = g.cells.get(o)
        if x is None:
            for k, y in g.cells.items():
                if not isinstance(k, tuple) and y[1] == size and offdiff(st, k, o) == 0:
                    x = y
                    break
        if x is None or x[1] != size:
            return None
        return st.simp(x[0]) if isinstance(x[0], Lin) else x[0]

    def eqn(self, st, a, b, w=64):
        a = st.simp(a) if isinstance(a, Lin) else a
        b = st.simp(b) if isinstance(b, Lin) else b
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            return decide(st, 'eq', w, a, b) is True
        return a == b

    def match(self, it, st, p, rec):
        """None if the value at p is the recorded one, else what is wrong"""
        L = self.L
        t = self.cell(st, p, L.tag, L.tagsize)
        k = L.name.get(t) if isinstance(t, int) else None
        if k is None:
            return 'its kind is %r' % (t,) if t is not None else UNKNOWN
        want = {'null': 'null', 'true': 'boolean', 'false': 'boolean', 'int': 'integer', 'flt': 'floating', 's': 'string',
                'a': 'array', 'o': 'object'}.get(rec[0])
        if k != want:
            return 'it is %s instead of %s' % (k, want)
        if k == 'null':
            return None
        v = self.cell(st, p, L.off[k], L.psize[k])
        if k == 'boolean':
            return None if v == (1 if rec[0] == 'true' else 0) else 'the boolean is %r' % (v,)
        if k == 'integer':
            w = rec[1].v
            if not isinstance(v, (int, Lin)):
                return 'the integer is %r' % (v,)
            if rec[2]:
                w = scale(64, w, -1)
            return None if self.eqn(st, v, w) else 'the integer stored is %r instead of %r' % (v, w)
        if k == 'floating':
            if not isinstance(v, Op) or v is UNDEF:
                return 'the float is %r' % (v,)
            if not self.finite(st, v):
                return 'the float was never checked to be finite'
            if rec[1] and not hasneg(v):
                return 'the sign is lost'
            if not rec[1] and v.n == 'fneg':
                return 'a positive number is negated'
            return None
        if not isinstance(v, Ptr):
            return 'the payload is %r' % (v,)
        g = st.mem.get(v.r)
        x = g.cells.get(('M', v.o)) if g is not None and g.alive else None
        if x is None:
            return 'the payload is not a live %s' % k
        if k == 'string':
            return self.strmatch(st, x, rec)
        if k == 'array':
            if x[0] != 'vec':
                return 'the payload is %r' % (x[0],)
            if not rec[1]:
                return None if self.eqn(st, x[1], 0) else 'the array is not empty'
            return None if (v, 0) in rec[2] else 'it is not the array that holds exactly the elements read'
        if x[0] != 'map':
            return 'the payload is %r' % (x[0],)
        if rec[1] == 0:
            return None if self.eqn(st, x[1], 0) else 'the object is not empty'
        if rec[2] is not None and v not in rec[2]:
            return 'it is not the object whose members were read'
        return None

    def strmatch(self, st, x, rec):
        if x[0] != 'str':
            return 'the payload is %r' % (x[0],)
        if not rec[2]:
            return None if self.eqn(st, x[2], 0) else 'the string is not empty'
        return None if x[1] == rec[1] else 'the string does not hold exactly the characters read'

    def finite(self, st, v):
        while v.n in ('fneg', 'fpext', 'fptrunc'):
            v = v.a[0]
        if v.n == 'fc':
            return v.a[0] == v.a[0] and abs(v.a[0]) != float('inf')
        if st.mon.get('fin') is not None and v in st.mon['fin']:
            return True
        return any(fin is not False and mentions(k, v) for k, fin in self.floatfacts(st))

    def floatfacts(self, st):
        """the tests of floats on this path, with their outcome: finite (True), not finite (False), unclear (None)"""
        for d in (st.rng, st.sub):
            for k, x in d.items():
                if k[0] != 'op' or k[2] not in ('isfinite', 'isinf', 'isnan', 'fcmp', 'fpclass'):
                    continue
                if k[2] == 'fcmp' and any(isinstance(a, Op) and a.n == 'fc' and abs(a.a[0]) < 1e30 for a in k[3:]):
                    continue        # no test for being out of range
                one = x == 1 if isinstance(x, int) else x[0][0] > 0 if isinstance(x, tuple) else None
                if k[2] in ('fcmp', 'fpclass') or one is None or isinstance(x, tuple) and not one and x[-1][1] > 0:
                    yield k, None
                else:
                    yield k, one == (k[2] == 'isfinite')

    def wrong(self, c, st, rule, msg):
        st.mon['bad'] = True
        c.it.violation(st, rule, msg)

    def element(self, c, st):
        """an element of an array is complete: some array holds it, in the right place"""
        m = st.mon
        f = m['K'][-1]
        if m['dead'] or self.nocheck:
            return
        rec = m['V']
        ok = []
        why = 'no array has room for it'
        for p, x in self.objs(st, 'vec'):
            if x[3][1] != self.L.size or not isinstance(x[2], Ptr):
                continue
            if (p, 1) not in f[2] if f[1] else not self.eqn(st, x[1], 1):
                continue
            n = sub(64, x[1], 1)
            r = self.match(c.it, st, Ptr(x[2].r, addoff(x[2].o, scale(64, n, self.L.size))), rec)
            if r is None:
                ok.append(p)
            elif why is not UNKNOWN:
                why = r
        self.rep.count('elements checked')
        if not ok and why is UNKNOWN:
            st.note(2, 'the last element of an array is not known')
        if not ok:
            self.wrong(c, st, 'element', 'an array element is not stored as read: ' + why)
        for p in ok:
            # compared: from here on only its place in the array matters
            x = st.mem[p.r].cells[('M', p.o)]
            n = sub(64, x[1], 1)
            g = st.wreg(x[2].r)
            base = addoff(x[2].o, scale(64, n, self.L.size))
            for k in [k for k in g.cells if not isinstance(k, tuple)]:
                d = offdiff(st, k, base)
                if isinstance(d, int) and 0 <= d < self.L.size:
                    del g.cells[k]
        m['K'] = m['K'][:-1] + (('a', True, frozenset((p, 0) for p in ok)),)
        m['V'] = None

    def member(self, c, st):
        m = st.mon
        f = m['K'][-1]
        if m['dead'] or self.nocheck:
            return
        rec = m['V']
        key = f[1]
        ok = []
        why = 'nothing was stored under its key'
        self.rep.count('members checked')
        for mp, node, kind in m['ins']:
            if f[4] is not None and mp not in f[4]:
                why = 'it is stored in another object'
                continue
            if kind == 'dup':
                ok.append(mp)
                continue
            g = st.mem.get(node.r)
            x = g.cells.get(('M', node.o)) if g is not None and g.alive else None
            if x is None:
                why = 'its key is not a string'
                continue
            r = self.strmatch(st, x, key)
            if r is not None:
                why = 'the key: ' + r
                continue
            r = self.match(c.it, st, Ptr(node.r, addoff(node.o, 32)), rec)
            if r is None:
                ok.append(mp)
            elif why is not UNKNOWN:
                why = r
        if not ok and why is UNKNOWN:
            st.note(2, 'a member of an object is not known')
        if not ok:
            self.wrong(c, st, 'member', 'an object member is not stored as read: ' + why)
        if len(m['ins']) > 1:
            self.wrong(c, st, 'member', 'more than one member is stored for one member of the text')
        for p in ok:
            x = st.mem[p.r].cells[('M', p.o)]
            st.wreg(p.r).cells[('M', p.o)] = x[:4] + ((),)
        m['K'] = m['K'][:-1] + (('o', None, None, 1, frozenset(ok)),)
        m['ins'] = ()
        m['V'] = None

    # ------------------------------------------------------------------ events of the program
    def in_string(self, m):
        P = m['P']
        S = m['S']
        if isinstance(S, str) or S[0] not in ('s', 'e', 'u', 'ls', 'lu'):
            return False
        return not (P is not None and S[0] == 's' and P[0] == '"')

    def event(self, c, name, *data):
        h = getattr(self, 'ev_' + name.replace('.', '_'), None)
        if h:
            return h(c, *data)

    def chmatch(self, st, u, cp):
        """the unit u stands for the code point cp"""
        for mark, e in st.mon['E']:
            if u == mark or isinstance(u, Lin) and isinstance(mark, Lin) and u.t == mark.t:
                return self.eqn(st, e, cp, 32)
        if isinstance(u, int):
            return u < 0x80 and self.eqn(st, u, cp, 32)
        if isinstance(u, Lin) and isinstance(cp, Lin):
            r = st.ranges(cp)
            return r[-1][1] < 0x80 and decide(st, 'eq', 32, rew(zext(st, u, u.w, 32), 32) if u.w < 32 else u, cp) is True
        return False

    def ev_str_append(self, c, this, chars, n):
        st = c.st
        m = st.mon
        if m['T'] is None or m['dead']:
            if not (self.in_string(m) and m['P']):
                return None
        if self.in_string(m) and not (chars and chars[0] == 'rep'):
            self.settle(c, st)
        if m['dead'] or m['T'] is None:
            return None
        x = c.getM(this, 'str')
        if x is None:
            return None
        mine = x[1] == m['T']
        fresh = x[1] == ('lit', ()) and not m['B']
        if not mine and not fresh:
            return None
        if isinstance(chars, tuple) and chars and chars[0] == 'span':
            return None
        if chars and chars[0] == 'rep':
            if n != 1:
                return None
            chars = (chars[1],)
        q = m['Q']
        if len(chars) > len(q) or not all(self.chmatch(st, u, e) for u, e in zip(chars, q)):
            return None        # some other text, or the contents are lost: found when the string is compared
        m['Q'] = q[len(chars):]
        if not m['Q']:
            m['E'] = ()
        m['B'] = True
        c.setM(this, ('str', m['T'], add(64, st.simp(x[2]) if isinstance(x[2], Lin) else x[2], len(chars)), 0))
        return 'done'

    def remap(self, m, fa, fo):
        """apply fa to the candidate arrays and fo to the candidate objects of everything under construction"""
        m['K'] = tuple((f[0], f[1], fa(f[2]) if f[2] is not None else None) if f[0] == 'a' else
                       f[:4] + (fo(f[4]) if f[4] is not None else None,) for f in m['K'])
        V = m['V']
        if V and V[0] in ('a', 'o') and V[2] is not None:
            m['V'] = V[:2] + ((fa if V[0] == 'a' else fo)(V[2]),)

    def vecset(self, st, p, old, new):
        """the vector at p changes its size"""
        m = st.mon
        if not m['K'] and not m['V']:
            return
        def up(s):
            t = [x for x in s if x[0] == p]
            if not t:
                return s
            d = None
            if new is not None and new[0] == 'vec':
                d = sub(64, st.simp(new[1]) if isinstance(new[1], Lin) else new[1], old[1])
                d = st.simp(d) if isinstance(d, Lin) else d
            rest = [x for x in s if x[0] != p]
            if isinstance(d, int):
                d = d if d < 1 << 63 else d - (1 << 64)
                rest += [(q, k + d) for q, k in t if -3 < k + d < 3]
            return frozenset(rest)
        self.remap(m, up, lambda s: s)

    def ev_vec_copy(self, c, this, src):
        """dst is a copy of src"""
        self.remap(c.st.mon, lambda s: s | {(this, k) for q, k in s if q == src}, lambda s: s)
    ev_vec_move = ev_vec_copy

    def ev_vec_swap(self, c, x, y):
        def up(s):
            return frozenset((y if q == x else x if q == y else q, k) for q, k in s)
        self.remap(c.st.mon, up, lambda s: s)

    def ev_map_copy(self, c, this, src):
        m = c.st.mon
        self.remap(m, lambda s: s, lambda s: s | {this} if src in s else s - {this})
        m['ins'] = tuple(x for x in m['ins'] if x[0] != this) + tuple((this,) + x[1:] for x in m['ins'] if x[0] == src)
    ev_map_move = ev_map_assign = ev_map_copy

    def ev_map_swap(self, c, x, y):
        m = c.st.mon
        self.remap(m, lambda s: s, lambda s: frozenset(y if q == x else x if q == y else q for q in s))
        m['ins'] = tuple((y if q == x else x if q == y else q,) + r for q, *r in m['ins'] for r in [tuple(r)])

    def ev_map_clear(self, c, this, *a):
        m = c.st.mon
        self.remap(m, lambda s: s, lambda s: s - {this})
        m['ins'] = tuple(x for x in m['ins'] if x[0] != this)
    ev_map_erase = ev_map_erase_key = ev_map_clear

    def ismap(self, c):
        return 'configor::basic_value<' in (c.f.ctxfull or '') and c.f.ctx in containers.KINDS

    def ev_map_inserted(self, c, this, node, a):
        if self.ismap(c) and not c.st.mon['dead']:
            c.st.mon['ins'] += ((this, Ptr(node.r, addoff(node.o, containers.KINDS.get(c.f.ctx, 32))), 'new'),)

    def ev_map_dup(self, c, this, node, a):
        if self.ismap(c) and not c.st.mon['dead']:
            c.st.mon['ins'] += ((this, node, 'dup'),)
    def ev_map_indexed(self, c, this, node, how):
        if self.ismap(c) and not c.st.mon['dead']:
            c.st.mon['ins'] += ((this, Ptr(node.r, addoff(node.o, containers.KINDS.get(c.f.ctx, 32))), 'new' if how == 'new' else 'dup'),)

    # ------------------------------------------------------------------ ports
    def decode(self, c, is_, out):
        it, st = c.it, c.st
        self.settle(c, st)
        m = st.mon
        p = iosof(c, is_)
        res = []
        if m['S'] in ('EOF',):
            if it.progress is not None:
                it.progress.polled(st)
            setst(c, p, e=1, f=1)
            m['P'] = ('eof', None)
            return 0
        if it.progress is not None:
            it.progress.consumed(st)
        al = self.alphabet(m)
        for cls, v in al:
            s = st.fork()
            c2 = Ctx(it, s, c.I, c.f, c.args)
            if cls == 'eof':
                setst(c2, p, e=1, f=1)
                s.mon['P'] = ('eof', None)
                it.mark(s, 'end of text')
                res.append((s, 0))
                continue
            x = v if isinstance(v, int) else s.fresh(32, v)
            s.mon['P'] = (cls, x if isinstance(x, int) else Chr(x))
            it.mark(s, show(cls, v))
            it.store(s, out, x, 4)
            res.append((s, 1))
        if self.cfg.decfail and not m['dead']:
            for cls, v in self.closing(m):
                if cls == 'eof':
                    continue
                s = st.fork()
                c2 = Ctx(it, s, c.I, c.f, c.args)
                setst(c2, p, f=1)
                x = v if isinstance(v, int) else s.fresh(32, v)
                s.mon['P'] = ('decfail', (cls, x if isinstance(x, int) else Chr(x)))
                it.mark(s, 'undecodable ' + show(cls, v))
                it.store(s, out, x, 4)
                res.append((s, 1))
            # a sequence that is cut off by the end of the text
            s = st.fork()
            setst(Ctx(it, s, c.I, c.f, c.args), p, f=1, e=1)
            s.mon['P'] = ('eof', None)
            s.mon['dead'] = Quiet('a truncated sequence at its end')
            it.mark(s, 'truncated sequence')
            it.store(s, out, s.fresh(32, ((0, MAXCP),)), 4)
            res.append((s, 1))
        if self.cfg.decthrow and not m['dead']:
            s = st.fork()
            s.mon['dead'] = Quiet('the decoder threw')
            s.mon['foreign'] = True
            it.mark(s, 'the decoder throws')
            res.append((s, Throw('_ZTISt13runtime_error')))
        self.rep.count('characters fed', len(res))
        return Forks(res)

    def encode(self, c, os, cp):
        it, st = c.it, c.st
        m = st.mon
        if self.in_string(m):
            self.settle(c, st)
        e = st.fresh(8, ((0, 255),), tag='enc')
        m['E'] += ((e, cp),)
        res = []
        if self.cfg.encfail and not m['dead']:
            s = st.fork()
            c2 = Ctx(it, s, c.I, c.f, c.args)
            setst(c2, iosof(c2, os), f=1)
            s.mon['dead'] = Quiet('the encoder reported an error')
            it.mark(s, 'the encoder fails')
            res.append((s, None))
        put = it.models.get('std::basic_ostream::put')
        r = put(c, os, e)
        return Forks(res + [(st, r)]) if res else r

    def value(self, c, v):
        """the parse returned: v is the result"""
        it, st = c.it, c.st
        m = st.mon
        self.settle(c, st)
        if self.handler:
            self.rep.count('returns with a handler installed')
            if m['handled'] > 1:
                self.wrong(c, st, 'handler-twice', 'the error handler is called more than once for one error')
            if m['dead'] and not m['handled']:
                self.wrong(c, st, 'handler-missed', 'the parse returns without calling the error handler although the text contains %s' % m['dead'])
            if m['handled']:
                raise Dead()
        self.rep.count('accepted')
        if m['dead']:
            self.wrong(c, st, 'accepts-malformed', 'text is accepted although it contains %s' % m['dead'])
        if m['S'] not in ('EOF', 'NUL'):
            self.wrong(c, st, 'unread-rest', 'the parse returns before it has seen the end of the text (state %r)' % (m['S'],))
        self.rep.count('results checked')
        r = self.match(it, st, v, m['V'])
        if r is UNKNOWN:
            st.note(2, 'the result is not known')
        if r is not None:
            self.wrong(c, st, 'result', 'the value returned is not the one the text describes: ' + r)
        raise Dead()

    def thrown(self, it, st, exc):
        """an exception leaves the parse"""
        c = Ctx(it, st, None, None, None)
        m = st.mon
        if m['bad']:
            return
        try:
            self.settle_only(c, st)
        except ForkTo as f:
            for s in f.states:
                self.thrown(it, s, exc)
            return
        self.rep.count('rejected')
        if self.handler:
            self.wrong(c, st, 'escapes-handler', 'an exception of type %s escapes although an error handler is installed' % exc)
            return
        if not it.isbase(exc, self.exctype) and not m['foreign']:
            self.wrong(c, st, 'exception-type', 'an exception of type %s leaves the parser' % exc)
        if not m['dead']:
            if self.floaty(st):
                return
            self.wrong(c, st, 'rejects-valid', 'well-formed text is refused (state %r)' % (m['S'],))

    handler = False

    def handle(self, c, this, ep):
        """the error handler is called"""
        it, st = c.it, c.st
        m = st.mon
        self.settle_only(c, st)
        self.rep.count('handler calls')
        v = it.load(st, ep, 8, 'ptr')
        if not isinstance(v, Ptr) or not st.caught or v != st.caught[-1][1]:
            self.wrong(c, st, 'handler-argument', 'the error handler does not get the exception that was thrown')
        elif not it.isbase(st.caught[-1][0], self.exctype) and not m['foreign']:
            self.wrong(c, st, 'exception-type', 'the error handler gets an exception of type %s' % st.caught[-1][0])
        if not m['dead'] and not self.floaty(st):
            self.wrong(c, st, 'rejects-valid', 'the error handler is called for well-formed text (state %r)' % (m['S'],))
        m['handled'] = min(m['handled'] + 1, 2)
        return None

    exctype = '_ZTIN8configor30configor_deserialization_errorE'

    def floaty(self, st):
        m = st.mon
        if not (m['flt'] or (not isinstance(m['S'], str) and m['S'][0] == 'n' and m['S'][1] not in ('S', '0', 'I'))):
            return False
        return any(fin is not True for k, fin in self.floatfacts(st))


def overflow(it, st, I, a, b):
    """signed arithmetic of the library stays within its type"""
    if I.o not in ('add', 'sub', 'mul') or 'configor' not in (st.frames[-1].fn.qual or ''):
        return
    w = I.w
    H = 1 << (w - 1)
    if not I.nsw:
        # digits accumulated in an unsigned variable
        k, v = (a, b) if isinstance(a, int) else (b, a)
        if k != 10 or not isinstance(v, Lin) or 'json_parser' not in (st.frames[-1].fn.qual or ''):
            return
        it.stats['obligations'] = it.stats.get('obligations', 0) + 1
        if st.ranges(v)[-1][1] * 10 >= 1 << w:
            it.violation(st, 'digits-wrap', 'digits accumulated in an unsigned number of %d bits can wrap around' % w)
        return
    x, y = (mathrep(st, v, w, True) if isinstance(v, Lin) else ({}, v - (v >> (w - 1) << w)) if isinstance(v, int) else None for v in (a, b))
    if x is None or y is None:
        return
    x, y = (dict(x[0]), x[1]), (dict(y[0]), y[1])
    if I.o == 'mul':
        if x[0] and y[0]:
            return
        k, z = (x[1], y) if not x[0] else (y[1], x)
        acc, c = {q: m * k for q, m in z[0].items()}, z[1] * k
    else:
        s = 1 if I.o == 'add' else -1
        acc, c = dict(x[0]), x[1] + s * y[1]
        for q, m in y[0].items():
            acc[q] = acc.get(q, 0) + s * m
    t = mkset(acc)
    lo, hi = st.hullt(t, c) if t else (c, c)
    it.stats['obligations'] = it.stats.get('obligations', 0) + 1
    if lo < -H or hi > H - 1:
        it.violation(st, 'signed-overflow', 'signed %s of %d bits can overflow: %s to %s' % (I.o, w, lo, hi))


def mentions(k, v):
    for a in k[3:]:
        if a == v or isinstance(a, Op) and opmentions(a, v) or isinstance(a, Lin) and any(x[0] == 'op' and mentions(x, v) for x, _ in a.t):
            return True
    return False


def opmentions(o, v):
    return o == v or any(isinstance(a, Op) and opmentions(a, v) for a in o.a)


def hasneg(v):
    if v.n in ('fneg', 'fsub', 'fmul', 'copysign', 'fdiv'):
        return True
    return v.n == 'some' and False or any(isinstance(a, Op) and hasneg(a) for a in v.a)


def show(cls, v):
    if cls in ('h', 'hD', 'ws', 'rest', 'plain', 'uni', 'ctl') or v is None or not isinstance(v, int):
        return {'h': 'hex digit', 'ws': 'whitespace', 'rest': 'other character', 'plain': 'plain character', 'uni': 'non-ASCII character',
                'ctl': 'control character'}.get(cls, cls) + (' ' + ','.join('U+%04X-%04X' % x for x in v[:3]) if isinstance(v, tuple) else '' if v is None else ' ' + repr(chr(v)))
    return repr(chr(v))


def explore(mod, layout, cfg, rep, name, entry='h_parse', budget=400, trace=False):
    mon = JMon(cfg, layout, rep)
    ms = Models(dict(PORTS, **{'ext_encoding::decode': lambda c, is_, out: mon.decode(c, is_, out),
                               'ext_encoding::encode': lambda c, os, cp: mon.encode(c, os, cp),
                               'm_value': lambda c, v: mon.value(c, v),
                               '$eh_handle': lambda c, this, ep: mon.handle(c, this, ep)}))
    it = Interp(mod, ms, mon)
    it.layout = layout
    it.float_opaque = True
    it.widen_ok = True
    it.slot32_after = cfg.slot32
    it.overflow_hook = overflow if cfg.overflow else None
    st = State()
    c = Ctx(it, st, None, None, None)
    mon.start(st)
    args = [stream(c, '$is', portbuf(c, '$buf'))]
    if entry == 'h_parse_eh':
        mon.handler = True
        st.new_region('obj', None, ('undef',), name='$eh')
        st.new_region('ext', None, ('any',), name='$vteh')
        st.mem['$vteh'].cells[0] = (Fn('$eh_handle'), 8)
        st.mem['$vteh'].cells[8] = (Fn('$eh_handle'), 8)
        st.mem['$vteh'].cells[16] = (Fn('$eh_handle'), 8)
        it.store(st, Ptr('$eh', 0), Ptr('$vteh', 0), 8)
        args.append(Ptr('$eh', 0))
    it.enter(st, mod.funcs[entry], args)

    def finish(it, s, how, v):
        if how == 'throw':
            mon.thrown(it, s, v[0])
    it.finish = finish
    ex = Explorer(it, budget=budget)
    ex.only = rep.only
    if cfg.progress:
        it.progress = Progress(it, lambda s: len(s.mon['K']))
    ex.run([st])
    if cfg.progress:
        rep.loops = getattr(rep, 'loops', set()) | it.progress.loops
        rep.count('loops examined', len(it.progress.loops))
    rep.engine(it, name, ex)
    return it, ex
