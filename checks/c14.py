"""C14: the Unicode codecs are exact inverses of the standard encoding forms and reject everything else."""
from engine import build
from engine.values import *
from engine.state import *
from engine.interp import *
from engine.models import *
from engine.ports import *
from engine.explore import Explorer
from engine.report import Report, Broken

SUR = ((0xD800, 0xDFFF),)
MAXCP = 0x10FFFF


def seq(*iv):
    return list(iv)


# well-formed unit sequences and the codepoint they denote: (unit intervals, value as sum coef*unit + c)
UTF8 = [(seq((0, 0x7F)), ((1,), 0)),
        (seq((0xC2, 0xDF), (0x80, 0xBF)), ((64, 1), -(0xC0 << 6) - 0x80))]
_c3 = ((4096, 64, 1), -(0xE0 << 12) - (0x80 << 6) - 0x80)
_c4 = ((262144, 4096, 64, 1), -(0xF0 << 18) - (0x80 << 12) - (0x80 << 6) - 0x80)
_t = (0x80, 0xBF)
UTF8 += [(seq((0xE0, 0xE0), (0xA0, 0xBF), _t), _c3), (seq((0xE1, 0xEC), _t, _t), _c3),
         (seq((0xED, 0xED), (0x80, 0x9F), _t), _c3), (seq((0xEE, 0xEF), _t, _t), _c3),
         (seq((0xF0, 0xF0), (0x90, 0xBF), _t, _t), _c4), (seq((0xF1, 0xF3), _t, _t, _t), _c4),
         (seq((0xF4, 0xF4), (0x80, 0x8F), _t, _t), _c4)]
UTF16 = [(seq((0, 0xD7FF)), ((1,), 0)), (seq((0xE000, 0xFFFF)), ((1,), 0)),
         (seq((0xD800, 0xDBFF), (0xDC00, 0xDFFF)), ((1024, 1), 0x10000 - (0xD800 << 10) - 0xDC00))]
UTF32 = [(seq((0, 0xD7FF)), ((1,), 0)), (seq((0xE000, MAXCP)), ((1,), 0))]

# name, forms, unit width, bits of get()'s result, highest unit the stream can deliver
CODECS = [('utf8_char', UTF8, 8, 32, 0xFF), ('utf16_char16', UTF16, 16, 16, 0xFFFE),
          ('utf16_wchar', UTF16, 32, 32, 0xFFFFFFFE), ('utf32_char32', UTF32, 32, 32, 0xFFFFFFFE),
          ('utf32_wchar', UTF32, 32, 32, 0xFFFFFFFE), ('auto_char', UTF8, 8, 32, 0xFF),
          ('auto_char16', UTF16, 16, 16, 0xFFFE), ('auto_char32', UTF32, 32, 32, 0xFFFFFFFE),
          ('auto_wchar', UTF32, 32, 32, 0xFFFFFFFE)]


class Mon(Monitor):
    def __init__(self, cw, iw, top):
        self.cw, self.iw, self.top = cw, iw, top

    def read(self, c, this, peek):
        st = c.st
        cur = st.mon.get('cur')
        eof = (1 << self.iw) - 1
        if cur is not None:
            if not peek:
                if cur != 'eof':
                    st.mon['cur'] = None
                    st.mon['u'] = st.mon.get('u', ()) + (cur,)
            return eof if cur == 'eof' else self.widen(st, cur)
        if len(st.mon.get('u', ())) > 5:
            c.it.violation(st, 'reads-on', 'more than five units are consumed for one codepoint')
        s2 = st.fork()
        s2.mon['cur'] = 'eof'
        a = st.fresh(self.cw, ((0, self.top),))
        if peek:
            st.mon['cur'] = a
        else:
            st.mon['u'] = st.mon.get('u', ()) + (a,)
        return Forks([(st, self.widen(st, a)), (s2, eof)])

    def widen(self, st, a):
        return zext(st, a, self.cw, self.iw) if self.cw < self.iw else a

    def write(self, c, this, chs):
        c.st.mon['o'] = c.st.mon.get('o', ()) + tuple(chs)
        return chs[0] if isinstance(chs[0], int) and chs[0] != 0xffffffff else 0

    def writen(self, c, this, s, n):
        n = c.st.simp(n) if isinstance(n, Lin) else n
        if not isinstance(n, int) or n > 16:
            c.st.note(2, 'write of unknown length')
            return n
        b = self.cw // 8
        for i in range(n):
            v = c.it.load(c.st, Ptr(s.r, addoff(s.o, i * b)), b, 'i%d' % self.cw)
            self.write(c, this, [v])
        return n


def u32(st, v, w):
    if isinstance(v, int):
        return v
    vw = v.w
    return v if vw == 32 else zext(st, v, vw, 32) if vw < 32 else trunc(st, v, 32)


def within(st, v, lo, hi):
    v = st.simp(v) if isinstance(v, Lin) else v
    return refine(st, 'uge', v.w if isinstance(v, Lin) else 32, v, lo) and refine(st, 'ule', v.w if isinstance(v, Lin) else 32, v, hi)


def same(it, rep, st, a, b, w, rule, msg):
    """obligation a == b on this path"""
    a = st.simp(a) if isinstance(a, Lin) else a
    b = st.simp(b) if isinstance(b, Lin) else b
    rep.count('obligations')
    if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
        if a != b:
            bad(it, rep, st, rule, msg + ' (%r instead of %r)' % (a, b))
        return
    r = decide(st, 'eq', w, a, b)
    if r:
        return
    if r is None and st.imp == 0 and precise(a) and precise(b):
        s2 = st.fork()
        if not refine(s2, 'ne', w, a, b):
            return
        r = False
    if r is False:
        bad(it, rep, st, rule, msg + ' (%r instead of %r)' % (a, b))
    else:
        rep.notes['undecided: ' + msg] = rep.notes.get('undecided: ' + msg, 0) + 1


def precise(v):
    return isinstance(v, int) or all(k[0] == 'a' or k[0] == 'sl' for k, _ in v.t)


def bad(it, rep, st, rule, msg):
    if st.imp:
        rep.notes['suppressed: %s (%s)' % (rule, st.why)] = 1
        return
    rep.violation(rule, it.cur, '%s: %s' % (it.cur, msg))


def check_decode(it, rep, mod, name, forms, cw, iw, top):
    it.cur = 'decode ' + name
    st = State()
    c = Ctx(it, st, None, None, None)
    is_ = stream(c, '$is', portbuf(c, '$buf'))
    cp = Ptr(st.new_region('obj', 4, ('undef',), name='$cp'), 0)
    it.enter(st, mod.funcs['h_dec_' + name], [is_, cp])

    def fin(it, st, how, v):
        rep.count('paths')
        if how != 'return':
            return bad(it, rep, st, 'throws', 'an exception leaves the decoder')
        u = st.mon.get('u', ())
        c = Ctx(it, st, None, None, None)
        e, f, b = ios(c, Ptr('$is', 16))['st']
        v = st.simp(v) if isinstance(v, Lin) else v
        pend = st.mon.get('cur')
        if not u:
            if pend == 'eof' or pend is None:
                if v not in (0, 1):
                    rep.notes['undecided result'] = 1
                elif v != 0:
                    bad(it, rep, st, 'eof-result', 'the end of the input is not reported (returns true)')
                return
            return bad(it, rep, st, 'no-progress', 'a unit is looked at but not consumed')
        if v != 1:
            s2 = st.fork()
            if isinstance(v, Lin) and not refine(s2, 'eq', v.w, v, 0):
                pass
            else:
                return bad(it, rep, st, 'unit-result', 'returns false (end of input) although a unit was read')
        n = len(u)
        wf_states = []
        covered = []
        for iv, val in forms:
            # prefix of a well-formed sequence of the length read?
            s = st.fork()
            ok = True
            for i in range(min(n, len(iv))):
                if not within(s, u[i], iv[i][0], iv[i][1]):
                    ok = False
                    break
            if not ok:
                continue
            if len(iv) == n:
                wf_states.append((s, val))
            elif len(iv) > n and not f and not b and pend != 'eof':
                bad(it, rep, s, 'short', 'a sequence of %d units is accepted after %d' % (len(iv), n))
            elif len(iv) < n:
                bad(it, rep, s, 'overread', 'a unit after a complete sequence of %d is consumed' % len(iv))
        for s, (co, k) in wf_states:
            rep.count('well-formed classes')
            if f or b:
                bad(it, rep, s, 'rejects', 'a well-formed sequence is rejected: units %s' % rngs(s, u))
                continue
            x = k & 0xffffffff
            for q, w in zip(co, u):
                x = add(32, x, scale(32, u32(s, w, 32), q))
            got = it.load(s, Ptr('$cp', 0), 4, 'i32')
            same(it, rep, s, got, x, 32, 'wrong-codepoint', 'a well-formed sequence decodes to a wrong codepoint')
        # malformed or truncated: some unit sequence outside all forms reaches a normal end
        if not f and not b:
            for s in outside(st.fork(), u, [iv for iv, _ in forms if len(iv) == n], 0):
                bad(it, rep, s, 'accepts', 'a malformed sequence is accepted: units %s' % rngs(s, u))
            rep.count('obligations')
            if pend == 'eof':
                bad(it, rep, st, 'accepts', 'a sequence cut by the end of the input is accepted')

    it.finish = fin
    ex = Explorer(it, budget=120)
    ex.run([st])
    return ex


def rngs(s, u):
    return ' '.join('%s' % '/'.join('%X-%X' % r for r in (s.ranges(s.simp(x)) if isinstance(s.simp(x), Lin) else ((s.simp(x),) * 2,))) for x in u)


def outside(st, u, forms, i):
    """states in which u matches none of the interval sequences"""
    if not forms:
        return [st]
    if i == len(u):
        return []
    out = []
    pts = sorted(set([iv[i][0] for iv in forms] + [iv[i][1] + 1 for iv in forms] + [0]))
    x = u[i]
    hi = (1 << (x.w if isinstance(x, Lin) else 32)) - 1
    for a, b in zip(pts, pts[1:] + [hi + 1]):
        if a > hi:
            break
        s = st.fork()
        if not within(s, x, a, min(b - 1, hi)):
            continue
        out += outside(s, u, [iv for iv in forms if iv[i][0] <= a and a <= iv[i][1]], i + 1)
    return out


ENC8 = [((0, 0x7F), [(1, 0, 7, 0)]),
        ((0x80, 0x7FF), [(1, 6, 5, 0xC0), (1, 0, 6, 0x80)]),
        ((0x800, 0xFFFF), [(1, 12, 4, 0xE0), (1, 6, 6, 0x80), (1, 0, 6, 0x80)]),
        ((0x10000, MAXCP), [(1, 18, 3, 0xF0), (1, 12, 6, 0x80), (1, 6, 6, 0x80), (1, 0, 6, 0x80)])]


def check_encode(it, rep, mod, name, forms, cw, iw, top):
    it.cur = 'encode ' + name
    st = State()
    c = Ctx(it, st, None, None, None)
    os = stream(c, '$os', portbuf(c, '$buf'), True)
    cp = st.fresh(32, ((0, 0xffffffff),), name='cp')
    it.enter(st, mod.funcs['h_enc_' + name], [os, cp])

    def fin(it, st, how, v):
        rep.count('paths')
        if how != 'return':
            return bad(it, rep, st, 'throws', 'an exception leaves the encoder')
        c = Ctx(it, st, None, None, None)
        e, f, b = ios(c, Ptr('$os', 8))['st']
        out = st.mon.get('o', ())
        s = st.fork()
        if within(s, cp, MAXCP + 1, 0xffffffff):
            rep.count('obligations')
            if not (f or b):
                bad(it, rep, s, 'accepts', 'a value above U+10FFFF is encoded without an error: %s' % rngs(s, [s.simp(cp)]))
        for lo, hi in ((0, 0x7F), (0x80, 0x7FF), (0x800, 0xD7FF), (0xE000, 0xFFFE), (0xFFFF, 0xFFFF), (0x10000, MAXCP)):
            s = st.fork()
            if not within(s, cp, lo, hi):
                continue
            rep.count('well-formed classes')
            if f or b:
                bad(it, rep, s, 'rejects', 'a codepoint of %X-%X is rejected' % (lo, hi))
                continue
            x = s.simp(cp)
            if forms is UTF8:
                parts = [q for (a, z), q in ENC8 if a <= lo and hi <= z][0]
                want = [add(32, k, slice_(s, x, sh, nb) if isinstance(x, Lin) else x >> sh & (1 << nb) - 1) for _, sh, nb, k in
                        [(0, p[1], p[2], p[3]) for p in parts]]
                want = [add(32, k[3], zs(s, x, k[1], k[2])) for k in parts]
            elif forms is UTF16 and lo >= 0x10000:
                y = add(32, x, -0x10000 & 0xffffffff)
                want = [add(32, 0xD800, zs(s, y, 10, 22)), add(32, 0xDC00, zs(s, y, 0, 10))]
            else:
                want = [x]
            if len(out) != len(want):
                bad(it, rep, s, 'length', 'codepoints of %X-%X give %d units instead of %d' % (lo, hi, len(out), len(want)))
                continue
            for g, w in zip(out, want):
                if isinstance(g, Lin) and g.w != 32 or isinstance(g, int):
                    g = u32(s, g, cw)
                same(it, rep, s, g, w, 32, 'wrong-unit', 'codepoints of %X-%X are encoded wrongly' % (lo, hi))

    it.finish = fin
    ex = Explorer(it, budget=120)
    ex.run([st])
    return ex


def zs(st, x, lo, n):
    if isinstance(x, int):
        return x >> lo & (1 << n) - 1
    v = slice_(st, x, lo, n)
    return v if isinstance(v, int) or v.w == 32 else zext(st, v, v.w, 32)


def run():
    rep = Report('C14', 'for every class of unit sequences / codepoints: result, consumed units and produced units equal the standard encoding form')
    mod = build.load('codec.cpp')
    for name, forms, cw, iw, top in CODECS:
        for what, f in (('decode', check_decode), ('encode', check_encode)):
            it = Interp(mod, Models(PORTS), Mon(cw, iw, top))
            ex = f(it, rep, mod, name, forms, cw, iw, top)
            rep.engine(it, '%s %s' % (what, name), ex)
    return rep.finish('Abstract interpretation of every encode and decode function over one symbolic unit sequence / codepoint; '
                      'every path end is compared with the definition of UTF-8/16/32 by interval classes.',
                      dict(functions=20, paths=60))
