"""What the overloads of parse and dump, their options and the stream wrappers must do.

The encodings, the error handler, the text and the numbers are ports or free symbols; what is followed is which encoding
works on which side, which options are in force when the document is read or written, what reaches the sink, and what is
left of the state of the caller's stream."""
from .values import *
from .state import *
from .interp import *
from .models import Models, Ctx, Monitor, Call, REG, ios, setios, iosof, textof, readlit, chsize, good, setst
from .ports import PORTS, stream, portbuf
from .outspec import plainloc
from .layout import Layout
from . import build, containers

EOF = 0xffffffff
KINDS = ('null', 'integer', 'floating', 'string', 'array', 'object', 'boolean')
CS = {'c': 1, 'w': 4}
JS = {'json': 'c', 'wjson': 'w'}
CT = {'c': 'char', 'w': 'wchar_t'}
FLOATF, FIXED, SCI = 260, 4, 256
DEFAULT, EX1, EX2 = 0, 1, 2
ENC = {0: 'the default encoding', 1: 'ext1', 2: 'ext2'}
# name, source, target, handler
R_OPTS = [('without options argument', 0, 0, False), ('{}', 0, 0, False), ('{with_encoding<1>}', 1, 1, False), ('{with_source_encoding<1>}', 1, 0, False),
          ('{with_target_encoding<1>}', 0, 1, False), ('{with_source_encoding<1>, with_target_encoding<2>}', 1, 2, False),
          ('{with_encoding<1>, with_source_encoding<2>}', 2, 1, False), ('{with_encoding<1>, with_target_encoding<2>}', 1, 2, False),
          ('{with_target_encoding<2>, with_encoding<1>}', 1, 1, False), ('{with_encoding<1>, with_encoding<2>}', 2, 2, False),
          ('{with_error_handler}', 0, 0, True), ('{with_error_handler, with_encoding<1>}', 1, 1, True), ('{with_encoding<1>, with_error_handler}', 1, 1, True),
          ('{with_error_handler, with_error_handler(nullptr)}', 0, 0, False)]
R_FORMS = [('parse(value, stream)', 's'), ('parse(stream)', 's'), ('parse(value, string)', 't'), ('parse(string)', 't'), ('parse(value, C string)', 'p'), ('parse(C string)', 'p'),
           ('parse(value, file)', 'f'), ('parse(file)', 'f'), ('stream >> wrap(value)', 's')]


def W(name, src=0, tgt=0, h=False, **kw):
    return name, src, tgt, h, kw


W_OPTS = [W('without options argument'), W('{}'), W('{with_encoding<1>}', 1, 1), W('{with_source_encoding<1>}', 1, 0), W('{with_target_encoding<1>}', 0, 1),
          W('{with_source_encoding<1>, with_target_encoding<2>}', 1, 2), W('{with_encoding<1>, with_source_encoding<2>}', 2, 1), W('{with_encoding<1>, with_target_encoding<2>}', 1, 2),
          W('{with_target_encoding<2>, with_encoding<1>}', 1, 1), W('{with_encoding<1>, with_encoding<2>}', 2, 2), W('{with_error_handler}', h=True),
          W('{with_error_handler, with_encoding<1>}', 1, 1, True), W('{with_error_handler, with_error_handler(nullptr)}'),
          W('{with_indent(2)}', indent=(2, 32)), W('{with_indent(3, tab)}', indent=(3, 9)), W('{with_indent(0)}', indent=(0, 32)), W('{with_indent(2), with_indent(0)}', indent=(0, 32)),
          W('{with_indent(3, tab), with_indent(1)}', indent=(1, 32)), W('{with_unicode_escaping(true)}', esc=True), W('{with_unicode_escaping(false)}'),
          W('{with_unicode_escaping(true), with_unicode_escaping(false)}'), W('{with_precision(3)}', prec=(3, FIXED)), W('{with_precision(3, scientific)}', prec=(3, SCI)),
          W('{with_precision(3, general)}', prec=(3, 0)), W('{with_precision(3, hexfloat)}', prec=(3, 0)), W('{with_precision(3, scientific), with_precision(5)}', prec=(5, FIXED)),
          W('{with_indent(1), with_unicode_escaping(true), with_precision(3), with_encoding<1>, with_error_handler}', 1, 1, True, indent=(1, 32), esc=True, prec=(3, FIXED))]
W_FORMS = ['dump(stream, value)', 'dump(string, value)', 'dump(value)', 'stream << wrap(value)', 'stream << wrap(const value)']


class _Fail(Exception):
    pass


def z32(st, x, w):
    return x if isinstance(x, int) or w == 32 else zext(st, x, w, 32)


class Mon(Monitor):
    watch_store = True

    def on_store(self, it, st, p, v, size):
        pass

    def event(self, c, name, *d):
        st = c.st
        if name == 'fgetc':
            return self.take(st, False)
        if name == 'strlen' and d[0] == Ptr('$text', 0):
            return len(st.mon['units'])
        if name == 'str.append':
            this, ch, n = d
            m = c.getM(this, 'str')
            st.mon['pending'] = (m[1], self.chars(c, ch, n))
        return None

    def take(self, st, peek):
        u, p = st.mon['units'], st.mon['pos']
        if p >= len(u):
            return EOF
        if not peek:
            st.mon['pos'] = p + 1
        return z32(st, u[p], 8 * st.mon['cs'])

    def chars(self, c, ch, n):
        """the tokens appended"""
        st = c.st
        n = st.simp(n) if isinstance(n, Lin) else n
        if ch[:1] == ('rep',):
            return (ch[1],) * n if isinstance(n, int) and n < 4096 else ('?',)
        if ch[:1] == ('span',):
            t = self.text(c, ch[1], n)
            return t
        return tuple(ch)

    def text(self, c, p, n):
        st = c.st
        g = st.mem.get(p.r)
        x = textof(c, p, n)
        if x is None and g is not None and g.lazy[0] == 'py' and len(g.lazy) > 4:
            x = g.lazy[3]
            if not (p.o == 0 and (g.lazy[4] == n or decide(st, 'eq', 64, g.lazy[4], n) is True)):
                x = None
        if isinstance(x, Op) and x.n == 'fmt':
            return (x,)
        if x is not None:
            k = self.known(st, x, n)
            if k is not None:
                return k
        k = readlit(c, p, n, st.mon['cs'])
        return k if k is not None else ('?',)

    def known(self, st, content, n=None):
        if content in st.mon['texts']:
            return st.mon['texts'][content]
        if isinstance(content, tuple) and content[0] == 'lit':
            return tuple(content[1])
        if isinstance(content, Op) and content.n == 'fmt':
            return (content,)
        if isinstance(content, Op) and content.n == 'fill' and isinstance(n, int) and n < 4096:
            return (content.a[0],) * n
        return None

    def on_setM(self, it, st, p, old, m):
        pend = st.mon.pop('pending', None)
        if pend is None or m is None or m[0] != 'str':
            return
        k = self.known(st, pend[0])
        if k is not None:
            st.mon['texts'] = {**st.mon['texts'], m[1]: k + pend[1]}

    # ports
    def read(self, c, this, peek):
        return self.take(c.st, peek)

    def write(self, c, this, chars):
        c.st.mon['out'] = c.st.mon['out'] + tuple(chars)
        return chars[0]

    def writen(self, c, this, s, n):
        c.st.mon['out'] = c.st.mon['out'] + self.text(c, s, n)
        return n


def use(c, side, which, size):
    c.st.mon['used'] = c.st.mon['used'] | {(side, which, size)}


def ext_decode(c, which, size, unit, s):
    st = c.st
    use(c, 'dec', which, size)
    if st.mon['mode'] == 'read':
        loc(c, s)
    if st.mon['mode'] == 'read':
        x = unit
    else:
        x = st.fresh(32, st.mon['class'], name='$cp%d' % len(st.mon['cps']))
    st.mon['cps'] = st.mon['cps'] + (x,)
    return x


def loc(c, s):
    d = ios(c, iosof(c, s))
    if not plainloc(d['loc']):
        c.st.mon['badloc'] = True


def ext_encode(c, which, size, cp, s):
    st = c.st
    use(c, 'enc', which, size)
    if st.mon['mode'] == 'write':
        loc(c, s)
    x = st.fresh(8 * size, ((97, 122),), name='$enc%d' % len(st.mon['encs']))
    st.mon['encs'] = st.mon['encs'] + ((cp, x),)
    return z32(st, x, 8 * size)


def note(tag):
    def f(c, *a):
        c.st.mon['shown'] = c.st.mon['shown'] + ((tag,) + a,)
        return None
    return f


def handle(c, this, ep):
    st = c.st
    v = c.it.load(st, ep, 8, 'ptr')
    ok = isinstance(v, Ptr) and st.caught and v == st.caught[-1][1]
    st.mon['handled'] = st.mon['handled'] + (bool(ok),)
    return None


def sentry(c, this, s, *a):
    d = ios(c, iosof(c, s))
    ok = int(good(d))
    c.it.store(c.st, this, ok, 1)
    if 'ostream' in c.f.qual:
        c.it.store(c.st, Ptr(this.r, addoff(this.o, 8)), s, 8)
    elif not ok:
        setst(c, iosof(c, s), f=1)
    return None


def std(mod, what):
    """the library's encodings are ports as well: whichever of them works on a side is its default"""
    out = {}

    def mk(fn):
        def f(c, s, x):
            w = 'wchar_t' in c.f.ctxfull or 'Iw' in c.f.name
            return Call(Fn('def_%s_%s' % (fn, 'w' if w else 'c')), [s, x])
        return f
    for e in ('auto_utf', 'utf8', 'utf16', 'utf32'):
        for fn in ('decode', 'encode'):
            out['configor::encoding::%s::%s' % (e, fn)] = mk(fn)
    return out


def ext_to_user(c, u):
    c.st.mon['shown'] = c.st.mon['shown'] + (('user', u),)
    return None


def ext_from(c, v):
    st = c.st
    if st.mon.get('refuse'):
        return Throw('_ZTI7refusal')
    return st.mon['newuser']


def ext_string(c, p):
    st = c.st
    m = c.getM(p, 'str')
    st.mon['shown'] = st.mon['shown'] + (('s', c.it.mon.known(st, m[1], m[2]) if m else None),)
    return None


EXT = dict(ext_decode=ext_decode, ext_encode=ext_encode, ext_kind=note('k'), ext_string=ext_string, ext_int=note('i'),
           ext_user=ext_to_user, ext_from=ext_from)
EXT['$eh_handle'] = handle
for q in ('std::basic_istream::sentry::', 'std::basic_ostream::sentry::', 'std::istream::sentry::', 'std::ostream::sentry::', 'std::wistream::sentry::', 'std::wostream::sentry::'):
    EXT[q + 'sentry'] = sentry
    EXT[q + '~sentry'] = lambda c, this: None


class Runner:
    def __init__(self, mod, rep):
        self.mod, self.rep = mod, rep
        self.L = Layout(mod)
        self.kinds, self.memo, self.dirty = {}, {}, None
        for i, k in enumerate(KINDS):
            self.kinds[k] = self.const('kind_of', i)

    def const(self, fn, *a):
        it = Interp(self.mod, Models(dict(EXT)), Monitor())
        out = []
        it.finish = lambda i, s, how, v: out.append(v)
        st = State()
        it.enter(st, self.mod.funcs[fn], list(a))
        work = [st]
        while work:
            work.extend(it.run(work.pop()))
        return out[0]

    def begin(self, cs):
        it = self.it = Interp(self.mod, Models(dict(PORTS, **dict(EXT, **std(self.mod, None)))), Mon())
        it.layout = self.L
        it.alloc_fail = False
        it.tokens = False
        it.float_opaque = True
        st = State()
        st.mon.update(units=(), pos=0, cs=cs, out=(), texts={}, used=frozenset(), cps=(), encs=(), shown=(), handled=(), badloc=False, mode='read')
        c = Ctx(it, st, None, None, None)
        st.new_region('obj', None, ('undef',), name='$eh')
        st.new_region('ext', None, ('any',), name='$vteh')
        for o in (0, 8, 16):
            st.mem['$vteh'].cells[o] = (Fn('$eh_handle'), 8)
        it.store(st, Ptr('$eh', 0), Ptr('$vteh', 0), 8)
        return it, st, c

    def go(self, st, fn, args):
        it, ends = self.it, []
        it.finish = lambda i, s, how, v: ends.append((s, how, v))
        it.enter(st, self.mod.funcs[fn], args)
        work, steps = [st], 0
        while work and not it.violations:
            steps += 1
            if steps > 4000:
                it.notes['a call was not followed to the end'] = 1
                break
            work.extend(it.run(work.pop()))
        return ends

    def need(self, cond, rule, msg):
        self.rep.count('obligations')
        if not cond:
            raise _Fail(rule, msg)

    def judge(self, name, ends, f, where):
        it = self.it
        self.rep.count('calls')
        n = 0
        for e in ends:
            self.rep.count('paths')
            if e[0].imp:
                k = 'undecided: %s' % e[0].why
                it.notes[k] = it.notes.get(k, 0) + 1
                continue
            try:
                n += bool(f(*e))
            except _Fail as x:
                it.violations.setdefault((x.args[0], name, x.args[1][:60]), dict(rule=x.args[0], message='%s: %s' % (name, x.args[1]), location=where, function=name, stack=[], path=[]))
        if not n and not it.violations and ends:
            it.notes['no path of a call was decided'] = it.notes.get('no path of a call was decided', 0) + 1
        if self.dirty and any(v['rule'] in ('overload', 'layout') for v in it.violations.values()) and self.dirty():
            it.violations = {k: v for k, v in it.violations.items() if v['rule'] not in ('overload', 'layout')}
            self.rep.notes['left to another property'] = self.rep.notes.get('left to another property', 0) + 1
        self.rep.engine(it, name)

    def against(self, what, *a):
        """the call in the caller's state, leaving to others what goes wrong in the default state as well"""
        def dirty():
            if a not in self.memo:
                r = type(self.rep)(self.rep.prop, '')
                Runner(self.mod, r).__getattribute__(what)(*a[:-1])
                self.memo[a] = any(v['rule'] in ('overload', 'layout') for v in r.viol.values())
            return self.memo[a]
        self.dirty = dirty
        getattr(self, what)(*a)
        self.dirty = None

    # ---- text to read
    def text(self, it, st, c, cs, units, how, caller=None):
        st.mon.update(units=units, pos=0, cs=cs)
        if how == 's':
            s = stream(c, '$is', portbuf(c, '$buf'))
            if caller:
                d = self.state(c, st, '$is')
                caller['set'](st, d)
                setios(c, Ptr('$is', 16), d)
            return s
        if how == 'f':
            st.new_region('obj', None, ('any',), name='$file')
            return Ptr('$file', 0)
        st.new_region('text', (len(units) + 1) * cs, ('undef',), name='$text')
        for i, u in enumerate(units + (0,)):
            st.mem['$text'].cells[i * cs] = (u, cs)
        if how == 'p':
            return Ptr('$text', 0)
        st.new_region('obj', 64, ('undef',), name='$s')
        c.setM(Ptr('$s', 0), ('str', st.fresh(64, name='$content'), len(units), Ptr('$text', 0)))
        return Ptr('$s', 0)

    def same(self, st, x, y, w):
        return x == y or isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)) and decide(st, 'eq', w, x, y) is True

    def read(self, j, x, f, o, caller=None):
        """parse overload f with option set o, from text of x into a value of j"""
        form, how = R_FORMS[f]
        opt, src, tgt, handler = R_OPTS[o]
        name = '%s::%s of %s text %s' % (j, form, CT[x], opt) + (', %s' % caller['name'] if caller else '')
        where = 'include/configor/details/parser.hpp'
        cs, vs = CS[x], CS[JS[j]]
        it, st, c = self.begin(cs)
        u = st.fresh(8 * cs, ((97, 122),), name='$unit')
        doc = (91, 34, u, 34, 93)
        s = self.text(it, st, c, cs, doc, how, caller)
        before = self.state(c, st, '$is') if how == 's' else None

        def ok(e, ret, v):
            m = e.mon
            self.need(not m['badloc'], 'locale', 'the encoding works with the caller’s or the global locale')
            self.need(ret == 'return', 'overload', 'a valid document is refused')
            self.need(not m['handled'], 'overload', 'the error handler is called for a valid document')
            self.sides(e, src, tgt, cs, vs, 'reading')
            self.need([k for k in m['shown'] if k[0] == 'k' and k[1] < 100] == [('k', self.kinds['array'], 0), ('k', self.kinds['string'], 0)]
                      and m['shown'][1] == ('k', 100, 1), 'overload', 'the result is another value than that of the document')
            self.need(len(m['encs']) == 1 and self.same(e, m['encs'][0][0], z32(e, u, 8 * cs), 32), 'overload', 'the string of the document is not encoded once')
            self.need(self.string(e, vs), 'overload', 'the result is another value than that of the document')
            if before:
                self.kept(e, '$is', before)
            return True
        self.judge(name, self.go(st, 'run_in_%s_%s' % (j, x), [o, f, s, Ptr('$eh', 0)]), ok, where)
        if caller:
            it, st, c = self.begin(cs)
            it.float_opaque = False
            s = self.text(it, st, c, cs, (32, 91, 10, 45, 49, 50, 9, 93, 13), how, caller)
            before = self.state(c, st, '$is')

            def num(e, ret, v):
                m = e.mon
                self.need(ret == 'return', 'overload', 'a valid document is refused')
                self.need(m['shown'] == (('k', self.kinds['array'], 0), ('k', 100, 1), ('k', self.kinds['integer'], 0), ('i', 2 ** 64 - 12)), 'overload', 'the result is another value than that of the document')
                self.kept(e, '$is', before)
                return True
            self.judge(name + ', a number', self.go(st, 'run_in_%s_%s' % (j, x), [o, f, s, Ptr('$eh', 0)]), num, where)
        # a malformed document
        it, st, c = self.begin(cs)
        s = self.text(it, st, c, cs, (93,), how, caller)
        before = self.state(c, st, '$is') if how == 's' else None

        def bad(e, ret, v):
            m = e.mon
            if before:
                self.kept(e, '$is', before)
            if handler:
                self.need(ret == 'return', 'overload', 'an exception escapes although an error handler is given')
                self.need(m['handled'] == (True,), 'overload', 'the error handler is called %s for a malformed document' % ('%d times' % len(m['handled']) if m['handled'] != (False,) else 'without the error'))
            else:
                self.need(not m['handled'], 'overload', 'the error handler is called although it is not in force')
                self.need(ret == 'throw', 'overload', 'a malformed document is accepted')
                self.need(it.isbase(v[0], '_ZTIN8configor18configor_exceptionE'), 'overload', 'a malformed document is reported as %s' % v[0])
            return True
        self.judge(name + ', malformed', self.go(st, 'run_in_%s_%s' % (j, x), [o, f, s, Ptr('$eh', 0)]), bad, where)

    def string(self, e, vs):
        """the string that was read is the one encoded unit"""
        m = e.mon
        got = [k[1] for k in m['shown'] if k[0] == 's']
        return len(got) == 1 and ('k', 101, 1) in m['shown'] and got[0] is not None and len(got[0]) == 1 and self.same(e, z32(e, got[0][0], 8 * vs), z32(e, m['encs'][0][1], 8 * vs), 32)

    def sides(self, e, src, tgt, scs, tcs, verb):
        m = e.mon
        for side, w, cs in (('dec', src, scs), ('enc', tgt, tcs)):
            got = {u for u in m['used'] if u[0] == side}
            self.need(got == {(side, w, cs)}, 'overload', 'the %s encoding used is %s instead of %s' % (
                'source' if side == 'dec' else 'target', ' and '.join(sorted(ENC.get(g[1], '?') + ('' if g[2] == cs else ' of another character type') for g in got)) or 'none', ENC[w]))

    # ---- the caller's stream
    def state(self, c, st, n):
        return ios(c, Ptr(n, 8 if n == '$os' else 16), st)

    def kept(self, e, n, before, width0=False):
        c = Ctx(self.it, e, None, None, None)
        d = self.state(c, e, n)
        for k, what, w in (('fl', 'flags', 32), ('p', 'precision', 64), ('fill', 'fill character', 32), ('w', 'width', 64), ('exm', 'exception mask', 32)):
            want = 0 if k == 'w' and width0 else before[k]
            self.need(self.same(e, d[k], want, w), 'stream-state', 'the %s of the caller’s stream %s' % (what, 'is not cleared' if k == 'w' and width0 else 'is changed'))
        self.need(d['loc'] == before['loc'], 'stream-state', 'the locale of the caller’s stream is changed')
        self.need(d['buf'] == before['buf'], 'stream-state', 'the buffer of the caller’s stream is changed')

    # ---- writing
    def write(self, j, x, f, o, cls='plain', caller=None):
        form = W_FORMS[f]
        opt, src, tgt, handler, kw = W_OPTS[o]
        name = '%s::%s to %s %s' % (j, form, CT[x], opt) + (', %s' % caller['name'] if caller else '') + (', U+0080-FFFF' if cls != 'plain' else '')
        where = 'include/configor/details/serializer.hpp'
        cs, vs = CS[x], CS[JS[j]]
        it, st, c = self.begin(cs)
        st.mon.update(mode='write', integer=st.fresh(64, name='$integer'))
        self.doc(it, st, c, vs)
        st.mon['class'] = ((97, 122),) if cls == 'plain' else ((0x80, 0xD7FF), (0xE000, 0xFFFF))
        os = stream(c, '$os', portbuf(c, '$buf'), out=True)
        d = self.state(c, st, '$os')
        fl = p = None
        if caller:
            caller['set'](st, d)
            setios(c, Ptr('$os', 8), d)
        before = dict(d)
        ours = f in (0, 3, 4)       # onto the caller's stream
        step, ch = kw.get('indent') or ((before['w'], before['fill']) if ours else (0, 32))
        prec, ff = kw.get('prec') or ((before['p'], None) if ours else (6, 0))
        st.new_region('obj', 64, ('undef',), name='$s')
        if f == 1:
            self.go_sub(st, 'mk_string_' + x, [Ptr('$s', 0)], c)
        args = [o, f, os, Ptr('$s', 0), Ptr('$v', 0), Ptr('$eh', 0)]

        def ok(e, ret, v):
            m = e.mon
            self.need(not m['badloc'], 'locale', 'the encoding works with the caller’s locale')
            if ours:
                self.kept(e, '$os', before, True)
            if ret == 'throw' or m['handled']:
                # a float that is not finite is refused
                if ret == 'throw':
                    self.need(not handler, 'overload', 'an exception escapes although an error handler is given')
                    self.need(it.isbase(v[0], '_ZTIN8configor18configor_exceptionE'), 'overload', 'an exception of type %s' % v[0])
                else:
                    self.need(handler, 'overload', 'the error handler is called although it is not in force')
                    self.need(m['handled'] == (True,), 'overload', 'the error handler is not called once with the error')
                return True
            self.sides(e, src, tgt, vs, cs, 'writing') if not (kw.get('esc') and cls != 'plain') else None
            if f == 0 or f > 2:
                t = m['out']
            else:
                cc = Ctx(it, e, None, None, None)
                x2 = cc.getM(Ptr('$s', 0), 'str')
                self.need(not m['out'], 'overload', 'something is written to a stream that is not the target')
                t = self.it.mon.known(e, x2[1])
                if t is None:
                    e.note(2, 'unknown text')
                    it.notes['undecided: the text of the result'] = 1
                    return False
            if '?' in t:
                it.notes['undecided: unknown output'] = it.notes.get('undecided: unknown output', 0) + 1
                return False
            self.document(e, t, cs, step, ch, prec, ff, before['fl'] if ours else 4098, kw, cls)
            return True
        self.judge(name, self.go(st, 'run_out_%s_%s' % (j, x), args), ok, where)

    def doc(self, it, st, c, vs):
        """$v: an array of a string of one character, an integer and a float"""
        L = self.L
        st.new_region('obj', L.size, ('undef',), name='$v')
        a = L.newpayload(st, 'array', name='$a')
        L.write(it, st, Ptr('$v', 0), 'array', a)
        m = c.getM(a, 'vec')
        sp = L.newpayload(st, 'string', name='$str')
        c.setM(sp, ('str', Op('fill', st.fresh(8 * vs, ((97, 122),), name='$unit')), 1, 0))
        m = ('vec', 3) + m[2:4]
        c.setM(a, m)
        for i, (k, x) in enumerate((('string', sp), ('integer', st.mon['integer']), ('floating', Op('some', atom(fresh_id(), 64))))):
            L.write(it, st, containers.elem(m, i), k, x)

    def go_sub(self, st, fn, args, c):
        e = self.go(st, fn, args)
        return e

    def document(self, e, t, cs, step, ch, prec, ff, callerfl, kw, cls):
        """t is the document [string, integer, float]"""
        pos = [0]

        def sh(x):
            if isinstance(x, int):
                return repr(chr(x & 0xff)) if x < 256 else hex(x)
            if isinstance(x, Op):
                return 'a number'
            return 'a character'

        def lit(x, what):
            k = t[pos[0]] if pos[0] < len(t) else None
            good_ = k is not None and not isinstance(k, Op) and self.same(e, z32(e, k, k.w) if isinstance(k, Lin) and k.w < 32 else k, z32(e, x, x.w) if isinstance(x, Lin) and x.w < 32 else x, 32)
            self.need(good_, 'layout', '%s instead of %s' % ('the end' if k is None else sh(k), what))
            pos[0] += 1

        def nl(depth):
            if step:
                lit(10, 'a line break')
                for _ in range(step * depth):
                    lit(ch, 'indentation')

        def num(kinds, hexa=False):
            k = t[pos[0]] if pos[0] < len(t) else None
            self.need(isinstance(k, Op) and k.n == 'fmt', 'layout', '%s instead of a number' % ('the end' if k is None else sh(k)))
            pos[0] += 1
            kind, v, fl, w, p, fill, lc = k.a
            b = lambda mask: self.bits(e, fl, mask)
            self.need(plainloc(lc), 'locale', 'a number is formatted with the numeric facet of the caller’s or the global locale')
            if hexa:
                self.need(b(74) == 8, 'flags', 'an escape is not written in hexadecimal')
                self.need(self.same(e, w, 4, 64) and self.same(e, fill, 48, 32), 'flags', 'an escape is not padded with zeros to four digits')
                self.need(b(512) == 0 and b(176) in (0, 128, 16), 'flags', 'an escape depends on the base or adjustment flags')
                return kind, v
            self.need(self.same(e, w, 0, 64), 'flags', 'a number is padded to a width')
            if kind in ('double', 'float', 'longdouble'):
                want = ff
                if want is None:
                    want = self.bits(e, callerfl, FLOATF)
                    want = 0 if want == FLOATF else want
                self.need(self.same(e, b(FLOATF), want, 32), 'flags', 'a float is written in the format %s instead of %s' % (self.ffname(b(FLOATF)), self.ffname(want)))
                self.need(self.same(e, p, prec, 64), 'flags', 'a float is written with another precision than the one in force')
                self.need(b(2048) == 0, 'flags', 'the sign of a float depends on the caller’s flags')
                self.need(b(1024) == 0 and b(16384) == 0, 'flags', 'the format of a float depends on the caller’s flags')
            else:
                self.need(b(74) in (0, 2), 'flags', 'an integer is not written in decimal')
                self.need(b(2048) == 0, 'flags', 'the sign of an integer depends on the caller’s flags')
            return kind, v
        lit(91, "'['")
        nl(1)
        lit(34, 'a quote')
        if cls != 'plain' and kw.get('esc'):
            lit(92, 'an escape')
            lit(ord('u'), 'an escape')
            kind, v = num((), True)
            self.need(not e.mon['encs'], 'layout', 'a character is encoded although it is escaped')
        else:
            self.need(len(e.mon['encs']) == 1 and len(e.mon['cps']) >= 1 and self.same(e, e.mon['encs'][0][0], e.mon['cps'][0], 32), 'layout', 'the character of the string is not encoded once')
            lit(e.mon['encs'][0][1], 'the encoded character')
        lit(34, 'a quote')
        lit(44, 'a comma')
        nl(1)
        kind, v = num(())
        self.need(v == e.mon['integer'] or self.same(e, v, e.mon['integer'], 64), 'layout', 'another number is written')
        lit(44, 'a comma')
        nl(1)
        kind, v = num(())
        if pos[0] < len(t) and t[pos[0]] == 46:
            lit(46, '.')
            lit(48, '0')
        nl(0)
        lit(93, "']'")
        self.need(pos[0] == len(t), 'layout', '%s after the document' % (sh(t[pos[0]]) if pos[0] < len(t) else ''))

    def ffname(self, x):
        return {FIXED: 'fixed', SCI: 'scientific', 0: 'general', FLOATF: 'hexfloat'}.get(x, 'that the caller chose')

    def bits(self, e, fl, mask):
        x = binop(e, 'and', 32, fl, mask)
        x = e.simp(x) if isinstance(x, Lin) else x
        return x


class State_(dict):
    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


def caller(ff, width, out=True):
    """any state of the caller's stream with the float format ff"""
    def f(st, d):
        fl = ff
        for i in range(18):
            if not FLOATF >> i & 1:
                fl = add(32, fl, scale(32, st.fresh(32, ((0, 1),), name='$flag%d' % i), 1 << i))
        d['fl'] = fl
        d['p'] = st.fresh(64, ((0, 1000),), name='$precision')
        d['fill'] = st.fresh(8 * st.mon['cs'], ((1, 255),), name='$fill')
        d['loc'] = 'caller'
        d['w'] = width
    return State_(name='a stream with float format %d, width %d and any other state' % (ff, width), set=f)


TEXTS = {'an array of a string': 'ok', 'the end of the text': (), 'a stray bracket': (93,), 'an unclosed array': (91, 34, 'u', 34), 'an unclosed string': (91, 34, 'u'),
         'text after the document': (91, 34, 'u', 34, 93, 44), 'a missing value': (91, 34, 'u', 34, 44, 58, 93), 'a wrong literal': (91, 34, 'u', 34, 44, 116, 114, 117, 120)}


class Wrapped(Runner):
    """json::wrap of values and of objects of a user's type"""
    where = 'include/configor/details/wrapper.hpp'

    def start(self, cs, units, state, failed=False):
        it, st, c = self.begin(cs)
        it.float_opaque = False
        u = st.fresh(8 * cs, ((97, 122),), name='$unit')
        s = self.text(it, st, c, cs, tuple(u if k == 'u' else k for k in units), 's', state)
        if failed:
            setst(c, iosof(c, s), f=1)
        st.new_region('obj', 8, ('undef',), name='$u')
        old = st.fresh(64, name='$old')
        it.store(st, Ptr('$u', 0), old, 8)
        return it, st, c, s, u, old

    def user_in(self, fn, x, vs, state):
        cs = CS[x]
        for what, t in TEXTS.items():
            for refuse in (False, True) if t == 'ok' else (False,):
                it, st, c, s, u, old = self.start(cs, (91, 34, 'u', 34, 93) if t == 'ok' else t, state)
                new = st.fresh(64, name='$new')
                st.mon.update(newuser=new, refuse=refuse)
                before = self.state(c, st, '$is')

                def ok(e, ret, v, t=t, refuse=refuse, old=old, new=new, it=it, before=before, u=u):
                    m = e.mon
                    now = it.load(e, Ptr('$u', 0), 8, 64)
                    self.kept(e, '$is', before)
                    if t != 'ok':
                        self.need(ret == 'throw', 'wrapper', 'a malformed document is read without an exception')
                        self.need(it.isbase(v[0], '_ZTIN8configor18configor_exceptionE'), 'wrapper', 'a malformed document is reported as %s' % v[0])
                    elif refuse:
                        self.need(ret == 'throw' and v[0] == '_ZTI7refusal', 'wrapper', 'the exception of the conversion does not reach the caller')
                    if t != 'ok' or refuse:
                        self.need(self.same(e, now, old, 64), 'wrapper', 'the object is changed although reading failed')
                        return True
                    self.need(ret == 'return', 'wrapper', 'a valid document is refused')
                    self.need([k for k in m['shown'] if k[0] == 'k' and k[1] < 100] == [('k', self.kinds['array'], 0), ('k', self.kinds['string'], 0)], 'wrapper', 'the conversion is given another value than that of the document')
                    self.need(len(m['encs']) == 1 and self.same(e, m['encs'][0][0], z32(e, u, 8 * CS[x]), 32) and self.string(e, vs), 'wrapper', 'the conversion is given another string than that of the document')
                    self.need(self.same(e, now, new, 64), 'wrapper', 'the object is not replaced by the result of the conversion')
                    return True
                self.judge('%s from %s%s' % (fn, what, ', refused by the conversion' if refuse else ''), self.go(st, fn, [s, Ptr('$u', 0)]), ok, self.where)
        it, st, c, s, u, old = self.start(cs, (91, 34, 'u', 34, 93), state, failed=True)
        st.mon.update(newuser=0)

        def none(e, ret, v):
            self.need(ret == 'return' and e.mon['pos'] == 0, 'wrapper', 'a stream that has failed is read')
            self.need(self.same(e, it.load(e, Ptr('$u', 0), 8, 64), old, 64), 'wrapper', 'the object is changed although the stream has failed')
            return True
        self.judge('%s from a stream that has failed' % fn, self.go(st, fn, [s, Ptr('$u', 0)]), none, self.where)

    def val_in(self, x, state):
        """a value that holds an integer is read into"""
        cs = CS[x]
        it, st, c, s, u, old = self.start(cs, (91, 34, 'u', 34, 93), state)
        st.new_region('obj', self.L.size, ('undef',), name='$v')
        self.L.write(it, st, Ptr('$v', 0), 'integer', old)

        def shown(e, ret, v):
            m = e.mon
            self.need([k for k in m['shown'] if k[0] == 'k' and k[1] < 100] == [('k', self.kinds['array'], 0), ('k', self.kinds['string'], 0)] and ('k', 100, 1) in m['shown'],
                      'wrapper', 'the value is not replaced by that of the document')
            return True
        ends = self.go(st, 'val_in_' + x, [s, Ptr('$v', 0)])
        out = []

        def ok(e, ret, v):
            self.need(ret == 'return', 'wrapper', 'a valid document is refused')
            out.append(e)
            return True
        self.judge('val_in_' + x, ends, ok, self.where)
        for e in out:
            self.judge('val_in_%s, shown' % x, self.go(e, 'val_show_' + x, [Ptr('$v', 0)]), shown, self.where)
        for what, t in TEXTS.items():
            if t == 'ok':
                continue
            it, st, c, s, u, old = self.start(cs, t, state)
            st.new_region('obj', self.L.size, ('undef',), name='$v')
            self.L.write(it, st, Ptr('$v', 0), 'integer', old)

            def bad(e, ret, v, it=it):
                self.need(ret == 'throw' and it.isbase(v[0], '_ZTIN8configor18configor_exceptionE'), 'wrapper', 'a malformed document is read without the library’s exception')
                return True
            self.judge('val_in_%s from %s' % (x, what), self.go(st, 'val_in_' + x, [s, Ptr('$v', 0)]), bad, self.where)

    def user_out(self, fn, x, state, failed=False):
        cs = CS[x]
        it, st, c = self.begin(cs)
        st.mon.update(mode='write')
        st.mon['class'] = ((97, 122),)
        s = stream(c, '$os', portbuf(c, '$buf'), out=True)
        d = self.state(c, st, '$os')
        state['set'](st, d)
        setios(c, Ptr('$os', 8), d)
        if failed:
            setst(c, Ptr('$os', 8), f=1)
        st.new_region('obj', 8, ('undef',), name='$u')
        a = st.fresh(64, name='$a')
        it.store(st, Ptr('$u', 0), a, 8)

        def ok(e, ret, v):
            m = e.mon
            self.need(ret == 'return', 'wrapper', 'writing throws')
            now = it.load(e, Ptr('$u', 0), 8, 64)
            self.need(self.same(e, now, a, 64), 'wrapper', 'the object is changed by writing it')
            if failed:
                self.need(m['out'] == (), 'wrapper', 'something is written to a stream that has failed')
                return True
            self.need(m['shown'] == (('user', Ptr('$u', 0)),), 'wrapper', 'the conversion is not called once with the wrapped object')
            self.kept(e, '$os', d, True)
            t = m['out']
            self.need(len(t) == 1 and isinstance(t[0], Op) and t[0].n == 'fmt' and self.same(e, t[0].a[1], a, 64), 'wrapper', 'another document than that of the object is written')
            self.need(self.same(e, t[0].a[3], 0, 64), 'wrapper', 'the document is padded to the width of the stream')
            return True
        self.judge('%s%s' % (fn, ' to a stream that has failed' if failed else ''), self.go(st, fn, [s, Ptr('$u', 0)]), ok, self.where)
