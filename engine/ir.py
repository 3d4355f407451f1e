"""Loading of the exported LLVM module and per-function preprocessing."""
import json
import re
from .values import Ptr, Fn, UNDEF, Op

WIDTH = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128}


def width(t):
    if isinstance(t, str):
        if t in WIDTH:
            return WIDTH[t]
        if t[0] == 'i' and t[1:].isdigit():
            return int(t[1:])
    return None


def tsize(t):
    if isinstance(t, list):
        if t[0] == 's':
            return t[1]
        return t[1] * t[2]
    w = width(t)
    if w:
        return max(1, (w + 7) // 8)
    return {'ptr': 8, 'double': 8, 'float': 4, 'x86_fp80': 16}.get(t, 8)


def strip_tpl(s):
    """remove template argument lists and inline std namespaces"""
    out = []
    d = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if d == 0 and s.startswith('operator', i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')):
            m = re.compile(r'operator(<=>|<<=|>>=|->\*|->|<<|>>|<=|>=|<|>|\(\))').match(s, i)
            if m:
                out.append(m.group(0))
                i = m.end()
                continue
        if c == '<':
            d += 1
        elif c == '>' and d > 0:
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    r = ''.join(out)
    r = r.replace('__cxx11::', '').replace('__1::', '').replace('[abi:cxx11]', '').replace('__gnu_cxx::', '__gnu_cxx::')
    return r


TYPEDEFS = {'std::ostream': 'std::basic_ostream', 'std::istream': 'std::basic_istream',
            'std::wostream': 'std::basic_ostream', 'std::wistream': 'std::basic_istream',
            'std::string': 'std::basic_string', 'std::wstring': 'std::basic_string',
            'std::streambuf': 'std::basic_streambuf', 'std::ios': 'std::basic_ios'}


class Inst:
    __slots__ = ('o', 'i', 't', 'w', 'l', 'fl', 'a', 'p', 'n', 'u', 'f', 'at', 'd', 'cases', 'df', 'inc', 'off',
                 'var', 'clauses', 'cleanup', 'idx', 'size', 'vt', 'ft', 'nsw', 'nuw', 'name', 'aty', 'sret', 'ok', 'fnw', 'fn', 'nw')


class Func:
    def __init__(self, name, j, mod):
        self.name = name
        self.mod = mod
        self.j = j
        self.dem = j.get('dem', name)
        self.decl = j['decl']
        self.ret = j['ret']
        self.params = j['params']
        self.nparams = len(self.params)
        self.nregs = j.get('nregs', 0)
        self.file = j.get('file', '')
        self.line = j.get('line', 0)
        self.nounwind = j['nounwind']
        self.noreturn = j['noreturn']
        ctx = j.get('ctx')
        base = j.get('base')
        self.ctxfull = ctx or ''
        self.ctx = strip_tpl(ctx or '')
        self.ctx = TYPEDEFS.get(self.ctx, self.ctx)
        self.base = strip_tpl(base) if base else name
        if base and base.startswith('operator'):
            self.base = re.sub(r'\[abi:[^\]]*\]', '', self.base)
        self.prm = j.get('prm', '')
        self.cd = j.get('cd', False)
        self.qual = (self.ctx + '::' + self.base) if self.ctx else self.base
        self._blocks = None
        self._live = None
        self._scratch = None
        self._heads = None
        self._rw = None
        self._la = {}

    def __repr__(self):
        return self.qual

    @property
    def blocks(self):
        if self._blocks is None:
            self._blocks = [[self._inst(x) for x in b] for b in self.j.get('blocks', [])]
            for b in self._blocks:
                for x in b:
                    x.fn = self
        return self._blocks

    def _inst(self, x):
        I = Inst()
        I.o = x['o']
        I.i = x['i']
        I.t = x['t']
        I.w = width(I.t)
        I.l = x.get('l', 0)
        I.fl = x.get('fl', self.file)
        I.a = [self.mod.operand(v) for v in x.get('a', [])]
        I.p = x.get('p')
        I.n = x.get('n')
        I.u = x.get('u')
        I.f = self.mod.operand(x['f']) if 'f' in x else None
        I.at = x.get('at')
        I.d = x.get('d')
        I.cases = x.get('cases')
        I.df = x.get('def')
        I.inc = {b: self.mod.operand(v) for b, v in x['in']} if 'in' in x else None
        I.off = x.get('off')
        I.var = [(self.mod.operand(v), k) for v, k in x['var']] if 'var' in x else None
        I.clauses = [(k, self.mod.operand(v)) for k, v in x['clauses']] if 'clauses' in x else None
        I.cleanup = x.get('cleanup')
        I.idx = x.get('idx')
        I.size = x.get('size')
        I.vt = x.get('vt')
        I.ft = x.get('ft')
        I.fnw = width(I.ft) if I.ft else None
        I.nsw = x.get('nsw', False)
        I.nuw = x.get('nuw', False)
        I.name = x.get('name')
        I.aty = x.get('aty')
        I.sret = x.get('sret')
        I.ok = x.get('ok')
        I.nw = x.get('nounwind', False)
        return I

    def regw(self, r):
        if self._rw is None:
            rw = {}
            for i, p in enumerate(self.params):
                rw[i] = width(p['ty'])
            for b in self.blocks:
                for I in b:
                    rw[I.i] = I.w
            self._rw = rw
        return self._rw.get(r)

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.o == 'br':
            return t.d
        if t.o == 'switch':
            return [t.df] + [c[1] for c in t.cases]
        if t.o == 'invoke':
            return [t.n, t.u]
        return []

    @property
    def heads(self):
        if self._heads is None:
            heads = set()
            color = {}
            stack = [(0, iter(self.succs(0)))]
            color[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    c = color.get(s, 0)
                    if c == 1:
                        heads.add(s)
                    elif c == 0:
                        color[s] = 1
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    color[b] = 2
                    stack.pop()
            self._heads = heads
        return self._heads

    def uses(self, I):
        r = []
        for v in I.a:
            if v[0] == 0:
                r.append(v[1])
        if I.f is not None and I.f[0] == 0:
            r.append(I.f[1])
        if I.var:
            for v, _ in I.var:
                if v[0] == 0:
                    r.append(v[1])
        return r

    @property
    def live(self):
        """registers live at block entry (phi results of the block included)"""
        if self._live is None:
            nb = len(self.blocks)
            use = []
            de = []
            for b in self.blocks:
                u, d = set(), set()
                for I in b:
                    if I.o == 'phi':
                        d.add(I.i)
                        continue
                    for r in self.uses(I):
                        if r not in d:
                            u.add(r)
                    d.add(I.i)
                use.append(u)
                de.append(d)
            live = [set(u) for u in use]
            phis = [[I for I in b if I.o == 'phi'] for b in self.blocks]
            ch = True
            while ch:
                ch = False
                for b in range(nb - 1, -1, -1):
                    out = set()
                    for s in self.succs(b):
                        pd = {I.i for I in phis[s]}
                        out |= (live[s] - pd)
                        for I in phis[s]:
                            v = I.inc.get(b)
                            if v is not None and v[0] == 0:
                                out.add(v[1])
                    n = use[b] | (out - de[b])
                    if not n <= live[b]:
                        live[b] |= n
                        ch = True
            self._lout = []
            for b in range(nb):
                out = set()
                for s in self.succs(b):
                    pd = {I.i for I in phis[s]}
                    out |= (live[s] - pd)
                    for I in phis[s]:
                        v = I.inc.get(b)
                        if v is not None and v[0] == 0:
                            out.add(v[1])
                self._lout.append(out)
            for b in range(nb):
                live[b] = live[b] | {I.i for I in phis[b]}
            self._live = live
        return self._live

    @property
    def scratch(self):
        """allocas that one block alone fills and then reads: {register: block}"""
        if self._scratch is None:
            own = {}
            cand = {}
            for b, blk in enumerate(self.blocks):
                for I in blk:
                    if I.o == 'alloca':
                        cand[I.i] = I.i
            at = {}
            bad = set()
            wrote = set()
            for b, blk in enumerate(self.blocks):
                for I in blk:
                    if I.o == 'alloca':
                        continue
                    rs = [r for r in self.uses(I) if r in cand]
                    if I.o == 'phi' and I.inc:
                        bad |= {cand[v[1]] for v in I.inc.values() if v[0] == 0 and v[1] in cand}
                    for r in rs:
                        a = cand[r]
                        if at.setdefault(a, b) != b:
                            bad.add(a)
                        if I.o == 'getelementptr' and I.a[0] == (0, r) or I.o == 'bitcast':
                            cand[I.i] = a
                        elif I.o == 'load':
                            if a not in wrote:
                                bad.add(a)
                        elif I.o == 'store' and I.a[0] != (0, r):
                            wrote.add(a)
                        elif I.o in ('call', 'invoke') and I.f is not None and I.f[0] == 1 and str(getattr(I.f[1], 'n', '')).startswith('llvm.mem') and I.a[0] == (0, r):
                            wrote.add(a)
                        else:
                            bad.add(a)
            self._scratch = {a: b for a, b in at.items() if a not in bad and a in wrote}
        return self._scratch

    def live_at(self, b, ip):
        """registers live just before instruction ip of block b (its own operands included)"""
        k = (b, ip)
        r = self._la.get(k)
        if r is None:
            self.live
            if ip == 0:
                r = self._live[b]
            else:
                r = set(self._lout[b])
                blk = self.blocks[b]
                for I in reversed(blk[ip:]):
                    r.discard(I.i)
                    r.update(self.uses(I))
            self._la[k] = r = tuple(sorted(r))
        return r

    def live_after(self, b, ip):
        k = (b, ip, 'a')
        r = self._la.get(k)
        if r is None:
            self.live
            r = set(self._lout[b])
            blk = self.blocks[b]
            for I in reversed(blk[ip + 1:]):
                r.discard(I.i)
                r.update(self.uses(I))
            r.discard(blk[ip].i)
            self._la[k] = r = tuple(sorted(r))
        return r


class Module:
    def __init__(self, path):
        j = json.load(open(path))
        self.globals = j['globals']
        self.funcs = {}
        for n, f in j['functions'].items():
            self.funcs[n] = Func(n, f, self)
        self.byqual = {}
        for f in self.funcs.values():
            self.byqual.setdefault(f.qual, []).append(f)

    def operand(self, v):
        """(0,reg) or (1,value)"""
        k = v[0]
        if k == 'r':
            return (0, v[1])
        return (1, self.const(v))

    def const(self, v):
        k = v[0]
        if k == 'c':
            return int(v[2])
        if k == 'n':
            return v[1] if len(v) > 1 else 0
        if k == 'u':
            return UNDEF
        if k == 'f':
            return Op('fc', float(v[1]) if v[1] not in ('NaN', 'Inf', '-Inf', '+Inf') else float(v[1].lower()))
        if k == 'g':
            n = v[1]
            if n in self.funcs:
                return Fn(n)
            return Ptr('@' + n, v[2])
        if k == 'z':
            return ('zero', v[1], v[2])
        if k == 'A' or k == 'S':
            return ('agg', v)
        return Op('meta')

    def init_cells(self, v, off, ty, cells):
        """expand a constant initialiser into memory cells: off -> (value, size)"""
        k = v[0]
        if k == 'A':
            for i, e in enumerate(v[2]):
                self.init_cells(e, off + i * v[1], None, cells)
            return
        if k == 'S':
            for o, e in v[1]:
                self.init_cells(e, off + o, None, cells)
            return
        if k == 'z':
            self.zero_cells(v[1], off, cells)
            return
        if k == 'u':
            return
        sz = {'c': lambda: max(1, (v[1] + 7) // 8), 'f': lambda: 8}.get(k, lambda: 8)()
        cells[off] = (self.const(v), sz)

    def zero_cells(self, t, off, cells):
        if isinstance(t, list):
            if t[0] == 's':
                for o, e in t[2]:
                    self.zero_cells(e, off + o, cells)
            else:
                for i in range(t[1]):
                    self.zero_cells(t[3], off + i * t[2], cells)
            return
        cells[off] = (Op('fc', 0.0) if t in ('double', 'float') else 0, tsize(t))
