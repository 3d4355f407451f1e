"""Which functions can be left by an exception: a call-graph analysis with the exception edges of the IR.

canthrow(f) holds when some path of f's control flow graph, along normal edges and along the unwind edges of calls that can
throw themselves, reaches a `resume` or a call outside of any handler that can throw.  A handler for every type stops the
exception (unless it throws again), a handler for some types does not."""
from .values import Fn

# functions of the C++ library that are not declared noexcept but whose specification has no way to throw
QUIET = {
    'std::basic_string::basic_string/1',
    'std::_Rb_tree_increment', 'std::_Rb_tree_decrement', 'std::_Rb_tree_insert_and_rebalance', 'std::_Rb_tree_rebalance_for_erase',
    'std::ios_base::~ios_base', '__cxa_free_exception', '__cxa_end_catch', '__cxa_begin_catch', '__cxa_get_exception_ptr',
    '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit', '__dynamic_cast',
}


class NoThrow:
    def __init__(self, mod):
        self.mod = mod
        self.memo = {}
        self.stack = set()
        self.why = {}
        self.seen = 0

    def external(self, f):
        if f.nounwind or f.name.startswith('llvm.') or f.qual in QUIET or f.name in QUIET:
            return None
        return f.dem

    def call(self, I):
        """None, or a chain of names that ends in the operation that throws"""
        if I.nw:
            return None
        if I.f[0] != 1 or not isinstance(I.f[1], Fn):
            return ['a call through a pointer']
        f = self.mod.funcs.get(I.f[1].n)
        if f is None:
            return None if I.f[1].n.startswith('llvm.') else [I.f[1].n]
        return self.function(f)

    def function(self, f):
        if f.nounwind:
            return None
        if f.decl or not f.blocks:
            w = self.external(f)
            return [w] if w else None
        if f.name in self.memo:
            return self.memo[f.name]
        if f.name in self.stack:
            return None
        # depth first with a fixed point over recursion: a function on the stack is taken not to throw, and the result is kept
        # only when it does throw or the function is the root of its cycle
        self.stack.add(f.name)
        r = self.body(f)
        self.stack.discard(f.name)
        if r is not None:
            r = [f.dem] + r
            self.memo[f.name] = r
        elif not self.stack:
            self.memo[f.name] = None
        return r

    def reach(self, f):
        """blocks reachable along normal edges and the unwind edges of throwing calls; yields (block, instruction, chain)"""
        seen, work = set(), [0]
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            for I in f.blocks[b]:
                if I.o in ('call', 'invoke'):
                    w = self.call(I)
                    if w is not None:
                        yield b, I, w
                        if I.o == 'invoke':
                            work.append(I.u)
                if I.o == 'resume':
                    yield b, I, []
            t = f.blocks[b][-1]
            if t.o == 'invoke':
                work.append(t.n)
            else:
                work.extend(f.succs(b))

    def body(self, f):
        first = None
        for b, I, w in self.reach(f):
            if I.o == 'call':
                if w[0] in ('__cxa_rethrow',) or True:
                    return w
            if I.o == 'invoke' and first is None:
                first = w
            if I.o == 'resume':
                return first or ['resume']
        return None

    def terminates(self, f):
        """[(instruction, chain)] calls whose exception ends in std::terminate in this function"""
        pads = {b for b in range(len(f.blocks)) for I in f.blocks[b] if I.o in ('call', 'invoke') and I.f[0] == 1 and isinstance(I.f[1], Fn)
                and I.f[1].n in ('__clang_call_terminate', '_ZSt9terminatev')}
        out = []
        if not pads:
            return out
        for b, I, w in self.reach(f):
            if I.o == 'invoke':
                self.seen += 1
                # does the unwind edge lead to the terminate call without passing a call that ends the handler?
                u, hit = I.u, False
                work, seen = [u], set()
                while work:
                    x = work.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    if x in pads:
                        hit = True
                        break
                    if any(J.o in ('call', 'invoke') and J.f[0] == 1 and isinstance(J.f[1], Fn) and J.f[1].n == '__cxa_begin_catch' for J in f.blocks[x]):
                        continue
                    # only along normal edges: what an unwinding clean-up throws itself is another exception
                    t = f.blocks[x][-1]
                    if t.o == 'invoke':
                        work.append(t.n)
                    else:
                        work.extend(f.succs(x))
                if hit:
                    out.append((I, w))
        return out
