"""Contracts for task_ (type-erased callable)."""
import os, z3, re
from irv.core import *
from irv.build import bitcode, VERIF
from irv.llvm import Module
ASSUMPTIONS = ['callable types are opaque: move/copy/destroy/call of the callable are assumed contracts; the small and the large representation are each instantiated with two opaque types',
  'operator new returns fresh storage (std::bad_alloc not modelled)', 'a moved-from task is only required to be destroyable and assignable']
BATTERY = [dict(src='task.cpp', args=[], flags=['-fsanitize=address,undefined'], timeout=200)]
_M = None
def mod():
    global _M
    if _M is None: _M = Module(bitcode(os.path.join(VERIF, 'drivers/task.cpp')))
    return _M
def prepare(): mod()
class W:
    """ghost lifetime: st.g['live'] maps the address of every live callable to the identity it carries (None = moved from)"""
    def __init__(w, P):
        w.P = P; w.ex = ex = Engine(mod()); w.st = State(); w.st.g['live'] = {}; w.st.g['calls'] = []
        def key(p):
            if not isinstance(p, Ptr): raise ToolLimit('callable address %r' % (p,))
            return (p.r, p.o)
        def sz(ins, ex):
            m = re.search(r'<\d+, (\d+)>', ex); return 8 * int(m.group(1))
        def born(ex, st, a, tok, what):
            k = key(a); R = st.mem[a.r]
            ex.check(st, R.alive and k not in st.g['live'], 'lifetime: a callable is %s into storage that holds no live callable' % what)
            st.g['live'] = dict(st.g['live']); st.g['live'][k] = tok
        def nm(ins): return ex.mod.funcs[ins.x[1]].dem
        def mv(ex, st, a, ins):
            n = sz(ins, nm(ins)); k = key(a[1]); ex.access_ok(st, a[0], n, 'construct'); ex.access_ok(st, a[1], n, 'move')
            ex.check(st, k in st.g['live'], 'lifetime: only a live callable is moved from')
            outs = []
            if not nm(ins).startswith('CN<') and w.throws and not st.g.get('moved1'):
                s2 = st.fork(); s2.path.append('callable move constructor throws'); outs.append((s2, Throw(Exc('ctor', '_ZTI5UserE'))))
            st.g['moved1'] = w.throws; tok = st.g['live'].get(k); born(ex, st, a[0], tok, 'moved'); st.g['live'][k] = None; outs.append((st, Ret(None)))
            return outs
        def cp(ex, st, a, ins):
            n = sz(ins, nm(ins)); k = key(a[1]); ex.access_ok(st, a[0], n, 'construct'); ex.access_ok(st, a[1], n, 'copy')
            ex.check(st, k in st.g['live'], 'lifetime: only a live callable is copied')
            s2 = st.fork(); s2.path.append('callable copy constructor throws')
            born(ex, st, a[0], ('copy', st.g['live'].get(k)), 'copied'); return [(st, Ret(None)), (s2, Throw(Exc('ctor', '_ZTI5UserE')))]
        def dt(ex, st, a, ins):
            k = key(a[0]); ex.access_ok(st, a[0], 8, 'destroy')
            ex.check(st, k in st.g['live'], 'lifetime: a callable is destroyed exactly once')
            st.g['live'] = dict(st.g['live']); st.g['live'].pop(k, None); return Ret(None)
        def call(ex, st, a, ins):
            k = key(a[0]); ex.check(st, k in st.g['live'] and st.g['live'][k] is not None, 'lifetime: the callable invoked is alive and not moved from')
            r = fresh('result', 'bv', 64); st.g['calls'] = st.g['calls'] + [(st.g['live'].get(k), a[1:], r)]
            if nm(ins).startswith('CN<'): return Ret(r)
            s2 = st.fork(); return [(st, Ret(r)), (s2, Throw(Exc('user', '_ZTI5UserE')))]
        C = lambda pat: re.compile(r'^' + pat)
        ex.contract(C(r'CN?<\d+, \d+>::CN?\(CN?<\d+, \d+>&&\)'), mv, 'callable move', True)
        ex.contract(C(r'CN?<\d+, \d+>::CN?\(CN?<\d+, \d+> const&\)'), cp, 'callable copy', True)
        ex.contract(C(r'CN?<\d+, \d+>::~CN?\(\)'), dt, 'callable destructor', True)
        ex.contract(C(r'CN?<\d+, \d+>::operator\(\)\(long\)( const)?$'), call, 'callable invocation', True)
        ex.contract('std::bad_function_call::bad_function_call()', lambda ex, st, a, ins: Ret(None), trusted=True)
        ex.contract(re.compile(r'^std::type_info::operator==\(std::type_info const&\) const'), lambda ex, st, a, ins: Ret(simp(ex.ptr_eq(st, a[0], a[1]))), 'std::type_info ==', True)
        ex.contract(re.compile(r'^std::type_info::operator!=\(std::type_info const&\) const'), lambda ex, st, a, ins: Ret(simp(z3.Not(to_bool(ex.ptr_eq(st, a[0], a[1]))))), 'std::type_info !=', True)
        ex.hooks['extern_global'] = lambda ex, st, n, r: None
        ex.hooks['unreachable'] = None
        del ex.hooks['unreachable']
        w.throws = False; w.n = 0
    def raw(w, st):
        r = w.ex.new_region(st, w.size, 'task'); return Ptr(r)
    def callable(w, st, kind):
        n = {'S': 8, 'L': 128, 'S2': 24, 'L2': 72}[kind]; w.n += 1
        r = w.ex.new_region(st, n, 'client callable ' + kind); tok = 'f%d' % w.n
        st.g['live'] = dict(st.g['live']); st.g['live'][(r, 0)] = tok
        return Ptr(r), tok
    def run(w, st, fn, args):
        out = w.ex.invoke_fn(st, w.P + '_' + fn, args)
        return out
    def one(w, st, fn, args):
        out = w.run(st, fn, args)
        if len(out) != 1 or not isinstance(out[0][1], Ret): raise ToolLimit('%s is expected to return' % fn)
        return out[0][0], out[0][1].v
    def make(w, st, kind):
        """a task in state `kind`: E empty, S/L/.. holding a callable, SM/LM moved from"""
        th, w.throws = w.throws, False
        try:
            p = w.raw(st)
            if kind == 'E': st, _ = w.one(st, 'ctor_default', [p]); return st, p, None
            k = kind.rstrip('M')
            c, tok = w.callable(st, k); st, _ = w.one(st, 'ctor_' + k, [p, c])
            st.g['live'] = dict(st.g['live']); del st.g['live'][(c.r, 0)]; st.reg(c.r).alive = False
            if kind.endswith('M'):
                q = w.raw(st); st, _ = w.one(st, 'move', [q, p]); st, _ = w.one(st, 'dtor', [q]); st.reg(q.r).alive = False; tok = None
            return st, p, tok
        finally: w.throws = th
    def image(w, st, p):
        """abstract state of a task, independent of addresses: its dispatch pointers and the callable it owns (dead bytes are ignored)"""
        out = []; held = []
        for o, (n, v) in sorted(st.mem[p.r].cells.items()):
            if isinstance(v, Ptr):
                R = st.mem[v.r]
                if 'global' in R.meta: out.append((o, n, ('global', R.meta['global'], v.o)))
                elif R.heap and R.alive: held.append(('heap', st.g['live'].get((v.r, v.o), 'dead')))
            elif isinstance(v, Fn): out.append((o, n, ('fn', v.name)))
        held += [('in place', t) for (r, o), t in st.g['live'].items() if r == p.r]
        return out, held
    def same(w, ex, st, p, ref, tok, name):
        """the task at p is in the canonical state `ref` holding the callable `tok`"""
        a, b = w.image(st, p), ref
        def sub(im, t): return (im[0], [(h, t if v is not None else None) for h, v in im[1]])
        ex.check(st, sub(b, tok) == a, name, '%r is not %r' % (a, sub(b, tok)))
    def canon(w, kind):
        s = w.st.fork(); s.frames = []; s, p, tok = w.make(s, kind); return w.image(s, p)
    def leak(w, ex, st, tasks, clients=()):
        """every live callable belongs to one of the given tasks (or to the client)"""
        own = set()
        for p in tasks:
            for o, (n, v) in st.mem[p.r].cells.items():
                if isinstance(v, Ptr) and st.mem[v.r].heap: own.add((v.r, v.o))
            own |= {k for k in st.g['live'] if k[0] == p.r}
        for c in clients: own.add((c.r, c.o))
        ex.check(st, all(k in own for k in st.g['live']), 'lifetime: no callable is leaked')
        heap = [r for r, R in st.mem.items() if R.heap and R.alive]
        ex.check(st, all(any(isinstance(v, Ptr) and v.r == r for p in tasks for o, (n, v) in st.mem[p.r].cells.items()) for r in heap), 'memory-safety: no storage is leaked')
        if not tasks: return
        s = st.fork()
        th, w.throws = w.throws, False
        for p in tasks: s, _ = w.one(s, 'dtor', [p])
        w.throws = th
        ex.check(s, all(any(k == (c.r, c.o) for c in clients) for k in s.g['live']) and not [r for r, R in s.mem.items() if R.heap and R.alive], 'lifetime: destroying the tasks afterwards destroys every callable exactly once')
KINDS = ['E', 'S', 'L', 'S2', 'L2', 'SM', 'LM']
FULL = ['E', 'S', 'L']
def units(tier):
    for P in 'tn':
        for o in ('construct', 'copy', 'observe', 'invoke', 'destroy', 'move', 'move_assign', 'self_assign', 'assign_null', 'assign', 'swap', 'self_swap'): yield (P, o)
    yield ('t', 'function pointer'); yield ('a', 'arguments')
def run(u, **kw):
    P, op = u; w = W(P); ex = w.ex; ex.cur = 'task_ %s%s' % (op, {'t': '', 'n': ' (noexcept)', 'a': ''}[P])
    ex.under_contract.add(ex.cur)
    if P != 'a': w.st, w.size = w.one(w.st, 'size', [])
    s0 = w.st
    if False:
        # where the small representation lives (found by running the real constructor)
        w.model = None; s = s0.fork(); s, p, tok = w.make(s, 'S')
        w.model = next((o for (r, o), t in s.g['live'].items() if r == p.r and t == tok), -1)
    globals()['op_' + op.replace(' ', '_')](w, ex, s0)
    return [ex]
def B(v): return to_bool(v)
def dead(w, st, c):
    st.g['live'] = dict(st.g['live']); st.g['live'].pop((c.r, 0), None)
def op_construct(w, ex, s0):
    for how in ('default', 'null'):
        s = s0.fork(); p = w.raw(s)
        for st, r in w.run(s, 'ctor_' + how, [p]):
            ex.check(st, isinstance(r, Ret), 'no exception'); w.same(ex, st, p, w.canon('E'), None, 'a default or null task is empty')
    w.throws = True
    for k in ('S', 'L', 'S2', 'L2'):
        s = s0.fork(); p = w.raw(s); c, tok = w.callable(s, k)
        for st, r in w.run(s, 'ctor_' + k, [p, c]):
            if isinstance(r, Throw):
                w.leak(ex, st, [], [c]); ex.check(st, r.e.tok == 'ctor', 'only the callable itself throws'); continue
            w.same(ex, st, p, w.canon(k), tok, 'the task holds the callable it was given'); w.leak(ex, st, [p], [c])
            ex.check(st, st.g['live'].get((c.r, 0), 'x') is None, 'the callable is moved in once'); ex.check(st, not st.g['calls'], 'construction does not invoke')
def op_copy(w, ex, s0):
    for k in FULL[1:]:
        s = s0.fork(); p = w.raw(s); c, tok = w.callable(s, k)
        for st, r in w.run(s, 'copy_' + k, [p, c]):
            ex.check(st, st.g['live'].get((c.r, 0)) == tok, 'the source callable is unchanged')
            if isinstance(r, Throw): w.leak(ex, st, [], [c]); continue
            w.same(ex, st, p, w.canon(k), ('copy', tok), 'the task holds a copy of the callable'); w.leak(ex, st, [p], [c])
def op_observe(w, ex, s0):
    for k in ('E', 'S', 'L', 'S2', 'L2'):
        s = s0.fork(); s, p, tok = w.make(s, k)
        for fn, want in (('bool', k != 'E'), ('eqnull', k == 'E'), ('eqnull2', k == 'E'), ('nenull', k != 'E'), ('nenull2', k != 'E')):
            for st, r in w.run(s.fork(), fn, [p]): ex.check(st, B(r.v) == want if isinstance(r, Ret) else False, '%s reports whether a callable is held' % fn)
        im = w.image(s, p)
        for T in ('S', 'L'):
            for fn in ('target_', 'ctarget_'):
                for st, r in w.run(s.fork(), fn + T, [p]):
                    if T != k: ex.check(st, isinstance(r, Ret) and isinstance(r.v, Null), 'target of another type is null')
                    else: ex.check(st, isinstance(r, Ret) and isinstance(r.v, Ptr) and st.g['live'].get((r.v.r, r.v.o)) == tok, 'target points at the held callable')
                    ex.check(st, w.image(st, p) == im, 'observers do not change the task')
        for T, kk in (('void', 'E'), ('S', 'S'), ('L', 'L')):
            st = s.fork(); st, a = w.one(st, 'type', [p]); st, b = w.one(st, 'typeid_' + T, [])
            ex.check(st, to_bool(ex.ptr_eq(st, a, b)) == z3.BoolVal(kk == k), 'target_type is the type of the held callable, void when empty')
def op_invoke(w, ex, s0):
    for k in ('E', 'S', 'L', 'S2', 'L2'):
        s = s0.fork(); s, p, tok = w.make(s, k); im = w.image(s, p); x = z3.BitVec('arg', 64)
        if w.P == 'n' and k == 'E':
            hit = []
            ex.hooks['terminate'] = lambda ex, st, a, ins: (hit.append(1), (_ for _ in ()).throw(Infeasible()))[1]
            out = w.run(s, 'invoke', [p, x]); ex.hooks.pop('terminate')
            ex.check(s, not out and bool(hit), 'invoking an empty noexcept task terminates, nothing else'); continue
        out = w.run(s, 'invoke', [p, x]); ex.check(s0, len(out) >= 1, 'cover: invocation has an outcome')
        for st, r in out:
            if k == 'E': ex.check(st, isinstance(r, Throw) and 'bad_function_call' in str(r.e.ti), 'invoking an empty task reports a bad call'); continue
            c = st.g['calls']; ex.check(st, len(c) == 1 and c[0][0] == tok, 'exactly the held callable is invoked, once')
            ex.check(st, to_bv(c[0][1][0], 64) == x, 'with the given argument')
            if isinstance(r, Ret): ex.check(st, r.v is c[0][2] or r.v == c[0][2], 'its result is passed back')
            else: ex.check(st, r.e.tok == 'user', 'its exception is passed back')
            ex.check(st, w.image(st, p) == im, 'the task still holds it')
def op_destroy(w, ex, s0):
    for k in KINDS:
        s = s0.fork(); s, p, tok = w.make(s, k)
        for st, r in w.run(s, 'dtor', [p]):
            ex.check(st, isinstance(r, Ret) and not [v for v in st.g['live']], 'the held callable is destroyed exactly once'); w.leak(ex, st, [])
def op_move(w, ex, s0):
    for k in KINDS:
        s = s0.fork(); s, p, tok = w.make(s, k); q = w.raw(s)
        for st, r in w.run(s, 'move', [q, p]):
            ex.check(st, isinstance(r, Ret), 'no exception'); w.same(ex, st, q, w.canon(k), tok, 'the target holds the callable'); w.same(ex, st, p, w.canon(k if k == 'E' or k.endswith('M') else k + 'M'), None, 'the source is moved from'); w.leak(ex, st, [p, q])
            ex.check(st, not st.g['calls'], 'nothing is invoked')
def M(k): return k if k == 'E' or k.endswith('M') else k + 'M'
def op_move_assign(w, ex, s0):
    for k in KINDS:
        for j in KINDS:
            s = s0.fork(); s, q, t1 = w.make(s, k); s, p, t2 = w.make(s, j)
            for st, r in w.run(s, 'move_assign', [q, p]):
                ex.check(st, isinstance(r, Ret), 'no exception'); w.same(ex, st, q, w.canon(j), t2, 'the target holds the callable of the source'); w.same(ex, st, p, w.canon(M(j)), None, 'the source is moved from')
                w.leak(ex, st, [p, q]); ex.check(st, not st.g['calls'], 'nothing is invoked')
                ex.check(st, t1 is None or t1 not in st.g['live'].values(), 'the previous callable of the target is destroyed')
def op_self_assign(w, ex, s0):
    for k in ('E', 'S', 'L'):
        s = s0.fork(); s, p, tok = w.make(s, k)
        for st, r in w.run(s, 'self_assign', [p]):
            ex.check(st, isinstance(r, Ret), 'no exception'); w.leak(ex, st, [p])
            for s2, r2 in w.run(st, 'dtor', [p]): ex.check(s2, isinstance(r2, Ret) and not s2.g['live'], 'after self-assignment the task can be destroyed'); w.leak(ex, s2, [])
def op_self_swap(w, ex, s0):
    for k in ('E', 'S', 'L'):
        for fn in ('swap', 'fswap'):
            s = s0.fork(); s, p, tok = w.make(s, k)
            for st, r in w.run(s, fn, [p, p]): ex.check(st, isinstance(r, Ret), 'no exception'); w.same(ex, st, p, w.canon(k), tok, 'swap with itself keeps the callable'); w.leak(ex, st, [p])
def op_assign_null(w, ex, s0):
    for k in KINDS:
        s = s0.fork(); s, p, tok = w.make(s, k)
        for st, r in w.run(s, 'assign_null', [p]):
            ex.check(st, isinstance(r, Ret), 'no exception'); w.same(ex, st, p, w.canon('E'), None, 'the task is empty'); w.leak(ex, st, [p]); ex.check(st, not st.g['live'], 'its callable is destroyed')
def op_assign(w, ex, s0):
    for k in KINDS:
        for j in ('S', 'L'):
            w.throws = False; s0.g.pop('moved1', None)
            s = s0.fork(); s, p, tok = w.make(s, k); c, t2 = w.callable(s, j); w.throws = True; im = w.image(s, p)
            # the callable moves throw only into the temporary: the task itself keeps its state then
            for st, r in w.run(s, 'assign_' + j, [p, c]):
                if isinstance(r, Throw): ex.check(st, w.image(st, p) == im, 'a failed assignment leaves the task as it was'); w.leak(ex, st, [p], [c]); continue
                w.same(ex, st, p, w.canon(j), t2, 'the task holds the callable assigned'); w.leak(ex, st, [p], [c])
                ex.check(st, tok is None or tok not in st.g['live'].values(), 'the previous callable is destroyed')
def op_swap(w, ex, s0):
    for fn in ('swap', 'fswap'):
        for k in KINDS:
            for j in KINDS:
                s = s0.fork(); s, q, t1 = w.make(s, k); s, p, t2 = w.make(s, j)
                for st, r in w.run(s, fn, [q, p]):
                    ex.check(st, isinstance(r, Ret), 'no exception'); w.same(ex, st, q, w.canon(j), t2, 'swap exchanges the callables'); w.same(ex, st, p, w.canon(k), t1, 'swap exchanges the callables'); w.leak(ex, st, [p, q])
def op_function_pointer(w, ex, s0):
    s = s0.fork(); p = w.raw(s)
    for st, r in w.run(s, 'ctor_fp', [p, NULL]): w.same(ex, st, p, w.canon('E'), None, 'a null function pointer makes an empty task')
    s = s0.fork(); p = w.raw(s); f = Fn('user_function'); calls = []
    st, _ = w.one(s, 'ctor_fp', [p, f]); st, b = w.one(st, 'bool', [p]); ex.check(st, B(b), 'a function pointer makes a non-empty task')
    ex.contract('user_function', lambda ex, st, a, ins: (calls.append(a), Ret(z3.BitVec('r', 64)))[1])
    st, v = w.one(st, 'invoke', [p, z3.BitVec('arg', 64)]); ex.check(st, len(calls) == 1 and v == z3.BitVec('r', 64), 'the function is called once and its result passed back')
def op_arguments(w, ex, s0):
    log = []; s = s0.fork(); s.g['args'] = {}
    def mv(ex, st, a, ins):
        d = dict(st.g['args']); k = (a[1].r, a[1].o); ex.check(st, k in d, 'only a live argument is moved'); d[(a[0].r, a[0].o)] = d.get(k); d[k] = 'moved'; st.g['args'] = d; return Ret(None)
    def dt(ex, st, a, ins):
        d = dict(st.g['args']); ex.check(st, (a[0].r, a[0].o) in d, 'an argument is destroyed exactly once'); d.pop((a[0].r, a[0].o), None); st.g['args'] = d; return Ret(None)
    def call(ex, st, a, ins):
        ex.check(st, st.g['args'].get((a[1].r, a[1].o)) == 'arg', 'the moved argument arrives intact'); ex.check(st, isinstance(a[2], Ptr) and a[2].r == ref.r, 'a reference argument is passed through')
        st.g['calls'] = st.g['calls'] + [1]; return Ret(z3.BitVec('r', 64))
    ex.contract('Arg::Arg(Arg&&)', mv, trusted=True); ex.contract('Arg::~Arg()', dt, trusted=True); ex.contract('CA::operator()(Arg, long&)', call, trusted=True)
    ex.contract('CA::CA(CA&&)', lambda ex, st, a, ins: Ret(None), trusted=True); ex.contract('CA::~CA()', lambda ex, st, a, ins: Ret(None), trusted=True)
    p = Ptr(ex.new_region(s, 256, 'task')); c = Ptr(ex.new_region(s, 8, 'callable')); arg = Ptr(ex.new_region(s, 8, 'arg')); ref = Ptr(ex.new_region(s, 8, 'ref'))
    s.g['args'] = {(arg.r, 0): 'arg'}
    s, _ = w.one(s, 'ctor', [p, c]); s, v = w.one(s, 'invoke', [p, arg, ref])
    ex.check(s, len(s.g['calls']) == 1 and v == z3.BitVec('r', 64), 'the callable is invoked once and its result passed back'); ex.check(s, list(s.g['args']) == [(arg.r, 0)], 'temporary arguments are destroyed')
