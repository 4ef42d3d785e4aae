"""Contracts for scope() and the progress tracker."""
import os, z3
from irv.core import *
from irv.std import *
from irv.build import bitcode, VERIF
from irv.llvm import Module
ASSUMPTIONS = ['scoped type, body and result type are opaque; their special members are assumed contracts', 'mutex lock/unlock and the atomic primitives of shared_ptr are assumed contracts (sequentially consistent)',
  'each counter update is a single atomic read-modify-write, so concurrent clients add up; operator new succeeds']
BATTERY = [dict(src='scope.cpp', args=[], flags=['-fsanitize=address,undefined'], timeout=100)]
_M = None
def mod():
    global _M
    if _M is None: _M = Module(bitcode(os.path.join(VERIF, 'drivers/scope.cpp')))
    return _M
def prepare(): mod()
SC = ['sc_args', 'sc_noargs', 'sc_plain', 'sc_void', 'sc_lock_guard', 'sc_unique', 'sc_scoped', 'sc_lock_void', 'sc_adopt']
PR = ['wrap', 'copy', 'move', 'assign', 'move_assign', 'self_assign', 'destroy', 'call', 'observe']
def units(tier): return [('scope', f) for f in SC] + [('progress', f) for f in PR]
def run(u, **kw):
    ex = Engine(mod()); ex.cur = '%s %s' % u; ex.under_contract.add('stlab::scope' if u[0] == 'scope' else 'progress_tracker / tracker_client / tracker_server: ' + u[1])
    (scope if u[0] == 'scope' else progress)(ex, u[1]); return [ex]
E_ = Exc('body', '_ZTI5UserE')
def scope(ex, fn):
    s = State(); s.g['log'] = []; lock = fn in SC[4:]
    mon = Monitor(ex); m = Ptr(ex.new_region(s, 40, 'mutex')); install_refcount(ex)
    def L(st, *e): st.g['log'] = st.g['log'] + [e]
    def ctor(ex, st, a, ins):
        s2 = st.fork(); s2.path.append('construction throws')
        L(st, 'ctor', (a[0].r, a[0].o), a[1:]); return [(st, Ret(None)), (s2, Throw(Exc('ctor', '_ZTI5UserE')))]
    def dtor(ex, st, a, ins): L(st, 'dtor', (a[0].r, a[0].o)); return Ret(None)
    def body(res):
        def h(ex, st, a, ins):
            if lock: ex.check(st, (m.r, 0) in mon.held(st), 'the body runs with the lock held')
            else: ex.check(st, [e[0] for e in st.g['log']] == ['ctor'], 'the body runs with the scoped value alive')
            s2 = st.fork(); L(st, 'body'); L(s2, 'body!'); return [(st, Ret(res(ex, st, a))), (s2, Throw(E_))]
        return h
    X = z3.BitVec('result', 64)
    ex.contract('Res::Res()', ctor, trusted=True); ex.contract('Res::Res(long, long*)', ctor, trusted=True); ex.contract('Res::~Res()', dtor, trusted=True)
    ex.contract('o_body', body(lambda ex, st, a: X), trusted=True); ex.contract('o_vbody', body(lambda ex, st, a: None), trusted=True)
    def robj(ex, st, a): ex.store(st, a[0], X, I64); st.g['res'] = st.g.get('res', 0) + 1
    ex.contract('Body::operator()()', body(robj), trusted=True)
    def rcopy(ex, st, a, ins): ex.store(st, a[0], ex.load(st, a[1], I64), I64); st.g['res'] = st.g.get('res', 0) + 1; return Ret(None)
    def rdt(ex, st, a, ins): st.g['res'] = st.g.get('res', 0) - 1; return Ret(None)
    ex.contract('Result::Result(Result&&)', rcopy, trusted=True); ex.contract('Result::Result(Result const&)', rcopy, trusted=True); ex.contract('Result::~Result()', rdt, trusted=True)
    out = Ptr(ex.new_region(s, 8, 'out')); f = Ptr(ex.new_region(s, 8, 'body')); A = z3.BitVec('a', 64); bp = Ptr(ex.new_region(s, 8, 'ptr'))
    args = {'sc_args': [out, f, A, bp], 'sc_noargs': [out, f], 'sc_plain': [A, bp], 'sc_void': [A, bp]}.get(fn, [m])
    if fn == 'sc_adopt': s.g['held'] = ((m.r, 0),)
    n = 0
    for st, r in ex.invoke_fn(s, fn, args):
        n += 1; log = st.g['log']; k = [e[0] for e in log]; ok = isinstance(r, Ret)
        if lock:
            ex.check(st, not mon.held(st), 'the lock is released at scope end'); ex.check(st, st.g.get('locks', 0) == (0 if fn == 'sc_adopt' else 1), 'the lock is taken exactly once'); ex.check(st, k == (['body'] if ok else ['body!']), 'the body runs exactly once')
        elif not ok and r.e.tok == 'ctor': ex.check(st, k == [], 'no body and no destruction when the scoped value cannot be made'); continue
        else:
            ex.check(st, k == ['ctor', 'body' if ok else 'body!', 'dtor'], 'constructed, body run exactly once, destroyed exactly once afterwards')
            ex.check(st, log[-1][1] == log[0][1], 'the value constructed is the one destroyed')
            if fn not in ('sc_noargs',): ex.check(st, z3.And(to_bv(log[0][2][0], 64) == A, isinstance(log[0][2][1], Ptr) and log[0][2][1].r == bp.r), 'the arguments reach the scoped value')
        if not ok: ex.check(st, r.e.tok == 'body', 'the exception of the body is passed on'); ex.check(st, st.g.get('res', 0) == 0, 'no result object is leaked'); continue
        if fn in ('sc_args', 'sc_noargs'): ex.check(st, ex.load(st, out, I64) == X, 'the result of the body is returned unchanged'); ex.check(st, st.g.get('res', 0) == 1, 'one result object')
        elif 'void' not in fn: ex.check(st, r.v == X, 'the result of the body is returned unchanged')
    ex.check(s, n >= 2, 'cover: normal and exceptional exits are reached')
def progress(ex, op):
    install_refcount(ex); s = State(); s.g['live'] = {}; s.g['log'] = []
    ex.hooks['extern_global'] = extern_global
    key = lambda p: (p.r, p.o)
    def put(st, p, v): st.g['live'] = dict(st.g['live']); st.g['live'][key(p)] = v
    def mv(ex, st, a, ins): ex.check(st, key(a[1]) in st.g['live'] and key(a[0]) not in st.g['live'], 'lifetime: a live callable is moved into free storage'); v = st.g['live'].get(key(a[1])); put(st, a[0], v); put(st, a[1], None); return Ret(None)
    def cp(ex, st, a, ins): ex.check(st, key(a[1]) in st.g['live'] and key(a[0]) not in st.g['live'], 'lifetime: a live callable is copied into free storage'); put(st, a[0], st.g['live'].get(key(a[1]))); return Ret(None)
    def as_(ex, st, a, ins): ex.check(st, key(a[1]) in st.g['live'] and key(a[0]) in st.g['live'], 'lifetime: assignment between live callables'); put(st, a[0], st.g['live'].get(key(a[1]))); return Ret(a[0])
    def asm(ex, st, a, ins):
        ex.check(st, key(a[1]) in st.g['live'] and key(a[0]) in st.g['live'], 'lifetime: assignment between live callables'); v = st.g['live'].get(key(a[1]))
        if key(a[0]) != key(a[1]): put(st, a[1], None)
        put(st, a[0], v); return Ret(a[0])
    def dt(ex, st, a, ins): ex.check(st, key(a[0]) in st.g['live'], 'lifetime: a callable is destroyed exactly once'); st.g['live'] = {k: v for k, v in st.g['live'].items() if k != key(a[0])}; return Ret(None)
    R = z3.BitVec('result', 64)
    def call(ex, st, a, ins):
        ex.check(st, st.g['live'].get(key(a[0])) is not None, 'the wrapped callable is alive when invoked'); s2 = st.fork(); st.g['log'] = st.g['log'] + [('call', st.g['live'].get(key(a[0])), a[1])]; return [(st, Ret(R)), (s2, Throw(E_))]
    for nm, h in (('Fn::Fn(Fn&&)', mv), ('Fn::Fn(Fn const&)', cp), ('Fn::operator=(Fn const&)', as_), ('Fn::operator=(Fn&&)', asm), ('Fn::~Fn()', dt), ('Fn::operator()(long) const', call)): ex.contract(nm, h, trusted=True)
    ex.contract(rx(r'^std::function<void \(unsigned long, unsigned long\)>::operator\(\)\('), lambda ex, st, a, ins: (st.g.__setitem__('log', st.g['log'] + [('signal', a[1], a[2])]), Ret(None))[1], 'std::function call', True)
    def one(st, fn, args):
        o = ex.invoke_fn(st, fn, args)
        if len(o) != 1 or not isinstance(o[0][1], Ret): raise ToolLimit(fn + ' is expected to return')
        return o[0][0], o[0][1].v
    s, ts = one(s, 'pr_tsize', []); s, cs = one(s, 'pr_csize', [])
    names = ('t%d' % i for i in range(1000))
    def tracker(st, sig=False):
        t = Ptr(ex.new_region(st, ts, 'tracker')); n = next(names)
        if sig:
            f = Ptr(ex.new_region(st, 32, 'std::function')); st, _ = one(st, 'fn_set', [f, Fn('user_signal')]); st, _ = one(st, 'pr_ctor_sig', [t, f])
        else: st, _ = one(st, 'pr_ctor', [t])
        a, b = z3.BitVec('steps_' + n, 64), z3.BitVec('done_' + n, 64); st, _ = one(st, 'pr_set', [t, a, b]); return st, t, a, b
    def client(st, t):
        f = Ptr(ex.new_region(st, 16, 'callable')); n = next(names); put(st, f, n); c = Ptr(ex.new_region(st, cs, 'client')); st, _ = one(st, 'pr_wrap', [c, t, f])
        st.g['live'] = {k: v for k, v in st.g['live'].items() if k != key(f)}; return st, c, n
    def counts(st, t, ds, dd, base, what, fin=False):
        s2 = st.fork(); s2, a = one(s2, 'pr_steps', [t]); s2, b = one(s2, 'pr_completed', [t])
        ex.check(st, to_bv(a, 64) == base[0] + ds, what + ': the total is the number of live wrapped tasks'); ex.check(st, to_bv(b, 64) == base[1] + dd, what + ': the completed count is the number of finished invocations')
    def F(st, c): return [v for (r, o), v in st.g['live'].items() if r == c.r]
    def raw(st): return Ptr(ex.new_region(st, cs, 'client'))
    s, t, a, b = tracker(s); base = (a, b); N = 0
    if op == 'wrap': s, c, n = client(s, t); counts(s, t, 1, 0, base, 'wrap'); ex.check(s, F(s, c) == [n], 'the client holds the callable'); N = 1
    elif op == 'observe':
        s, v = one(s, 'pr_steps', [t]); ex.check(s, v == a, 'steps'); s, v = one(s, 'pr_completed', [t]); ex.check(s, v == b, 'completed'); q = Ptr(ex.new_region(s, ts, 'tracker2')); s, _ = one(s, 'pr_copy', [q, t]); s, c, n = client(s, t); counts(s, q, 1, 0, base, 'copies of a tracker share their counts'); N = 1
    elif op in ('copy', 'move'):
        for gone in (False, True):
            st = s.fork(); st, c, n = client(st, t); q = raw(st)
            if gone: st, _ = one(st, 'pr_dtor', [t])
            for st, r in ex.invoke_fn(st, 'cl_' + op, [q, c]):
                N += 1; ex.check(st, F(st, q) == [n], 'the new client holds the callable')
                if not gone: counts(st, t, 2 if op == 'copy' else 1, 0, base, op)
                st, _ = one(st, 'cl_dtor', [c])
                if not gone: counts(st, t, 1, 0, base, op + ', source destroyed')
                st, _ = one(st, 'cl_dtor', [q])
                if not gone: counts(st, t, 0, 0, base, op + ', both destroyed'); st, _ = one(st, 'pr_dtor', [t])
                ex.check(st, not st.g['live'] and not [1 for R_ in st.mem.values() if R_.heap and R_.alive], 'nothing is leaked')
    elif op in ('assign', 'move_assign', 'self_assign'):
        s, t2, a2, b2 = tracker(s); base2 = (a2, b2)
        for mode in ('same', 'other', 'moved', 'gone', 'src_moved') if op != 'self_assign' else ('self',):
            st = s.fork(); st, x, n1 = client(st, t); T = t if mode in ('same', 'moved') else t2
            if mode == 'self':
                st, _ = one(st, 'cl_self', [x]); N += 1; counts(st, t, 1, 0, base, 'self-assignment'); ex.check(st, F(st, x) == [n1], 'the callable is kept'); st, _ = one(st, 'cl_dtor', [x]); counts(st, t, 0, 0, base, 'self-assignment, destroyed'); continue
            st, y, n2 = client(st, T)
            if mode == 'moved': q = raw(st); st, _ = one(st, 'cl_move', [q, x]); st, _ = one(st, 'cl_dtor', [q])
            if mode == 'src_moved': q = raw(st); st, _ = one(st, 'cl_move', [q, y]); st, _ = one(st, 'cl_dtor', [q])
            if mode == 'gone': st, _ = one(st, 'pr_dtor', [t])
            for st, r in ex.invoke_fn(st, 'cl_' + op, [x, y]):
                N += 1; cpy = op == 'assign'
                if mode == 'same' or mode == 'moved': counts(st, t, 2 if cpy else 1, 0, base, 'assignment (%s tracker)' % mode)
                elif mode == 'src_moved': counts(st, t, 0, 0, base, 'assignment (moved-from source)'); counts(st, t2, 0, 0, base2, 'assignment (moved-from source)')
                else:
                    if mode != 'gone': counts(st, t, 0, 0, base, 'assignment (other tracker): old task')
                    counts(st, t2, 2 if cpy else 1, 0, base2, 'assignment (other tracker): new task')
                if mode != 'src_moved': ex.check(st, F(st, x) == [n2], 'the target holds the callable of the source')
                st, _ = one(st, 'cl_dtor', [x]); st, _ = one(st, 'cl_dtor', [y])
                if mode != 'gone': counts(st, t, 0, 0, base, 'assignment, all destroyed'); st, _ = one(st, 'pr_dtor', [t])
                counts(st, t2, 0, 0, base2, 'assignment, all destroyed'); st, _ = one(st, 'pr_dtor', [t2])
                ex.check(st, not st.g['live'] and not [1 for R_ in st.mem.values() if R_.heap and R_.alive], 'nothing is leaked')
    elif op == 'destroy':
        st, c, n = client(s.fork(), t); st, _ = one(st, 'cl_dtor', [c]); counts(st, t, 0, 0, base, 'destroy'); N += 1; ex.check(st, not st.g['live'], 'the callable is destroyed')
        st, c, n = client(s.fork(), t); st, _ = one(st, 'pr_dtor', [t]); st, _ = one(st, 'cl_dtor', [c]); ex.check(st, not st.g['live'] and not [1 for R_ in st.mem.values() if R_.heap and R_.alive], 'a client that outlives the tracker is destroyed cleanly')
    elif op == 'call':
        x = z3.BitVec('arg', 64)
        for sig in (False, True):
            for gone in (False, True):
                st = s.fork(); st, t3, a3, b3 = tracker(st, sig); st, c, n = client(st, t3)
                if gone: st, _ = one(st, 'pr_dtor', [t3])
                for st, r in ex.invoke_fn(st, 'cl_call', [c, x]):
                    L = st.g['log']
                    if isinstance(r, Throw): ex.check(st, L == [] and r.e.tok == 'body', 'the exception is passed on'); (counts(st, t3, 1, 0, (a3, b3), 'failed call') if not gone else None); continue
                    N += 1
                    ex.check(st, len(L) >= 1 and L[0][0] == 'call' and L[0][1] == n and [e[0] for e in L].count('call') == 1, 'the wrapped callable is invoked exactly once, before anything is reported'); ex.check(st, L[0][2] == x if z3.is_expr(L[0][2]) else isinstance(L[0][2], Ptr), 'with its argument'); ex.check(st, r.v == R, 'its result is passed back')
                    if gone: ex.check(st, len(L) == 1, 'nothing is reported once the tracker is gone'); continue
                    counts(st, t3, 1, 1, (a3, b3), 'call')
                    ex.check(st, len(L) == (2 if sig else 1), 'the signal is sent exactly once per finished task, if there is one')
                    if sig and len(L) == 2: ex.check(st, z3.And(L[1][0] == 'signal', to_bv(L[1][1], 64) == a3 + 1, to_bv(L[1][2], 64) == b3 + 1), 'the signal reports the total and the completed count')
    ex.check(s, N >= 1, 'cover: a feasible execution reaches an exit')
