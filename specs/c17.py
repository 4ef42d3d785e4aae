"""Contracts for the pre-exit registry (src/pre_exit.cpp), every critical section against a monitor invariant."""
import os, z3
from irv.core import *
from irv.std import *
from irv.seq import *
from irv.loops import *
from irv.build import bitcode, VERIF, REPO
from irv.llvm import Module
ASSUMPTIONS = ['std::mutex gives mutual exclusion; at every lock the registry may have been changed arbitrarily by other threads (its contents are havocked)',
  'std::vector::push_back/emplace_back append one element (assumed contract), the other vector operations are the inlined library code', 'operator new succeeds',
  'pre_exit() is called once, by one thread (documented precondition); actions do not throw (noexcept) and return']
BATTERY = [dict(src='preexit.cpp', args=[], flags=['-I' + REPO, '-fsanitize=address'], asserts=True, timeout=100)]
_M = None
def mod():
    global _M
    if _M is None: _M = Module(bitcode(os.path.join(VERIF, 'drivers/preexit.cpp'), extra=['-I' + REPO]))
    return _M
def prepare(): mod()
def units(tier): return ['at', 'at_first', 'run', 'run_first', 'destroy', 'static']
def run(u, **kw):
    ex = Engine(mod()); ex.cur = 'pre_exit ' + u; ex.under_contract.add({'a': 'at_pre_exit', 'r': 'pre_exit', 'd': 'pre_exit_stack_t::~pre_exit_stack_t', 's': 'pre_exit_stack'}[u[0]])
    s = State(); vec = Vector(ex, 8, name='registry')
    off = {}
    for n in ('size', 'mutex', 'stack', 'closed'):
        f = 'pe_size' if n == 'size' else 'pe_off_' + n
        (s, r), = ex.invoke_fn(s, f, []); off[n] = r.v
    obj = {}   # the registry object: any global that is locked
    def havoc(st, base):
        r = vec.region(st); hi = fresh('n'); st.assume(hi >= 0); vec.setrng(st, r, 0, hi); vec.sync(st, Ptr(base[0], None, base[1] + off['stack']), r)
        c = fresh('closed', 'bool'); ex.put(st, base[0], base[1] + off['closed'], 1, z3.If(c, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        arr = st.ro(r).cells.get((0, 8))
        if arr is None: st.reg(r).lazy(ex, st, r, (0, 8), PTR); arr = st.ro(r).cells[(0, 8)]
        k = z3.Int('k'); st.assume(z3.ForAll([k], z3.Select(arr, k) != 0))     # only non-null actions are registered
        st.g['pre'] = (arr, hi, c)
    def base_of(k): return (k[0], k[1] - off['mutex'])
    def on_lock(ex, st, k):
        st.g['unlocked'] = False
        b = base_of(k); obj[0] = b; st.reg(b[0]).meta['access'] = access
        havoc(st, b)
    def post(st, b):
        r, lo, hi = vec.bounds_of(st, Ptr(b[0], None, b[1] + off['stack']))
        c = ex.load(st, Ptr(b[0], None, b[1] + off['closed']), I8)
        return (st.ro(r).cells[(0, 8)], lo, hi, to_bv(c, 8) != 0)
    def on_unlock(ex, st, k):
        b = base_of(k); arr0, n0, c0 = st.g['pre']; arr1, lo, n1, c1 = post(st, b); ex.check(st, zi(lo) == 0, 'the registry keeps its first action first')
        i = fresh('i'); same = lambda n: z3.Implies(z3.And(0 <= i, i < n), z3.Select(arr1, i) == z3.Select(arr0, i))
        F = st.g.get('F')
        if F is not None:   # registration
            app = z3.And(zi(n1) == zi(n0) + 1, z3.Select(arr1, n0) == F, same(n0), c1 == c0); nop = z3.And(zi(n1) == zi(n0), same(n0), c1 == c0)
            if ex.must(st, nop): return
            ex.check(st, app, 'at_pre_exit adds exactly the given action on top of those already registered'); st.g['appended'] = st.g.get('appended', 0) + 1
            ex.check(st, z3.Not(c0), 'registering after pre_exit() has completed is reported, not silently lost')
        else:               # triggering
            nop = z3.And(zi(n1) == zi(n0), same(n0), c1 == c0)
            if ex.must(st, nop): return
            if ex.must(st, zi(n0) == 0):
                ex.check(st, z3.And(zi(n1) == 0, c1), 'an empty registry is closed'); st.g['closed'] = True
                ex.check(st, st.g.get('pending') is None, 'every action taken is run before pre_exit() completes')
            else:
                ex.check(st, z3.And(zi(n1) == zi(n0) - 1, same(n1), c1 == c0), 'exactly the action registered last is taken and the registry stays open')
                ex.check(st, st.g.get('pending') is None, 'an action is run before the next one is taken'); st.g['pending'] = z3.Select(arr0, zi(n0) - 1)
    def access(ex, st, p, size, what):
        b = obj.get(0)
        if b and (p.r == b[0]) and p.o >= b[1] + off['stack'] and p.o < b[1] + off['size'] and st.g.get('free') is None:
            ex.check(st, len(st.g.get('held', ())) > 0, 'the registry is accessed only with its lock held')
    mon = Monitor(ex, on_lock, on_unlock); install_refcount(ex); ex.hooks['extern_global'] = extern_global
    vec.install(r'void \(\*\)\(\)', lambda ex, st, p, a: ex.store(st, p, ex.load(st, a[0], PTR), PTR))
    install_guard(ex, lambda st: u.endswith('first'))
    def indirect(ex, st, callee, args, ins):
        if isinstance(callee, Null): return None
        if not isinstance(callee, Tok): return None
        ex.check(st, not mon.held(st), 'an action runs without the registry lock held')
        p = st.g.get('pending'); ex.check(st, p is not None, 'an action that runs was taken from the registry (and only once)')
        if p is not None: ex.check(st, zi(callee.t) == p, 'the action taken is the one that is run')
        st.g['pending'] = None; st.g['ran'] = True
        return Ret(None)
    ex.hooks['indirect'] = indirect
    def assertion(ex, st, a, ins):
        if u[0] == 'd': st.g['reported'] = True; ex.check(st, ex.must(st, z3.Not(st.g['c0'])), 'destruction is reported only when pre_exit() was never run'); raise Infeasible()
        pre = st.g.get('pre'); ok = pre is not None and mon.held(st)
        ex.check(st, ok and ex.must(st, pre[2]), 'only use after pre_exit() completed is reported as an error'); raise Infeasible()
    ex.contract('__assert_fail', assertion, '__assert_fail', True)
    n = 0
    if u[0] == 'a':
        F = fresh('F'); s.assume(F != 0); s.g['F'] = F
        for st, r in ex.invoke_fn(s, 'pe_at', [Tok(F)]):
            n += 1; ex.check(st, isinstance(r, Ret), 'registration does not throw'); ex.check(st, st.g.get('appended', 0) == 1, 'the action is registered exactly once'); ex.check(st, not mon.held(st), 'the lock is released')
    elif u[0] == 'r':
        def rel(ex, st, vals):
            p = st.g.get('pending'); return (p is not None, tuple(p is not None and isinstance(v, Tok) and ex.must(st, zi(v.t) == p) for v in vals.values()))
        def reset(ex, st):   # protected fields are arbitrary once the lock is released
            b = obj.get(0)
            if b and not mon.held(st):
                R = st.reg(b[0])
                for k in list(R.cells):
                    if b[1] + off['stack'] <= k < b[1] + off['size']: R.cells[k] = (R.cells[k][0], UNDEF)
        def gen(ex, st, vals):
            p = st.g.get('pending')
            if p is None: return {}
            f = fresh('taken'); st.assume(f != 0); tie = {k: Tok(f) for k, v in vals.items() if isinstance(v, Tok) and ex.must(st, zi(v.t) == p)}
            st.g['pending'] = f; return tie
        ex.loopspecs.append(lambda ex, st, fn, h: TagLoop('loop of ' + short(fn.dem), rel, gen, skip=('locks',), reset=reset))
        for st, r in ex.invoke_fn(s, 'pe_exit', []):
            n += 1; ex.check(st, isinstance(r, Ret), 'pre_exit returns'); ex.check(st, st.g.get('closed', False), 'pre_exit ends only when it found the registry empty and closed it'); ex.check(st, st.g.get('pending') is None and not mon.held(st), 'nothing is left behind')
    elif u == 'destroy':
        p = Ptr(ex.new_region(s, off['size'], 'registry')); obj[0] = (p.r, 0); s.g['free'] = 1; havoc(s, (p.r, 0)); c0 = s.g['pre'][2]; s.g['c0'] = c0
        for st, r in ex.invoke_fn(s, 'pe_dtor', [p]): n += 1; ex.check(st, c0, 'destroying the registry without pre_exit() is reported')
    else:  # the accessor: one object, closed only by pre_exit, initially empty and open
        F = fresh('F'); s.assume(F != 0); s.g['F'] = F; ids = set()
        for st, r in ex.invoke_fn(s, 'pe_at', [Tok(F)]): n += 1; ids.add(obj[0])
        ex.check(s, len(ids) == 1, 'there is one registry')
        R = s.mem[next(iter(ids))[0]] if next(iter(ids))[0] in s.mem else None
        ty, init, const = ex.mod.global_init(next(x for x in ex.mod.globals if x.endswith('2_qEv') or '_ZZ' in x and x.endswith('E2_q')) ) if any(x.endswith('E2_q') for x in ex.mod.globals) else (None, None, None)
        if init is not None: ex.check(s, init[0] == 'zero' or 'zero' in repr(init)[:40], 'the registry starts empty and open')
    ex.check(s, n >= 1, 'cover: a feasible execution reaches an exit'); return [ex]
