"""Contracts for the portable pool: every notification_queue / waiter critical section, and the task system against those contracts."""
import os, z3
from irv.core import *
from irv.std import *
from irv.seq import *
from irv.loops import *
from irv.tasks import *
from irv.build import bitcode, VERIF
from irv.llvm import Module
ASSUMPTIONS = ['std::mutex gives mutual exclusion; at every lock the queue is an arbitrary heap (rely); condition_variable::wait releases and retakes the lock and may wake spuriously',
  'std::push_heap/pop_heap and vector growth are assumed contracts (permutation, heap order by the real comparator)', 'fewer than 2^62 tasks are submitted to one queue', 'task_ special members are the contracts proved in C05; operator new succeeds; tasks do not throw',
  'try_lock may fail at any time', 'join() is called once, no thread is added and nothing is submitted from outside the pool after it began']
BATTERY = [dict(src='pool.cpp', args=[], flags=['-O1', '-DPERTURB'], timeout=240, hang_is_failure=True, repo_src=['src/pre_exit.cpp', 'src/concurrency/default_executor.cpp']),
  dict(src='pool.cpp', args=[], flags=['-O1', '-fsanitize=thread'], timeout=240, hang_is_failure=True, repo_src=['src/pre_exit.cpp', 'src/concurrency/default_executor.cpp'])]
_M = None
def mod():
    global _M
    if _M is None: _M = Module(bitcode(os.path.join(VERIF, 'drivers/pool.cpp')))
    return _M
def prepare(): mod()
NQ = ['nq_new', 'nq_push', 'nq_push_copy', 'nq_push_task', 'nq_try_push', 'nq_try_push_copy', 'nq_try_push_task', 'nq_try_pop', 'nq_pop', 'nq_wake', 'nq_done']
WT = ['w_wait', 'w_wake', 'w_done']
PT = ['pt_execute0', 'pt_execute1', 'pt_execute2', 'pt_execute_copy', 'pt_execute_task', 'pt_run', 'pt_add', 'expansion', 'pt_join', 'pt_wake', 'x_high', 'x_default', 'x_low']
def units(tier): return NQ + WT + PT
def run(u, **kw):
    ex = Engine(mod()); ex.cur = u; ex.hooks['extern_global'] = extern_global; install_refcount(ex); s = State(); off = []
    for k in range(23): (s, r), = ex.invoke_fn(s, 'pool_off', [k]); off.append(r.v)
    (queue if u in NQ else waiter if u in WT else system)(ex, s, u, off); return [ex]
def opaque(ex, T):
    ex.contract('U::U(U&&)', lambda ex, st, a, ins: (T.set(st, a[0], T.take(st, a[1])), Ret(None))[1], 'opaque task move', True)
    ex.contract('U::U(U const&)', lambda ex, st, a, ins: (T.set(st, a[0], T.tok(st, a[1])), Ret(None))[1], 'opaque task copy', True)
    ex.contract('U::~U()', lambda ex, st, a, ins: Ret(None), 'opaque task destruction', True)
def condvar(ex, mon, sleep):
    """sleep(ex, st): obligations before the thread sleeps"""
    def notify(ex, st, a, ins): st.g['notified'] = st.g.get('notified', 0) + 1; return Ret(None)
    ex.contract(rx(r'^std::(_V2::)?condition_variable(_any)?::notify_(one|all)\(\)'), notify, 'condition_variable::notify', True)
    def wait(ex, st, a, ins):
        lk = a[1]; m = ex.load(st, lk, PTR); k = (m.r, m.o)
        ex.check(st, k in mon.held(st), 'locking: wait is called with the lock held'); sleep(ex, st)
        mon.on_unlock(ex, st, k); st.g['slept'] = True; mon.on_lock(ex, st, k); return Ret(None)
    ex.contract(rx(r'^std::(_V2::)?condition_variable::wait\(std::unique_lock'), wait, 'condition_variable::wait: releases the lock, sleeps, retakes it', True)
    ex.contract(rx(r'^std::(_V2::)?condition_variable::~?condition_variable\(\)'), lambda ex, st, a, ins: Ret(None), 'condition_variable', True)
def flag(ex, st, p): return to_bv(ex.load(st, p, I8), 8) != 0
def setflag(ex, st, p, b): ex.put(st, p.r, p.o, 1, z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
def queue(ex, s, fn, off):
    SZ, OM, OQ, OC, OD, OW, ES, EP, ET, TS = off[:10]
    ex.cur = 'notification_queue ' + fn; ex.under_contract.add('notification_queue::' + fn[3:])
    T = Tasks(ex, lambda *a: ex.check(a[1], False, 'the queue itself runs no task')); opaque(ex, T)
    q = Ptr(ex.new_region(s, SZ, 'queue')); at = lambda o: Ptr(q.r, None, q.o + o)
    vec = Vector(ex, ES, tokfields=(ET,), name='queue'); heap = Heap(ex, vec); cm = heap.cmps(); KEY = (EP, 8); TOK = (ET, 8); M62 = (1 << 62) - 1
    if len(cm) != 1: raise ToolLimit('heap comparators: %s' % cm)
    cmp = next(iter(cm))
    def construct(ex, st, p, args):
        v = None
        for n, f in ex.mod.funcs.items():
            sc, m, par = cxx(f.dem); ps = split_args(par)
            if sc and sc[-1] == 'element_t' and m == 'element_t' and len(ps) == len(args) and ps[0] == construct.par[0]: v = n
        if v is None: raise ToolLimit('element constructor')
        st.reg(p.r).meta['open'] = p.i; a = [args[0]] + [ex.load(st, x, I64) for x in args[1:]]; fr = st.frames
        o = ex.invoke_fn(st, v, [p] + a)
        if len(o) != 1 or o[0][0] is not st: raise ToolLimit('element construction forks')
        st.reg(p.r).meta['open'] = None
    vec.install(r'[^ ]*element_t', construct)
    base = ex.contracts[-4:]
    def emplace(ex, st, a, ins):
        construct.par = split_args(cxx(ex.mod.funcs[ex.val(st, ins.x).name].dem)[2]); p = vec.insert_at(st, a[0], None)
        if st.mem[p.r].meta.get('heap') is None: st.reg(p.r).meta['heap'] = 0; st.reg(p.r).meta['base'] = dict(st.mem[p.r].cells)
        construct(ex, st, p, a[1:]); return Ret(p)
    ex.contract(re.compile(r'(^|[ &])std::vector<[^ ]*element_t.*>::(push_back|emplace_back)(<.*>)?\('), emplace, 'std::vector::emplace_back: appends one element', True)
    def on_lock(ex, st, k):
        if k != (q.r, q.o + OM): return
        r = vec.region(st); n = fresh('n'); st.assume(n >= 0, n < 1 << 61); vec.setrng(st, r, 0, n); vec.sync(st, at(OQ), r); R = st.reg(r)
        key = z3.Array('key!%d' % next(C_), z3.IntSort(), z3.BitVecSort(64)); tk = z3.Array('tok!%d' % next(C_), z3.IntSort(), z3.IntSort())
        j = z3.Int('j'); R.cells[KEY] = key; R.cells[TOK] = tk; heap.set(st, r, n); c = fresh('count', 'bv'); st.assume(z3.ULT(c, 1 << 62))
        ex.put(st, q.r, q.o + OC, 8, c); d, w = fresh('done', 'bool'), fresh('waiting', 'bool'); setflag(ex, st, at(OD), d); setflag(ex, st, at(OW), w)
        st.g['pre'] = dict(n=n, key=key, tok=tk, c=c, d=d, w=w, r=r); st.g['heap_ev'] = (); st.g['lock_n'] = st.g.get('lock_n', 0) + 1; st.g['got'] = None
        if st.g.get('slept_notify') is None: pass
    def cur(st):
        r, lo, hi = vec.bounds_of(st, at(OQ)); return r, simp(zi(hi) - zi(lo)), ex.load(st, at(OC), I64), flag(ex, st, at(OD)), flag(ex, st, at(OW))
    def on_unlock(ex, st, k):
        if k != (q.r, q.o + OM): return
        p = st.g['pre']; r, n1, c1, d1, w1 = cur(st); ev = st.g['heap_ev']; kinds = tuple(e[0] for e in ev); need = []
        if r is not None and r in st.mem and 'heap' in st.mem[r].meta:
            heap.unbase(st, r); ex.check(st, zi(st.mem[r].meta['heap']) == n1, 'the queue is a heap whenever its lock is free'); heap.same(st, r, 0, n1, 'elements are changed only through heap operations')
        ex.check(st, len(ev) <= 1 and all(e[1] == cmp for e in ev), 'one heap operation per critical section, by one order')
        if kinds == ('push',):
            e = ev[0][2]; ex.check(st, n1 == p['n'] + 1, 'a push adds one element'); ex.check(st, 'push' in fn, 'only push adds')
            ex.check(st, e[TOK] == st.g['U'], 'the element added holds exactly the submitted task')
            key = e[KEY]; c = z3.Extract(61, 0, key); cc = lambda x: z3.Extract(61, 0, x)
            ex.check(st, z3.Extract(63, 62, key) == z3.Extract(1, 0, st.g['P']), 'the element carries the priority it was submitted with')
            ex.check(st, z3.And(z3.UGE(c, cc(p['c'])), z3.ULT(z3.ZeroExt(2, c), c1)), 'its sequence number is greater than that of every task submitted earlier'); st.g['pushed'] = st.g.get('pushed', 0) + 1; need.append(z3.And(p['w'], p['n'] == 0))   # a worker asleep on a non-empty queue was already notified (by the push that filled it)
        elif kinds == ('pop',):
            ex.check(st, n1 == p['n'] - 1, 'a pop removes exactly one element'); ex.check(st, c1 == p['c'], 'frame'); st.g['got'] = z3.Select(p['tok'], 0)
            # the front of a heap is an extremum of the (real) order
            i = fresh('any'); st2 = st.fork(); st2.assume(0 <= i, i < p['n'], z3.Not(order(st2, p, 0, i)))
            k0, ki = z3.Select(p['key'], 0), z3.Select(p['key'], i); pr = lambda x: z3.Extract(63, 62, x)
            ex.check(st2, z3.And(z3.ULE(pr(k0), pr(ki)), z3.Implies(pr(k0) == pr(ki), z3.ULE(k0, ki))), 'the task handed out has highest priority, and is the earliest submitted among those')
            st.g['popped'] = st.g.get('popped', 0) + 1
        else: ex.check(st, n1 == p['n'], 'no element is lost or invented'); ex.check(st, c1 == p['c'], 'frame')
        ex.check(st, z3.Implies(p['d'], d1), 'done stays set')
        if fn == 'nq_done': ex.check(st, d1, 'done is set'); need.append(z3.And(p['w'], z3.Not(p['d'])))
        else: ex.check(st, d1 == p['d'], 'only done() sets done')
        if fn not in ('nq_pop', 'nq_wake'): ex.check(st, w1 == p['w'], 'only a worker changes its waiting flag')
        st.g['last'] = dict(n0=p['n'], d=p['d'], w=p['w'], w1=w1, d1=d1, n1=n1)
        if need: st.g['need'] = z3.Or(*need) if not st.g.get('need') else z3.Or(st.g['need'], *need); st.g['notified_before'] = st.g.get('notified', 0) if not 0 else 0
    def order(st, p, i, j):
        r = ex.new_region(st, None, 'heap snapshot', 'indexed', esize=ES); R = st.mem[r]; R.lazy = st.mem[p['r']].lazy; R.codec = dict(st.mem[p['r']].codec); R.cells[KEY] = p['key']; R.cells[TOK] = p['tok']
        return heap.lt(st, cmp, r, i, j)
    def access(ex, st, p, size, what):
        if st.g.get('free'): return
        o = p.o - q.o
        if p.r == q.r and any(a <= o < a + z for a, z in ((OQ, 24), (OC, 8), (OD, 1), (OW, 1))): ex.check(st, len(mon.held(st)) > 0, 'the queue state is accessed only with its lock held')
    mon = Monitor(ex, on_lock, on_unlock)
    def sleep(ex, st):
        r, n1, c1, d1, w1 = cur(st); ex.check(st, n1 == 0, 'a worker never sleeps while its queue holds work'); ex.check(st, z3.Not(d1), 'a worker never sleeps after shutdown was signalled'); ex.check(st, w1, 'a sleeping worker can be woken by wake()')
    condvar(ex, mon, sleep)
    if fn == 'nq_new':
        s.g['free'] = True; (st, r), = ex.invoke_fn(s, 'nq_new', [q]); rr, n, c, d, w = cur(st)
        ex.check(st, z3.And(n == 0, c == 0, z3.Not(d)) if z3.is_expr(c) or True else False, 'a new queue is empty and open'); return
    s.reg(q.r).meta['access'] = access; ex.put(s, q.r, q.o + OM, 8, 0)
    def reset(ex, st):
        """loop heads under the lock: end the critical section's bookkeeping and start over from an arbitrary queue state"""
        if mon.held(st): on_unlock(ex, st, (q.r, q.o + OM)); ev = st.g.get('popped', 0); on_lock(ex, st, (q.r, q.o + OM))
    rel = lambda ex, st, vals: (bool(mon.held(st)),)
    def gen(ex, st, vals):   # everything protected was rebuilt by reset
        t = {}
        if mon.held(st): on_lock(ex, st, (q.r, q.o + OM))   # its assumptions
        for p in vals:
            if p[0] == 'mem' and p[1] == q.r: t[p] = st.mem[q.r].cells[p[2]][1]
        return t
    ex.loopspecs.append(lambda ex, st, f, h: TagLoop('loop of ' + short(f.dem), rel, gen, skip=('pre', 'heap_ev', 'lock_n', 'last', 'locks', 'slept'), reset=reset) if 'notification_queue' in f.dem or 'condition_variable' in f.dem else None)
    args = [q]; U = None
    if 'push' in fn:
        U = fresh('U'); s.assume(U > 0); P = z3.BitVec('priority', 64); s.assume(z3.ULT(P, 4)); s.g['U'] = U; s.g['P'] = P
        up = Ptr(ex.new_region(s, TS if 'task' in fn else 8, 'submitted')); T.set(s, up, U); args += [up, P]
    elif 'pop' in fn:
        out = Ptr(ex.new_region(s, TS, 'result')); args.append(out)
    n = 0; res = set()
    for st, r in ex.invoke_fn(s, fn, args):
        n += 1; ex.check(st, isinstance(r, Ret), 'does not throw'); ex.check(st, not mon.held(st), 'the lock is released'); L = st.g.get('last')
        nd = st.g.get('need')
        if nd is not None: ex.check(st, z3.Or(z3.Not(nd), z3.BoolVal(st.g.get('notified', 0) > 0)), 'a sleeping worker is notified of the change')
        b = None if r.v is None else to_bool(r.v)
        if fn.startswith('nq_push'): ex.check(st, st.g.get('pushed', 0) == 1, 'push enqueues the task exactly once')
        if fn.startswith('nq_try_push'):
            ex.check(st, b == z3.BoolVal(st.g.get('pushed', 0) == 1), 'try_push says whether it enqueued the task'); ex.check(st, st.g.get('pushed', 0) <= 1, 'try_push enqueues at most once')
            if not st.g.get('pushed'): ex.check(st, T.tok(st, up) == U, 'a failed try_push leaves the task untouched'); res.add('fail')
            else: res.add('ok')
        if 'pop' in fn:
            tk = T.tok(st, out) if T.abstract(st, out) else z3.IntVal(0) if T.is_empty(st, out) else None
            if tk is None: raise ToolLimit('result task'); 
            if st.g.get('popped'):
                st.assume(st.g['got'] > 0) if L is not None else None   # queued tasks are live (each was on entry)
                ex.check(st, z3.And(tk == st.g['got']), 'the task taken out of the queue is the one returned'); ex.check(st, st.g['popped'] == 1, 'one task per call'); res.add('task')
                if fn == 'nq_pop': ex.check(st, z3.Not(b), 'a task is never returned together with the end signal')
            else:
                ex.check(st, tk <= 0, 'no task is returned unless one was taken'); res.add('none')
                if L is not None: ex.check(st, L['n0'] == 0, 'nothing is returned only when the queue was found empty')
                if fn == 'nq_pop': ex.check(st, b == L['d'], 'the end is reported exactly when shutdown was signalled and the queue is empty')
            if fn == 'nq_pop': ex.check(st, L is not None, 'pop looks at the queue'); ex.check(st, z3.Not(L['w1']), 'a worker that left pop() is not marked waiting')
        if fn == 'nq_wake':
            ex.check(st, (b == False) if L is None else (b == z3.And(L['w'], z3.Not(L['w1']))), 'wake() says whether it released a waiting worker'); ex.check(st, z3.Implies(b, z3.BoolVal(st.g.get('notified', 0) > 0)), 'the worker released is notified')
            if L is not None: ex.check(st, z3.Implies(L['w'], z3.Not(L['w1'])), 'a waiting worker is released')
            res.add('held' if L else 'failed')
        if fn == 'nq_done': ex.check(st, L is not None, 'done() always takes effect')
    ex.check(s, n >= 1 and ('try_push' not in fn or len(res) == 2) and ('pop' not in fn or len(res) == 2), 'cover: all outcomes are reached')
import itertools
C_ = itertools.count()
def waiter(ex, s, fn, off):
    SZ, OM, OW, OD = off[10:14]; ex.cur = 'waiter ' + fn; ex.under_contract.add('waiter::' + fn[2:])
    w = Ptr(ex.new_region(s, SZ, 'waiter')); at = lambda o: Ptr(w.r, None, w.o + o)
    def on_lock(ex, st, k):
        a, d = fresh('waiting', 'bool'), fresh('done', 'bool'); setflag(ex, st, at(OW), a); setflag(ex, st, at(OD), d); st.g['pre'] = (a, d)
    def on_unlock(ex, st, k):
        a, d = st.g['pre']; a1, d1 = flag(ex, st, at(OW)), flag(ex, st, at(OD))
        ex.check(st, z3.And(z3.Implies(d, d1), z3.BoolVal(True) if fn == 'w_done' else d1 == d), 'done is set by done() only and stays set')
        if fn == 'w_done': ex.check(st, z3.And(d1, a1 == a), 'done() sets done'); st.g['need'] = True
        st.g['last'] = (a, d, a1, d1)
    def access(ex, st, p, size, what):
        if p.o - w.o in (OW, OD): ex.check(st, len(mon.held(st)) > 0, 'the waiter state is accessed only with its lock held')
    mon = Monitor(ex, on_lock, on_unlock)
    def sleep(ex, st): ex.check(st, z3.And(flag(ex, st, at(OW)), z3.Not(flag(ex, st, at(OD)))), 'an expansion thread sleeps only while nobody woke it and shutdown was not signalled')
    condvar(ex, mon, sleep); ex.put(s, w.r, w.o + OM, 8, 0); s.reg(w.r).meta['access'] = access
    def reset(ex, st):
        if mon.held(st): on_unlock(ex, st, None); on_lock(ex, st, None)
    gen = lambda ex, st, vals: {p: st.mem[w.r].cells[p[2]][1] for p in vals if p[0] == 'mem' and p[1] == w.r}
    ex.loopspecs.append(lambda ex, st, f, h: TagLoop('loop of ' + short(f.dem), lambda ex, st, v: (bool(mon.held(st)),), gen, skip=('pre', 'last', 'locks', 'slept'), reset=reset))
    n = 0
    for st, r in ex.invoke_fn(s, fn, [w]):
        n += 1; ex.check(st, isinstance(r, Ret) and not mon.held(st), 'the lock is released'); L = st.g.get('last')
        if fn == 'w_done': ex.check(st, L is not None and st.g.get('notified', 0) > 0, 'done() always takes effect and notifies')
        if fn == 'w_wake':
            b = to_bool(r.v); ex.check(st, (b == False) if L is None else b == z3.And(L[0], z3.Not(L[2])), 'wake() says whether it released a waiting thread'); ex.check(st, z3.Implies(b, z3.BoolVal(st.g.get('notified', 0) > 0)), 'the thread released is notified')
        if fn == 'w_wait': ex.check(st, to_bool(r.v) == L[1], 'wait() reports shutdown'); ex.check(st, z3.Not(L[2]), 'a thread that left wait() is not marked waiting')
    ex.check(s, n >= 1, 'cover: returns')
def system(ex, s, fn, off):
    QS, TS, WS = off[0], off[9], off[10]; PS, OC, OQ, OI, OT, OWS, OL, OM, THS = off[14:23]
    ex.cur = 'priority_task_system ' + fn; ex.under_contract.add({'pt_run': 'priority_task_system::run', 'pt_add': 'priority_task_system::add_thread', 'expansion': 'add_thread worker'}.get(fn, 'executor_type::operator()' if fn[0] == 'x' else 'priority_task_system::' + fn[3:]))
    def user(ex, st, tok, a):
        p = st.g.get('pending'); ex.check(st, p is not None, 'a task that runs was taken from a queue, and runs once'); ex.check(st, not mon.held(st), 'no lock is held while a task runs')
        if p is not None: ex.check(st, tok == p, 'the task taken is the one run')
        st.g['pending'] = None; return Ret(None)
    T = Tasks(ex, user); opaque(ex, T); mon = Monitor(ex); ex.abstract_urem = True
    N, L = z3.BitVec('workers', 32), z3.BitVec('limit', 32); s.assume(z3.UGE(N, 1), z3.ULT(N, 1 << 16), z3.UGT(L, N), z3.ULT(L, 1 << 20)); Ni, Li = z3.BV2Int(N), z3.BV2Int(L)
    sysr = ex.new_region(s, PS, 'task system'); ex.put(s, sysr, OC, 4, N); ex.put(s, sysr, OL, 4, L); ex.put(s, sysr, OM, 8, 0); ex.put(s, sysr, OI, 4, fresh('index', 'bv', 32)); p = Ptr(sysr)
    nq, nw = fresh("queues"), fresh("waiters"); s.assume(nq == Ni, nw == Li - Ni)
    def vect(o, es, n, name):
        r = ex.new_region(s, None, name, 'indexed', esize=es); s.reg(r).meta['norm'] = True; ex.put(s, sysr, o, 8, Ptr(r, 0, 0)); ex.put(s, sysr, o + 8, 8, Ptr(r, n, 0)); ex.put(s, sysr, o + 16, 8, Ptr(r, n, 0)); return r
    RQ = vect(OQ, QS, nq, 'queues'); RW = vect(OWS, WS, nw, 'waiters'); nt = fresh('threads'); s.assume(nt >= Ni, nt <= Li); RT = vect(OT, THS, nt, 'threads')
    def qi(st, a, what='queue', n=nq, R=RQ):
        if not isinstance(a, Ptr) or a.r != R: raise ToolLimit('unknown ' + what)
        i = simp(zi(a.i)); ok = z3.And(0 <= i, i < n)
        b = index_bv(i)
        if b is not None:
            z = z3.ZeroExt(64 - b.size(), b); N64, L64 = z3.ZeroExt(32, N), z3.ZeroExt(32, L)
            ok = z3.ULT(z, N64) if n is nq else z3.ULT(z, L64 - N64) if n is nw else ok
        ex.check(st, ok, 'an existing %s is used' % what); return i
    def nqc(m, h, lab): ex.contract(member('notification_queue', m), h, 'notification_queue::' + lab)
    def pushed(ex, st, a, P): 
        ex.check(st, T.tok(st, a[1]) == st.g.get('U'), 'the submitted task reaches the queue intact'); st.g['pushed'] = st.g.get('pushed', 0) + 1
        pr = a[2]; ex.check(st, to_bv(pr, 64) == st.g['P'] if isinstance(pr, int) or z3.is_expr(pr) else False, 'the task is queued with its priority')
        if not st.g.get('copy'): T.set(st, a[1], T.gone(st))
    def c_push(ex, st, a, ins): qi(st, a[0]); pushed(ex, st, a, None); return Ret(None)
    def c_try_push(ex, st, a, ins):
        qi(st, a[0]); s2 = st.fork(); s2.path.append('try_push fails'); pushed(ex, st, a, None); return [(st, Ret(1)), (s2, Ret(0))]
    def got(st, out): ex.check(st, st.g.get('pending') is None, 'a task taken earlier is run before another one is taken'); t = fresh('task'); st.assume(t > 0); T.set(st, out, t); st.g['pending'] = t; st.g['tried'] = z3.BoolVal(False)
    def empty(st, out): ex.put(st, out.r, out.o, 8, z3.IntVal(0))
    def c_try_pop(ex, st, a, ins):
        i = qi(st, a[1]); s2 = st.fork(); s2.path.append('try_pop: nothing'); got(st, a[0]); empty(s2, a[0]); tried(s2, i); return [(st, Ret(None)), (s2, Ret(None))]
    # an arbitrary queue (the one d places after the worker's own): it must be tried before the worker gives up
    dq = z3.BitVec('any_queue', 32); s.assume(z3.ULT(dq, N)); s.g['tried'] = z3.BoolVal(False)
    def tried(st, i):
        b = index_bv(i)
        if b is None or 'Q' not in st.g: return
        st.g['tried'] = simp(z3.Or(st.g['tried'], z3.ZeroExt(64 - b.size(), b) == st.g['Q']))
    def gives_up(st): ex.check(st, st.g['tried'], 'a worker waits only after it tried every queue, so work left by a finished worker is not stranded'); st.g['tried'] = z3.BoolVal(False)
    def c_pop(ex, st, a, ins):
        i = qi(st, a[1]); ex.check(st, st.g.get('own') is not None and i == st.g['own'], 'a worker waits on its own queue only'); gives_up(st); st.g['popdone'] = False
        # std::pair<bool, task>: first at 0, second at 16
        s2 = st.fork(); s3 = st.fork(); s2.path.append('pop: end'); s3.path.append('pop: woken'); ex.put(st, a[0].r, a[0].o, 1, 0); got(st, a[0].add(16)); ex.put(s2, a[0].r, a[0].o, 1, 1); empty(s2, a[0].add(16)); s2.g['popdone'] = True; ex.put(s3, a[0].r, a[0].o, 1, 0); empty(s3, a[0].add(16))
        return [(st, Ret(None)), (s2, Ret(None)), (s3, Ret(None))]
    def c_wake(what, n, R):
        def h(ex, st, a, ins): qi(st, a[0], what, n, R); s2 = st.fork(); st.g['woke'] = st.g.get('woke', 0) + 1; return [(st, Ret(1)), (s2, Ret(0))]
        return h
    def c_done(what, n, R, key):
        def h(ex, st, a, ins):
            i = qi(st, a[0], what, n, R); k = st.g.get(key, z3.IntVal(0)); ex.check(st, i == k, 'every %s is signalled, one after the other' % what); st.g[key] = simp(k + 1); ex.check(st, not st.g.get('joining'), 'all are signalled before threads are joined'); return Ret(None)
        return h
    nqc('push', c_push, 'push'); nqc('try_push', c_try_push, 'try_push'); nqc('try_pop', c_try_pop, 'try_pop'); nqc('pop', c_pop, 'pop'); nqc('wake', c_wake('queue', nq, RQ), 'wake'); nqc('done', c_done('queue', nq, RQ, 'kq'), 'done'); nqc('~notification_queue', lambda ex, st, a, ins: Ret(None), 'destruction')
    ex.contract(member('waiter', 'wake'), c_wake('waiter', nw, RW), 'waiter::wake'); ex.contract(member('waiter', 'done'), c_done('waiter', nw, RW, 'kw'), 'waiter::done')
    def w_wait(ex, st, a, ins):
        i = qi(st, a[0], 'waiter', nw, RW); b = index_bv(i); ex.check(st, b == z3.Extract(b.size() - 1, 0, st.g['slotb'] - z3.ZeroExt(32, N)) if b is not None else i == st.g['slot'] - Ni, 'an expansion thread waits on its own waiter'); gives_up(st); s2 = st.fork(); st.g['popdone'] = True; return [(st, Ret(1)), (s2, Ret(0))]
    ex.contract(member('waiter', 'wait'), w_wait, 'waiter::wait')
    def tjoin(ex, st, a, ins):
        k = st.g.get('kt', z3.IntVal(0)); ex.check(st, isinstance(a[0], Ptr) and a[0].r == RT and True, 'a pool thread is joined'); ex.check(st, zi(a[0].i) == k, 'every thread is joined, one after the other'); st.g['kt'] = simp(k + 1)
        ex.check(st, z3.And(st.g.get('kq', z3.IntVal(0)) == nq, st.g.get('kw', z3.IntVal(0)) == nw), 'all queues and waiters are signalled before threads are joined'); return Ret(None)
    ex.contract('std::thread::join()', tjoin, 'std::thread::join', True); ex.contract('std::thread::~thread()', lambda ex, st, a, ins: Ret(None), 'std::thread', True)
    ex.contract(lambda n, d: 'set_current_thread_name' in d, lambda ex, st, a, ins: Ret(None), 'set_current_thread_name', True)
    def qclear(ex, st, a, ins): st.g['cleared'] = z3.And(st.g.get('kt', z3.IntVal(0)) == nt); ex.check(st, st.g['cleared'], 'the queues are destroyed only after every thread ended'); return Ret(None)
    ex.contract(lambda n, d: 'notification_queue' in d and cxx(d)[0] and base(cxx(d)[0][-1]) == 'vector' and cxx(d)[1] == 'clear', qclear, 'std::vector::clear', True)
    # loops
    RR = dict(kq=RQ, kw=RW, kt=RT); LIM = {RQ: nq, RW: nw, RT: nt}
    def phi_w(st, i):
        for f in st.frames:
            for b in f.fn._blocks.values() if isinstance(f.fn._blocks, dict) else f.fn._blocks:
                for x in b:
                    if x.id == i: return x.ty.w // 8 if x.ty.k == 'int' else 0
        return 0
    def ranged(ex, st, pl, v):
        if isinstance(v, Ptr) and v.r in LIM and v.i is not None and v.o == 0: return ex.must(st, z3.And(zi(v.i) >= 0, zi(v.i) <= LIM[v.r]))
        w = pl[3] if pl[0] == 'mem' else phi_w(st, pl[1]) if pl[0] == 'phi' else 0
        if w == 8 and (isinstance(v, int) and not isinstance(v, bool) or isint(v)): return ex.must(st, z3.And(zi(v) >= 0, zi(v) <= nt - Ni))
        return None
    def rel(ex, st, vals):
        g = st.g; pend = g.get('pending'); out = [pend is not None, tuple(pend is not None and is_tok(v) and ex.must(st, v == pend) for v in vals.values()), tuple(ex.must(st, v <= 0) if is_tok(v) and k[0] == 'mem' else None for k, v in vals.items())]
        for k in ('kq', 'kw', 'kt'):
            e = g.get(k, z3.IntVal(0)); out.append(tuple(fn == 'pt_join' and isinstance(v, Ptr) and v.r == RR[k] and v.i is not None and ex.must(st, zi(v.i) == e) for v in vals.values())); out.append(ex.must(st, e == {'kq': nq, 'kw': nw, 'kt': nt}[k])); out.append(ex.must(st, e == 0))
        def scan(pl, v):
            w = pl[3] if pl[0] == 'mem' else phi_w(st, pl[1])
            return w == 4 and (isinstance(v, int) or z3.is_expr(v) and z3.is_bv(v)) and ex.must(st, z3.And(z3.ULE(to_bv(v, 32), N), z3.Or(g['tried'], z3.ULE(to_bv(v, 32), dq))))
        out.append('Q' in g and not ex.must(st, z3.Not(g['tried'])) and ex.must(st, g['tried'])); out_scan = tuple('Q' in g and scan(p_, v) for p_, v in vals.items())
        out.append(tuple(ranged(ex, st, p_, v) for p_, v in vals.items()))
        out.append(g.get('U') is not None and 'up' in g and ex.must(st, T.tok(st, g['up']) == g['U']))
        out.append(out_scan); return tuple(out)
    def gen(ex, st, vals):
        r = ex.last_rel; g = st.g; t = {}
        if r[0]:
            f = fresh('task'); st.assume(f > 0); g['pending'] = f
            for (k, v), b in zip(vals.items(), r[1]):
                if b: t[k] = f
        for (k, v), b in zip(vals.items(), r[2]):
            if b and k not in t: m = fresh('none'); st.assume(m <= 0); t[k] = m
        for j, (k, bound) in enumerate((('kq', nq), ('kw', nw), ('kt', nt))):
            ties, full, zero = r[3 + 3 * j:6 + 3 * j]
            if full: g[k] = bound
            elif zero and not any(ties): g[k] = z3.IntVal(0) if fn == 'pt_join' else g.get(k, z3.IntVal(0))
            elif zero or any(ties):
                e = fresh(k); st.assume(0 <= e, e <= bound); g[k] = e
            if any(ties) and not (full and False):
                for (kk, v), b in zip(vals.items(), ties):
                    if b and isinstance(v, Ptr): t[kk] = Ptr(v.r, g[k], v.o)
        if 'Q' in g: g['tried'] = z3.BoolVal(True) if r[12] else fresh('tried', 'bool') if any(r[-1]) else z3.BoolVal(False)
        for (k, v), b in zip(vals.items(), r[-1]):
            if b:
                m = fresh('n', 'bv', 32); st.assume(z3.ULE(m, N), z3.Or(g['tried'], z3.ULE(m, dq))); t[k] = m
        for (k, v), b in zip(vals.items(), r[13]):
            if b and k not in t:
                e = fresh('ix')
                if isinstance(v, Ptr): st.assume(0 <= e, e <= LIM[v.r]); t[k] = Ptr(v.r, e, 0)
                else: st.assume(0 <= e, e <= nt - Ni); t[k] = e
        return t
    ex.loopspecs.append(lambda ex, st, f, h: TagLoop('loop of ' + short(f.dem), rel, gen, skip=('locks', 'kq', 'kw', 'kt', 'popdone', 'woke', 'pushed_', 'up')) if 'stlab' in f.dem and 'element_t' not in f.dem else None)
    if True:
        def app(ex, st, a, ins):
            ex.check(st, (sysr, OM) in mon.held(st), 'the thread list is changed only with its lock held'); ex.check(st, nt < Li, 'the number of threads stays within the limit'); st.g['added'] = st.g.get('added', 0) + 1
            w = [ex.load(st, a[1].add(o), I64) for o in (0, 8)]; st.g['fields'] = tuple(isinstance(x, Ptr) for x in w); v = w[0] if isinstance(w[1], Ptr) else w[1]
            ex.check(st, (z3.BV2Int(v) if z3.is_expr(v) and z3.is_bv(v) else zi(v)) == nt, 'the new thread gets the slot of its position'); return Ret(Ptr(RT, nt, 0))
        ex.contract(lambda nm, d: 'std::thread' in d and cxx(d)[0] and base(cxx(d)[0][-1]) == 'vector' and cxx(d)[1] in ('emplace_back', 'push_back'), app, 'std::vector<std::thread>::emplace_back', True)
        def closure_fields(st):
            save = (ex.obl, ex.violations, ex.limits, ex.loopspecs); ex.obl, ex.violations, ex.limits = {}, [], []
            try: fs = {o.g['fields'] for o, r in ex.invoke_fn(st, 'pt_add', [p]) if 'fields' in o.g}
            finally: ex.obl, ex.violations, ex.limits, ex.loopspecs = save
            if len(fs) != 1 or sorted(next(iter(fs))) != [False, True]: raise ToolLimit('expansion closure')
            return next(iter(fs))
    n = 0
    def submit(st, tsk=False):
        U = fresh('U'); st.assume(U > 0); st.g['U'] = U; up = Ptr(ex.new_region(st, TS if tsk else 8, 'submitted')); T.set(st, up, U); st.g['up'] = up; return up
    if fn.startswith('pt_execute') or fn[0] == 'x':
        up = submit(s, 'task' in fn); P = {'pt_execute0': 0, 'x_high': 0, 'x_default': 1, 'pt_execute1': 1, 'pt_execute_copy': 1}.get(fn, 2); s.g['P'] = z3.BitVecVal(P, 64); s.g['copy'] = 'copy' in fn
        ex.contract(lambda nm, d: cxx(d)[1] == 'pts' and 'detail' in cxx(d)[0], lambda ex, st, a, ins: Ret(p), 'pts(): the one task system', True)
        for st, r in ex.invoke_fn(s, fn, ([p] if fn[0] == 'p' else []) + [up]): n += 1; ex.check(st, isinstance(r, Ret), 'does not throw'); ex.check(st, st.g.get('pushed', 0) == 1, 'a submission puts the task into exactly one queue, once')
    elif fn == 'pt_run':
        i = z3.BitVec('i', 32); s.assume(z3.ULT(i, N)); s.g['own'] = z3.BV2Int(i); s.g['Q'] = z3.ZeroExt(32, urem(i + dq, N))
        for st, r in ex.invoke_fn(s, fn, [p, i]): n += 1; ex.check(st, isinstance(r, Ret), 'does not throw'); ex.check(st, st.g.get('pending') is None, 'a worker never ends with a task taken but not run'); ex.check(st, st.g.get('popdone', False), 'a worker ends only when its own queue reported the end')
    elif fn == 'expansion':
        f = [nm for nm, x in ex.mod.funcs.items() if 'add_thread' in x.dem and cxx(x.dem)[1] == 'opcall' and cxx(x.dem)[0] and cxx(x.dem)[0][-1].startswith('{lambda')]
        if len(f) != 1: raise ToolLimit('expansion thread body')
        c = Ptr(ex.new_region(s, 64, 'closure')); slot = z3.BitVec('slot', 64); s.assume(z3.UGE(slot, z3.ZeroExt(32, N)), z3.ULT(slot, z3.ZeroExt(32, L))); s0 = s.fork(); f0 = closure_fields(s0); ex.put(s, c.r, 8 * f0.index(True), 8, p); ex.put(s, c.r, 8 * f0.index(False), 8, slot); s.g['slotb'] = slot; s.g['Q'] = urem(slot + z3.ZeroExt(32, dq), z3.ZeroExt(32, N)); s.g['slot'] = z3.BV2Int(slot); s.assume(s.g['slot'] >= Ni, s.g['slot'] < Li)
        for st, r in ex.invoke_fn(s, f[0], [c]): n += 1; ex.check(st, isinstance(r, Ret), 'does not throw'); ex.check(st, st.g.get('pending') is None, 'an expansion thread never ends with a task taken but not run'); ex.check(st, st.g.get('popdone', False), 'an expansion thread ends only on shutdown')
    elif fn == 'pt_join':
        for st, r in ex.invoke_fn(s, fn, [p]): n += 1; ex.check(st, st.g.get('kt', z3.IntVal(0)) == nt, 'join waits for every thread')
    elif fn == 'pt_add':
        for st, r in ex.invoke_fn(s, fn, [p]): n += 1; ex.check(st, not mon.held(st), 'the lock is released'); ex.check(st, z3.BoolVal(st.g.get('added', 0) == 1) == (nt < Li), 'exactly one thread is added unless the limit is reached')
    elif fn == 'pt_wake':
        for st, r in ex.invoke_fn(s, fn, [p]): n += 1; ex.check(st, to_bool(r.v) == z3.BoolVal(st.g.get('woke', 0) == 1), 'wake() says whether a thread was woken'); ex.check(st, st.g.get('woke', 0) <= 1, 'at most one thread is woken')
    ex.check(s, n >= 1, 'cover: returns')
