"""Contracts for the portable system timer: submission, the run loop's critical sections and waits, and stopping."""
import os, z3
from irv.core import *
from irv.std import *
from irv.seq import *
from irv.loops import *
from irv.tasks import *
from irv.build import bitcode, VERIF
from irv.llvm import Module
from specs.c06 import opaque, flag, setflag
ASSUMPTIONS = ['std::mutex gives mutual exclusion; at every lock the queue is an arbitrary heap, except that only the timer thread removes elements',
  'steady_clock::now() never goes back; condition_variable::wait/wait_until release and retake the lock and may wake early or spuriously; a notified waiter wakes', 'std::push_heap/pop_heap and vector growth are assumed contracts (permutation, heap order by the real comparator); std::pair forwards to its members',
  'task_ special members are the contracts proved in C05; operator new succeeds', 'clock values and durations are below 2^61 ns (no overflow)', 'the timer is not used after its destructor began']
BATTERY = [dict(src='timer.cpp', args=[], flags=['-O1', '-DPERTURB'], timeout=200, hang_is_failure=True, repo_src=['src/pre_exit.cpp', 'src/concurrency/default_executor.cpp']),
  dict(src='timer.cpp', args=[], flags=['-O1', '-fsanitize=thread'], timeout=200, hang_is_failure=True, repo_src=['src/pre_exit.cpp', 'src/concurrency/default_executor.cpp'])]
_M = None
def mod():
    global _M
    if _M is None: _M = Module(bitcode(os.path.join(VERIF, 'drivers/timer.cpp')))
    return _M
def prepare(): mod()
PUSH = {'st_push_ns': 1, 'st_push_ms': 10**6, 'st_push_s': 10**9, 'st_push_task': 1, 'st_push_when': None, 'x_push_ns': 1, 'x_push_ms': 10**6, 'x_push_when': None}
def units(tier): return list(PUSH) + ['st_run', 'st_stop']
def run(fn, **kw):
    ex = Engine(mod()); ex.cur = 'system_timer ' + fn; ex.hooks['extern_global'] = extern_global; install_refcount(ex); s = State(); off = []
    for k in range(9): (s, r), = ex.invoke_fn(s, 'timer_off', [k]); off.append(r.v)
    SZ, OM, OQ, OS, ES, EP, ET, TS, OTH = off
    ex.under_contract.add({'st_run': 'system_timer::timed_queue_run', 'st_stop': 'system_timer::~system_timer'}.get(fn, 'system_timer::operator()' if fn[0] == 's' else 'system_timer_type::operator()'))
    q = Ptr(ex.new_region(s, SZ, 'timer')); at = lambda o: Ptr(q.r, None, q.o + o)
    def user(ex, st, tok, a):
        p = st.g.get('pending'); ex.check(st, p is not None, 'a task that runs was taken from the queue, and runs once'); ex.check(st, not mon.held(st), 'the lock is not held while a task runs')
        if p is not None: ex.check(st, tok == p[0], 'the task taken is the one run'); ex.check(st, st.g['now'] >= p[1], 'no task starts before its deadline')
        st.g['pending'] = None; return Ret(None)
    T = Tasks(ex, user); opaque(ex, T)
    # ---- the clock: readings never decrease
    now0 = fresh('now', 'bv'); s.assume(now0 >= 0, now0 < (1 << 61)); s.g['now'] = now0; s.g['reads'] = ()
    def tick(st): n = fresh('now', 'bv'); st.assume(n >= st.g['now'], n < (1 << 61)); st.g['now'] = n; return n
    def now(ex, st, a, ins): n = tick(st); st.g['reads'] = st.g['reads'] + (n,); return Ret(n)
    ex.contract('std::chrono::_V2::steady_clock::now()', now, 'steady_clock::now: never decreases', True)
    vec = Vector(ex, ES, tokfields=(ET,), name='timed queue'); heap = Heap(ex, vec); cm = heap.cmps(); KEY = (EP, 8); TOK = (ET, 8)
    if len(cm) != 1: raise ToolLimit('heap comparators: %s' % cm)
    cmp = next(iter(cm))
    def emplace(ex, st, a, ins):
        ps = split_args(cxx(ex.mod.funcs[ex.val(st, ins.x).name].dem)[2]); p = vec.insert_at(st, a[0], None)
        if st.mem[p.r].meta.get('heap') is None: st.reg(p.r).meta['heap'] = 0; st.reg(p.r).meta['base'] = dict(st.mem[p.r].cells)
        R = st.reg(p.r); R.meta['open'] = p.i
        if len(a) == 3: ex.store(st, p.add(EP), ex.load(st, a[1], I64), I64); src = a[2]; mv = ps[1].endswith('&&')
        elif len(a) == 2: ex.store(st, p.add(EP), ex.load(st, a[1].add(EP), I64), I64); src = a[1].add(ET); mv = ps[0].endswith('&&')
        else: raise ToolLimit('element construction')
        if isinstance(src, Ptr) and not T.abstract(st, src): raise ToolLimit('element from a concrete task')
        t = T.take(st, src) if mv else T.tok(st, src); T.set(st, p.add(ET), t); st.reg(p.r).meta['open'] = None; return Ret(p)
    ex.contract(lambda n, d: 'std::vector<std::pair<std::chrono' in d and cxx(d)[0][:1] == ('std',) and base(cxx(d)[0][-1]) == 'vector' and cxx(d)[1] in ('push_back', 'emplace_back'), emplace, 'std::vector::emplace_back: appends one element', True)
    def havoc(st, least=None):
        r = vec.region(st); n = fresh('n'); st.assume(n >= 0, n < 1 << 61)
        if least is not None: st.assume(n >= least)
        vec.setrng(st, r, 0, n); vec.sync(st, at(OQ), r); R = st.reg(r); key = z3.Array('key!%d' % next(_c), z3.IntSort(), z3.BitVecSort(64)); tk = z3.Array('tok!%d' % next(_c), z3.IntSort(), z3.IntSort())
        R.cells[KEY] = key; R.cells[TOK] = tk; heap.set(st, r, n); d = fresh('stop', 'bool'); setflag(ex, st, at(OS), d)
        st.g['pre'] = dict(n=n, key=key, tok=tk, d=d, r=r); st.g['heap_ev'] = ()
    def on_lock(ex, st, k):
        if k == (q.r, q.o + OM): havoc(st, st.g.get('least') if fn == 'st_run' else None)
    def cur(st): r, lo, hi = vec.bounds_of(st, at(OQ)); return r, simp(zi(hi) - zi(lo)), flag(ex, st, at(OS))
    def front(st, p):
        """an arbitrary element of p and the fact that the front of a heap is an extremum of the real order"""
        i = fresh('any'); s2 = st.fork(); s2.assume(0 <= i, i < p['n'], z3.Not(order(s2, p, 0, i))); return s2, z3.Select(p['key'], 0), z3.Select(p['key'], i)
    def order(st, p, i, j):
        r = ex.new_region(st, None, 'heap snapshot', 'indexed', esize=ES); R = st.mem[r]; R.lazy = st.mem[p['r']].lazy; R.codec = dict(st.mem[p['r']].codec); R.cells[KEY] = p['key']; R.cells[TOK] = p['tok']
        return heap.lt(st, cmp, r, i, j)
    def on_unlock(ex, st, k):
        if k != (q.r, q.o + OM): return
        p = st.g['pre']; r, n1, d1 = cur(st); ev = st.g['heap_ev']; kinds = tuple(e[0] for e in ev)
        if r is not None and r in st.mem and 'heap' in st.mem[r].meta:
            heap.unbase(st, r); ex.check(st, zi(st.mem[r].meta['heap']) == n1, 'the queue is a heap whenever its lock is free'); heap.same(st, r, 0, n1, 'elements are changed only through heap operations')
        ex.check(st, len(ev) <= 1 and all(e[1] == cmp for e in ev), 'one heap operation per critical section, by one order')
        if kinds == ('push',):
            e = ev[0][2]; ex.check(st, n1 == p['n'] + 1, 'a push adds one element'); ex.check(st, 'push' in fn, 'only submission adds'); ex.check(st, e[TOK] == st.g['U'], 'the element added holds exactly the submitted task'); key = e[KEY]
            if PUSH.get(fn) is not None: ex.check(st, z3.And(*[key >= st.g['start'] + st.g['D'], z3.Or(*[key == t + st.g['D'] for t in st.g['reads']]) if st.g['reads'] else z3.BoolVal(False)]), 'the deadline is the time of submission plus the given duration')
            else: ex.check(st, key >= st.g['D'], 'the deadline is not before the given time'); ex.check(st, key <= st.g['D'] + (st.g['now'] - st.g['start']), 'the deadline is the given time (up to the time submission took)')
            st.g['pushed'] = st.g.get('pushed', 0) + 1; st.g['need'] = z3.Or(p['n'] == 0, key < z3.Select(p['key'], 0))
        elif kinds == ('pop',):
            ex.check(st, fn == 'st_run', 'only the timer thread removes'); ex.check(st, n1 == p['n'] - 1, 'a pop removes exactly one element'); k0 = z3.Select(p['key'], 0); t0 = z3.Select(p['tok'], 0); st.assume(t0 > 0)
            s2, a, b = front(st, p); ex.check(s2, a <= b, 'the task taken is one with the earliest deadline'); ex.check(st, st.g['now'] >= k0, 'a task is taken only once its deadline has passed')
            ex.check(st, z3.Not(p['d']), 'no task is taken after the timer was stopped'); ex.check(st, st.g.get('pending') is None, 'a task taken earlier is run before another one is taken'); st.g['pending'] = (t0, k0); st.g['took'] = True
        else: ex.check(st, n1 == p['n'], 'no element is lost or invented')
        ex.check(st, z3.Implies(p['d'], d1), 'stopped stays stopped')
        if fn == 'st_stop': ex.check(st, d1, 'stop is signalled'); st.g['stopped'] = True
        else: ex.check(st, d1 == p['d'], 'only the destructor stops the timer')
        st.g['last'] = dict(n1=n1, d=d1); st.g['least'] = n1
    def access(ex, st, p, size, what):
        o = p.o - q.o
        if st.g.get('joined') or not any(a <= o < a + z for a, z in ((OQ, 24), (OS, 1))): return
        ex.check(st, len(mon.held(st)) > 0, 'the timer state is accessed only with its lock held')
    mon = Monitor(ex, on_lock, on_unlock)
    def notify(ex, st, a, ins): st.g['notified'] = True; st.g['note_after'] = bool(st.g.get('pushed') or st.g.get('stopped') or st.g.get('heap_ev') or mon.held(st)); return Ret(None)
    ex.contract(rx(r'^std::(_V2::)?condition_variable::notify_(one|all)\(\)'), notify, 'condition_variable::notify', True)
    ex.contract(rx(r'^std::(_V2::)?condition_variable::~?condition_variable\(\)'), lambda ex, st, a, ins: Ret(None), 'condition_variable', True)
    def relock(ex, st, k): mon.on_unlock(ex, st, k); tick(st); mon.on_lock(ex, st, k)
    def lk(ex, st, p):
        m = ex.load(st, p, PTR); k = (m.r, m.o); ex.check(st, k in mon.held(st), 'locking: wait is called with the lock held'); return k
    def wait(ex, st, a, ins):
        k = lk(ex, st, a[1]); r, n1, d1 = cur(st); ex.check(st, n1 == 0, 'the timer thread never sleeps without a deadline while tasks are waiting'); ex.check(st, z3.Not(d1), 'the timer thread never sleeps after it was stopped'); relock(ex, st, k); return Ret(None)
    ex.contract(rx(r'^std::(_V2::)?condition_variable::wait\(std::unique_lock'), wait, 'condition_variable::wait', True)
    def wait_until(ex, st, a, ins):
        k = lk(ex, st, a[1]); when = ex.load(st, a[2], I64); when = to_bv(when, 64); r, n1, d1 = cur(st); p = st.g['pre']; ex.check(st, z3.Not(d1), 'the timer thread never sleeps after it was stopped')
        s2, k0, ki = front(st, p); s2.assume(p['n'] == n1); ex.check(s2, when <= ki, 'the timer thread never sleeps past the earliest deadline'); relock(ex, st, k)
        s3 = st.fork(); return [(st, Ret(0)), (s3, Ret(1))]
    ex.contract(lambda n, d: 'condition_variable::wait_until<' in d and cxx(d)[1] == 'wait_until' and len(split_args(cxx(d)[2])) == 2, wait_until, 'condition_variable::wait_until', True)
    def wait_for(ex, st, a, ins): raise ToolLimit('condition_variable::wait_for')
    ex.contract(lambda n, d: 'condition_variable::wait_for<' in d and cxx(d)[1] == 'wait_for', wait_for, 'condition_variable::wait_for', True)
    def join(ex, st, a, ins):
        ex.check(st, not mon.held(st), 'the lock is not held while the thread is joined'); ex.check(st, st.g.get('stopped', False) and st.g.get('notified', False), 'the timer thread is told to stop before it is joined'); ex.check(st, isinstance(a[0], Ptr) and (a[0].r, a[0].o) == (q.r, q.o + OTH), 'the timer thread is joined'); st.g['joined'] = True; r = vec.init(st, at(OQ)); return Ret(None)
    ex.contract('std::thread::join()', join, 'std::thread::join', True); ex.contract('std::thread::~thread()', lambda ex, st, a, ins: Ret(None), 'std::thread', True)
    ex.contract(lambda n, d: d.endswith('get_system_timer()'), lambda ex, st, a, ins: Ret(q), 'get_system_timer(): the one timer', True)
    ex.contract(lambda n, d: cxx(d)[0][-1:] and base(cxx(d)[0][-1]) == 'vector' and cxx(d)[1] == '~vector', lambda ex, st, a, ins: (ex.check(st, st.g.get('joined', False), 'the queue is destroyed only after the timer thread ended'), Ret(None))[1], 'std::vector destruction', True)
    ex.put(s, q.r, q.o + OM, 8, 0); s.reg(q.r).meta['access'] = access
    def reset(ex, st):
        if mon.held(st): on_unlock(ex, st, (q.r, q.o + OM)); n = st.g['least']; on_lock(ex, st, (q.r, q.o + OM))
    def rel(ex, st, vals): return (bool(mon.held(st)), ex.must(st, zi(st.g['least']) > 0) if mon.held(st) and 'least' in st.g else None, ex.must(st, z3.Not(st.g['last']['d'])) if mon.held(st) else None, st.g.get('pending') is not None, tuple(st.g.get('pending') is not None and is_tok(v) and ex.must(st, v == st.g['pending'][0]) for v in vals.values()), st.g.get('pending') is not None and ex.must(st, st.g['now'] >= st.g['pending'][1]))
    def gen(ex, st, vals):
        t = {}; r = ex.last_rel; n = fresh('now', 'bv'); st.assume(n >= 0, n < (1 << 61)); st.g['now'] = n; st.g['reads'] = ()
        if r[0]:
            st.g['least'] = z3.IntVal(1 if r[1] else 0); on_lock(ex, st, (q.r, q.o + OM))
            if r[2]: st.assume(z3.Not(st.g['pre']['d']))
            for p in vals:
                if p[0] == 'mem' and p[1] == q.r: t[p] = st.mem[q.r].cells[p[2]][1]
        if r[3]:
            f, k = fresh('task'), fresh('deadline', 'bv'); st.assume(f > 0); st.g['pending'] = (f, k)
            if r[5]: st.assume(n >= k)
            for (p, v), b in zip(vals.items(), r[4]):
                if b: t[p] = f
        return t
    ex.loopspecs.append(lambda ex, st, f, h: TagLoop('loop of ' + short(f.dem), rel, gen, skip=('pre', 'heap_ev', 'last', 'locks', 'least', 'now', 'reads', 'pending', 'notified', 'note_after'), reset=reset) if 'system_timer' in f.dem or 'condition_variable' in f.dem else None)
    n = 0
    if fn in PUSH:
        U = fresh('U'); s.assume(U > 0); s.g['U'] = U; up = Ptr(ex.new_region(s, TS if 'task' in fn or fn[0] == 'x' else 8, 'submitted')); T.set(s, up, U); d = z3.BitVec('duration', 64); k = PUSH[fn] or 1; lim = (1 << 60) // k; s.assume(d < lim, d > -lim if PUSH[fn] else d >= 0); s.g['D'] = simp(d * k); s.g['start'] = now0
        for st, r in ex.invoke_fn(s, fn, ([q] if fn[0] == 's' else []) + [d, up]):
            n += 1; ex.check(st, isinstance(r, Ret) and not mon.held(st), 'the lock is released'); ex.check(st, st.g.get('pushed', 0) == 1, 'a submission enqueues the task exactly once')
            if st.g.get('pushed'): ex.check(st, z3.Or(z3.Not(st.g['need']), z3.BoolVal(st.g.get('note_after', False))), 'the timer thread is woken when an earlier deadline arrives')
    elif fn == 'st_run':
        for st, r in ex.invoke_fn(s, fn, [q]):
            n += 1; ex.check(st, isinstance(r, Ret) and not mon.held(st), 'the lock is released'); ex.check(st, st.g.get('pending') is None, 'the timer thread never ends with a task taken but not run'); ex.check(st, st.g.get('last') is not None and st.g['last']['d'], 'the timer thread ends only when the timer was stopped')
    else:
        for st, r in ex.invoke_fn(s, fn, [q]): n += 1; ex.check(st, st.g.get('joined', False), 'stopping waits for the timer thread')
    ex.check(s, n >= 1, 'cover: returns'); return [ex]
import itertools
_c = itertools.count()
