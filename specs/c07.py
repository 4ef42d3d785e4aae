"""Contracts for the serial queue: a drain permission (ghost) exists exactly while `running`; every critical section is an allowed
transition of (taken, submitted, running); the executor receives a task whose execution satisfies the drain contract."""
import os, z3
from irv.core import *
from irv.std import *
from irv.seq import *
from irv.loops import *
from irv.tasks import *
from irv.build import bitcode, VERIF
from irv.llvm import Module
ASSUMPTIONS = ['std::mutex gives mutual exclusion; at every lock the queue may have been changed by any other threads in any way their own contracts allow (rely/guarantee, contents havocked)',
  'std::deque operations are assumed sequence contracts; task_ special members on opaque callables are the contracts proved in C05',
  'the executor runs every task it is given exactly once, at any time, on any thread, possibly inline (its contract)', 'tasks do not throw and return',
  'shared_ptr/weak_ptr run as the real libstdc++ code with atomic primitives; another owner exists while a drain runs; operator new succeeds']
BATTERY = [dict(src='serial.cpp', args=[], flags=['-O1', '-DPERTURB'], timeout=240, hang_is_failure=True, repo_src=['src/pre_exit.cpp', 'src/concurrency/default_executor.cpp']),
  dict(src='serial.cpp', args=[], flags=['-O1', '-fsanitize=thread'], timeout=240, hang_is_failure=True, repo_src=['src/pre_exit.cpp', 'src/concurrency/default_executor.cpp'])]
_M = None
def mod():
    global _M
    if _M is None: _M = Module(bitcode(os.path.join(VERIF, 'drivers/serial.cpp')))
    return _M
def prepare(): mod()
def units(tier): return [(m, f) for m in ('single', 'all') for f in ('sq_submit', 'sq_submit_copy', 'sq_submit_task')] + [('default', 'sq_submit')]
def run(u, **kw):
    mode, fn = u; ex = Engine(mod()); ex.cur = 'serial_queue (%s) %s' % u; ex.under_contract.update(['serial_instance_t::enqueue', 'serial_instance_t::' + (mode if mode != 'default' else 'single'), 'serial_instance_t::empty', 'serial_queue_t::executor'])
    s = State(); ex.hooks['extern_global'] = extern_global; install_refcount(ex)
    def one(st, f, a):
        o = ex.invoke_fn(st, f, a)
        if len(o) != 1 or not isinstance(o[0][1], Ret): raise ToolLimit(f + ' is expected to return')
        return o[0][0], o[0][1].v
    off = []
    for k in range(6): s, v = one(s, 'sq_off', [k]); off.append(v)
    SZ, OM, OR, OQ, TS, QS = off
    B = z3.Bool
    def user(ex, st, tok, a):
        g = st.g
        ex.check(st, not mon.held(st), 'a task is started without the queue lock held')
        ex.check(st, g['perm'], 'tasks are started only by the one drain that is running (no overlap)')
        ex.check(st, z3.And(tok == g['s'] + 1, g['s'] < g['h']), 'tasks are started in submission order, each once, after being taken from the queue')
        g['s'] = simp(g['s'] + 1); g['ran'] = True; return Ret(None)
    T = Tasks(ex, user)
    def construct(ex, st, p, args, params):
        if args and T.abstract(st, args[0]): T.set(st, p, T.take(st, args[0]) if params.endswith('&&') else T.tok(st, args[0])); return Ret(None)
        raise ToolLimit('queue element from a concrete task')
    D = Deque(ex, TS, 'stlab::', construct, name='queue')
    ex.contract('U::U(U&&)', lambda ex, st, a, ins: (T.set(st, a[0], T.take(st, a[1])), Ret(None))[1], 'opaque task move', True)
    ex.contract('U::U(U const&)', lambda ex, st, a, ins: (T.set(st, a[0], T.tok(st, a[1])), Ret(None))[1], 'opaque task copy', True)
    ex.contract('U::~U()', lambda ex, st, a, ins: Ret(None), 'opaque task destruction', True)
    obj = {}
    def shared(st): return Ptr(obj['b'].r, None, obj['b'].o + OQ)
    def run_of(st): return to_bv(ex.load(st, Ptr(obj['b'].r, None, obj['b'].o + OR), I8), 8) != 0
    def on_lock(ex, st, k):
        b = obj.get('b')
        if b is None or k != (b.r, b.o + OM): return
        g = st.g; g['in'] = True
        h, t = fresh('taken'), fresh('submitted'); r = fresh('running', 'bool'); p = g['perm']
        st.assume(0 <= h, h <= t, z3.Implies(z3.Not(r), h == t), z3.Implies(to_bool(p), z3.And(r, h == g['h'], t >= g['t'])))
        ex.put(st, b.r, b.o + OR, 1, z3.If(r, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        rg = D.make(st, shared(st), simp(t - h)); i = z3.Int('i'); st.reg(rg).cells[(0, 8)] = z3.Lambda([i], h + i + 1)
        g['pre'] = (h, t, r)
    def on_unlock(ex, st, k):
        b = obj.get('b')
        if b is None or k != (b.r, b.o + OM): return
        g = st.g; h, t, r = g['pre']; q = shared(st); lo, hi = D.rd(st, q); arr = st.mem[D.reg_of(st, q)].cells[(0, 8)]; n1 = simp(zi(hi) - zi(lo)); r1 = run_of(st); n0 = t - h
        i = fresh('any'); at = lambda i: z3.Select(arr, zi(lo) + i); p = to_bool(g['perm'])
        if g.get('U') is not None and ex.must(st, n1 == n0 + 1):
            ex.check(st, z3.And(z3.Implies(z3.And(0 <= i, i < n0), at(i) == h + i + 1), at(n0) == g['U']), 'a submission appends exactly the given task behind all earlier ones'); g['U'] = None; g['appended'] = True
            h1, t1 = h, t + 1
        else:
            ex.check(st, z3.And(0 <= n1, n1 <= n0), 'nothing but the submitted task enters the queue')
            h1, t1 = simp(t - n1), t
            ex.check(st, z3.Implies(z3.And(0 <= i, i < n1), at(i) == h1 + i + 1), 'tasks leave the queue oldest first and the rest keeps its order')
            ex.check(st, z3.Or(p, n1 == n0), 'only the running drain takes tasks')
        ex.check(st, z3.Implies(z3.And(r, z3.Not(r1)), p), 'only the running drain ends running')
        ex.check(st, z3.Implies(z3.And(r, z3.Not(r1)), z3.And(n1 == 0, g['s'] == h1)), 'running ends only when the queue is empty and every task taken has been run')
        ex.check(st, z3.Implies(n1 > 0, r1), 'never stranded: a non-empty queue has a drain running or scheduled')
        g['perm'] = simp(z3.And(r1, z3.Or(p, z3.Not(r)))); g['h'] = simp(z3.If(to_bool(g['perm']), h1, fresh('h'))) if not ex.must(st, g['perm']) else h1
        g['s'] = simp(z3.If(z3.And(z3.Not(r), r1), h1, g['s'])); g['t'] = t1   # a new drain starts with nothing taken and unrun
    mon = Monitor(ex, on_lock, on_unlock)
    def access(ex, st, p, size, what):
        b = obj.get('b')
        if b and p.r == b.r and (b.o + OQ <= p.o < b.o + OQ + QS or p.o == b.o + OR) and not st.g.get('free'):
            ex.check(st, len(mon.held(st)) > 0, 'the queue and the running flag are accessed only with the lock held')
    work = []; seen = set()
    def o_exec(ex, st, a, ins):
        g = st.g
        ex.check(st, not mon.held(st), 'the executor is called without the queue lock held')
        ex.check(st, to_bool(g['perm']), 'a drain is handed to the executor only by whoever holds the permission (one drain at a time)')
        ex.check(st, g['s'] == g['h'], 'the next drain is scheduled only after every task taken so far has been run')
        g['perm'] = False; g['handed'] = g.get('handed', 0) + 1
        dst = Ptr(ex.new_region(st, TS, 'scheduled task')); st, _ = one(st, 'sq_take', [dst, a[0]])
        vt = first(st, dst); key = (st.mem[vt.r].label if isinstance(vt, Ptr) else repr(vt), ex.must(st, g['h'] < g['t']))
        ex.check(st, isinstance(vt, Ptr) and 'model' in st.mem[vt.r].label, 'the executor receives a task that is not empty')
        if key not in seen: seen.add(key); work.append((key, st.fork(), dst))
        return [(st, Ret(None))]
    ex.contract('o_exec', o_exec, 'the user executor', True)
    # the queue object, built by its real constructor
    q = Ptr(ex.new_region(s, 16, 'serial_queue')); s.g.update(free=True, perm=False, h=z3.IntVal(0), t=z3.IntVal(0), s=z3.IntVal(0))
    s, _ = one(s, 'sq_new_default', [q]) if mode == 'default' else one(s, 'sq_new', [q, 1 if mode == 'all' else 0]); s, b = one(s, 'sq_impl', [q]); obj['b'] = b
    ex.check(s, (b.r, b.o + OQ) in D.created, 'the queue object holds one queue')
    ex.check(s, z3.And(D.rd(s, shared(s))[0] == D.rd(s, shared(s))[1], z3.Not(run_of(s))) if z3.is_expr(run_of(s)) else False, 'a new queue is empty and not running')
    ctl = ex.load(s, q.add(8), PTR); uc = ctl.add(8); s.reg(b.r).meta['access'] = access; s.g['free'] = False
    def refs(st): return to_bv(ex.load(st, uc, I32), 32)
    def hide(st):
        n = fresh('owners', 'bv', 32); st.assume(z3.UGE(n, 2), z3.ULE(n, 1 << 20)); ex.put(st, uc.r, uc.o, 4, n)
        D.make(st, shared(st)); ex.put(st, b.r, b.o + OR, 1, UNDEF); return n
    s.g['free'] = True; n0 = hide(s); s.g['free'] = False
    # loops: local queues hold exactly the tasks taken and not yet run
    def locals_of(st): return [(rid, R) for rid, R in st.mem.items() if R.kind == 'indexed' and R.alive and R.meta.get('owner') and R.meta['owner'] != (b.r, b.o + OQ) and st.mem[R.meta['owner'][0]].alive]
    def linv(ex, st, R):
        lo, hi = D.rd(st, Ptr(R.meta['owner'][0], None, R.meta['owner'][1])); i = fresh('any'); lo, hi = zi(lo), zi(hi); arr = R.cells[(0, 8)]
        if ex.must(st, lo == hi): return 'empty' if not ex.must(st, st.g['s'] == st.g['h']) else 'rest'
        return 'rest' if ex.must(st, z3.And(lo <= hi, z3.Implies(z3.And(lo <= i, i < hi), z3.Select(arr, i) == st.g['s'] + i - lo + 1), st.g['s'] + hi - lo == st.g['h'])) else 'other'
    def rel(ex, st, vals):
        g = st.g; held = bool(mon.held(st))
        return (tuple((rid, linv(ex, st, R)) for rid, R in sorted(locals_of(st), key=lambda x: x[0])), ex.must(st, to_bool(g['perm'])), ex.must(st, z3.Not(to_bool(g['perm']))), ex.must(st, g['s'] == g['h']) if not any(linv(ex, st, R) == 'rest' for _, R in locals_of(st)) else None, held)
    def reset(ex, st):
        if not mon.held(st): st.g['free'] = True; D.make(st, shared(st)); ex.put(st, b.r, b.o + OR, 1, UNDEF); st.g['free'] = False
        st.g.pop('pre', None); st.g.pop('ran', None)
    def gen(ex, st, vals):
        tied = {}; (loc, p1, p0, sh, held) = rel(ex, st, vals)
        h, t, sn = fresh('h'), fresh('t'), fresh('s'); st.assume(0 <= sn, sn <= h, h <= t); i = z3.Int('i')
        if sh: st.assume(sn == h)
        for rid, k in loc:
            R = st.mem[rid]; ow = R.meta['owner']; lo, hi = fresh('lo'), fresh('hi'); st.assume(lo <= hi)
            if k == 'rest':
                st.assume(sn + hi - lo == h); st.reg(rid).cells[(0, 8)] = z3.Lambda([i], sn + i - lo + 1)
                D.wr(st, Ptr(ow[0], None, ow[1]), rid, lo, hi)
                for p in vals:
                    if p[:2] == ('mem', ow[0]) and p[2] in (ow[1], ow[1] + 8): tied[p] = Ptr(rid, lo if p[2] == ow[1] else hi, 0)
                    if p == ('arr', rid, (0, 8)): tied[p] = st.mem[rid].cells[(0, 8)]
        st.g.update(h=h, t=t, s=sn, perm=True if p1 else False if p0 else fresh('perm', 'bool'))
        return tied
    ex.loopspecs.append(lambda ex, st, f, hd: TagLoop('loop of ' + short(f.dem), rel, gen, skip=('locks', 'h', 't', 's', 'perm', 'in', 'free', 'pre', 'handed'), reset=reset) if 'serial_instance_t' in f.dem or 'drain' in f.dem else None)
    # submission
    U = fresh('U'); s.assume(U > 0); s.g['U'] = U
    up = Ptr(ex.new_region(s, TS if fn == 'sq_submit_task' else 8, 'submitted task')); T.set(s, up, U); n = 0
    for st, r in ex.invoke_fn(s, fn, [q, up]):
        n += 1; ex.check(st, isinstance(r, Ret), 'submission does not throw'); ex.check(st, st.g.get('appended', False), 'the submitted task is put in the queue exactly once')
        ex.check(st, z3.Not(to_bool(st.g['perm'])), 'never stranded: the submission that starts running hands a drain to the executor'); ex.check(st, not mon.held(st), 'the lock is released')
        ex.check(st, not st.g.get('ran'), 'a submission runs nothing itself')
        ex.check(st, refs(st) == n0 + st.g.get('handed', 0), 'a scheduled drain keeps the queue object alive, nothing else is retained')
    ex.check(s, n >= 1 and len(seen) >= 1, 'cover: submissions schedule a drain'); m = 0
    while work:
        key, st, t = work.pop(); st = st.fork(); st.frames = []; ex.cur = 'serial_queue (%s) drain' % mode
        h, tt = fresh('h'), fresh('t'); st.assume(0 <= h, h < tt if key[1] else h <= tt); st.g['free'] = True; n1 = hide(st); st.g['free'] = False
        st.g.update(perm=True, h=h, t=tt, s=h, U=None, handed=0, appended=False, ran=False)
        for s2, r in ex.invoke_fn(st, 'sq_run', [t]):
            m += 1; ex.check(s2, isinstance(r, Ret), 'a drain does not throw'); ex.check(s2, z3.Not(to_bool(s2.g['perm'])), 'never stranded: a drain ends by finding the queue empty or by scheduling the next drain')
            ex.check(s2, not mon.held(s2), 'the lock is released'); ex.check(s2, refs(s2) == n1 - 1 + s2.g.get('handed', 0), 'a finished drain releases the queue object')
        if len(seen) > 12: raise ToolLimit('too many kinds of drain')
    ex.check(s, m >= 2, 'cover: drains end both ways'); return [ex]
