"""Futures: monitor invariant of the shared state and contracts for attaching, completing and reading (shared by C09, C10, C11).

Every shared state S under verification has ghost facts: ready (monotone), its result (a value or an exception, fixed), the list of
attached continuations.  At every lock of S the list is arbitrary (other threads); at every unlock the critical section must have been
one of: nothing, append one continuation while not ready, or (producer only) result in place, list taken in full, ready set."""
import os, re, z3
from irv.core import *
from irv.std import *
from irv.seq import *
from irv.loops import *
from irv.tasks import *
from irv.build import bitcode, VERIF
from irv.llvm import Module
from irv.names import cxx, base
ASSUMPTIONS = ['std::mutex gives mutual exclusion; at every lock of a shared state other threads may have attached any continuations (list contents havocked)',
  'values and callables are opaque: copies are equal, moves transfer, moves and copies of values do not throw; a callable returns a value or throws any exception',
  'an executor runs every task it is given exactly once or destroys it, at any time, on any thread, possibly inline (its contract)',
  'std::exception_ptr primitives, make_exception_ptr, current_exception and rethrow_exception are assumed contracts on exception identities',
  'std::function (executor_t) of unknown executors is an assumed contract; those built from known callables run as the real libstdc++ code',
  'std::vector growth and element destruction are assumed contracts; task_ on unknown callables uses the C05 contracts', 'shared_ptr/weak_ptr run as real libstdc++ code on sequentially consistent counters; operator new succeeds']
RS = ['src/pre_exit.cpp', 'src/concurrency/default_executor.cpp']
def bat(args, flags, t=180): return dict(src='future.cpp', args=args, flags=flags, timeout=t, hang_is_failure=True, repo_src=RS)
SEQ, RACE, TRACE = bat(['seq'], ['-fsanitize=address,undefined']), bat(['race'], ['-O1', '-DPERTURB']), bat(['race', 'noexc'], ['-fsanitize=thread'])
WAIT, TWAIT = bat(['wait'], ['-O1', '-DPERTURB']), bat(['wait', 'noexc'], ['-fsanitize=thread'])
_M = {}
def mod(d='futures'):
    if d not in _M: _M[d] = Module(bitcode(os.path.join(VERIF, 'drivers/%s.cpp' % d)))
    return _M[d]
TI = {'V': 0, 'O': 1, 'M': 2}
class World:
    def __init__(w, ex):
        w.ex = ex; w.sb = {}; w.off = {}; ex.hooks['extern_global'] = extern_global; install_refcount(ex); install_typeinfo(ex)
        w.mon = Monitor(ex, w.on_lock, w.on_unlock); w.T = Tasks(ex, w.user_task); w.T.callables = False; w.PS = w.O(State(), 'V')['pair']; w.TS = w.off['V']['task']; w.vec = Vector(ex, w.PS, (0, 32), 'continuation list')
        w.BROKEN = z3.Int('broken_promise'); ex.axioms.append(w.BROKEN > 0); w.calls_ret = {}
        w.values(); w.exceptions(); w.functions(); w.vector(); w.exec_hook = None; w.inner = None
        ex.contract('o_exec', w.o_exec, 'the user executor', True); ex.hooks['load'] = w.hload
        ex.loopspecs.append(lambda ex, st, f, hd: TagLoop('loop of ' + short(f.dem), w.lrel, w.lgen, skip=('held', 'locks', 'sbs')) if cxx(f.dem)[0][:1] == ('stlab',) or '::stlab::' in f.dem or f.dem.startswith('void stlab') else None)
    def O(w, st, t):
        if t not in w.off:
            l = []
            for k in range(11):
                o = w.ex.invoke_fn(st, 'fu_off', [TI[t], k]); l.append(o[0][1].v)
            w.off[t] = dict(zip(('size', 'executor', 'result', 'exception', 'mutex', 'ready', 'then', 'optsize', 'pair', 'thensize', 'task'), l))
        return w.off[t]
    # ---- opaque values and callables
    def tok(w, st, p): 
        v = w.ex.load(st, p, I64)
        return v
    def put(w, st, p, t): w.ex.access_ok(st, p, 8, 'write'); w.ex.put(st, p.r, p.o, 8, t)
    def alive(w, st, p, what):
        w.ex.access_ok(st, p, 8, 'read'); c = st.mem[p.r].cells.get(p.o); ok = c is not None and is_tok(c[1])
        w.ex.check(st, ok, '%s' % what)
        if not ok: raise Infeasible()
        return c[1]
    def gone(w, st): m = fresh('moved'); st.assume(m < 0); return m
    def values(w):
        ex = w.ex
        P = r'(?:V|M|(?:Fn|Nn)<.*>)'
        def of(m): return lambda n, d: (lambda c: len(c[0]) == 1 and base(c[0][0]) in ('V', 'M', 'Fn', 'Nn') and m(base(c[0][0]), c[1], c[2]))(cxx(d)) if d[:2] in ('V:', 'M:', 'Fn', 'Nn') or d.startswith(('V::', 'M::', 'Fn<', 'Nn<')) else False
        def cmove(ex, st, a, ins): t = w.alive(st, a[1], 'a live object is moved from'); w.put(st, a[0], t); w.put(st, a[1], w.gone(st)); return Ret(None)
        def ccopy(ex, st, a, ins): t = w.alive(st, a[1], 'a live object is copied'); w.put(st, a[0], t); return Ret(None)
        def amove(ex, st, a, ins): t = w.alive(st, a[1], 'a live object is moved from'); w.alive(st, a[0], 'a live object is assigned to'); w.put(st, a[1], w.gone(st)); w.put(st, a[0], t); return Ret(a[0])
        def acopy(ex, st, a, ins): t = w.alive(st, a[1], 'a live object is copied'); w.alive(st, a[0], 'a live object is assigned to'); w.put(st, a[0], t); return Ret(a[0])
        def dtor(ex, st, a, ins): w.alive(st, a[0], 'an object is destroyed exactly once'); w.put(st, a[0], UNDEF); return Ret(None)
        ctor = lambda b, m, p: m == b
        ex.contract(of(lambda b, m, p: m == b and p.endswith('&&')), cmove, 'opaque move', True); ex.contract(of(lambda b, m, p: m == b and p.endswith('const&')), ccopy, 'opaque copy', True)
        ex.contract(of(lambda b, m, p: m == 'operator=' and p.endswith('&&')), amove, 'opaque move assignment', True); ex.contract(of(lambda b, m, p: m == 'operator=' and p.endswith('const&')), acopy, 'opaque copy assignment', True)
        ex.contract(of(lambda b, m, p: m == '~' + b), dtor, 'opaque destruction', True)
        ex.contract(of(lambda b, m, p: m == 'opcall'), w.user, 'user callable', True)
    def user(w, ex, st, a, ins):
        v = ex.val(st, ins.x); sc, m, par = cxx(ex.mod.funcs[v.name].dem); cls = sc[0]; targs = split_args(cls[cls.index('<') + 1:-1].strip()); r = targs[0]
        ex.check(st, not w.mon.held(st), 'user code is called without a lock held')
        sret = r != 'void'; this = a[1] if sret else a[0]; args = a[2:] if sret else a[1:]
        f = w.alive(st, this, 'a live callable is invoked'); ex.check(st, f > 0, 'the callable invoked has not been moved from')
        av = []
        for p, t in zip(args, targs[1:]):
            if t in ('V', 'M'): av.append(w.alive(st, p, 'the argument is a live value'))
            elif t.startswith('stlab'):
                q = ex.load(st, p, PTR); av.append(('future', q.r, q.o) if isinstance(q, Ptr) else ('future', None, None))
            elif isinstance(p, Ptr): av.append(('ref', p.r, p.o))
            else: av.append(p)
        st.g['calls'] = st.g.get('calls', []) + [(f, tuple(av))]
        sts = w.on_call(st, f, av, args) if w.on_call else None; out = []
        for s1 in sts if sts is not None else [st]: out += w.user_end(s1, a, r, base(cls))
        return out
    def user_end(w, st, a, r, cls):
        out = []
        if cls == 'Fn':
            s2 = st.fork(); s2.path.append('the callable throws'); x = fresh('thrown'); s2.assume(x > 0, x != w.BROKEN); s2.g['threw'] = x; out.append((s2, Throw(Exc(x, '_ZTI_user'))))
        if r in ('V', 'M'): t = fresh('returned'); st.assume(t > 0); w.put(st, a[0], t); st.g['returned'] = t
        elif r != 'void':
            for st2 in w.inner(st, a[0]): out.append((st2, Ret(None)))
            return out
        return out + [(st, Ret(None))]
    on_call = None
    def user_task(w, ex, st, tok, a): raise ToolLimit('an abstract task is invoked here')
    # ---- exceptions
    def xtok(w, st, e):
        if is_tok(e.tok): return e.tok
        if isinstance(e.tok, tuple) and e.tok[1] and 'future_error' in e.tok[1]: return w.code(st, e.obj)
        x = fresh('exc'); st.assume(x > 0, x != w.BROKEN); return x
    def code(w, st, p):
        c = to_bv(w.ex.load(st, p.add(16), I8), 8); return simp(z3.If(c == 1, w.BROKEN, fresh('othererror')))
    def exceptions(w):
        ex = w.ex
        ex.contract(rx(r'^std::__exception_ptr::exception_ptr::_M_(addref|release)\(\)'), lambda ex, st, a, ins: Ret(None), 'exception_ptr reference count', True)
        ex.contract(rx(r'^std::logic_error::(logic_error|~logic_error|what)\('), lambda ex, st, a, ins: Ret(None), 'std::logic_error', True)
        ex.contract(rx(r'^std::uncaught_exceptions?\(\)'), lambda ex, st, a, ins: Ret(fresh('uncaught', 'bv', 32)), 'std::uncaught_exceptions', True)
        def cur(ex, st, a, ins): w.ex.store(st, a[0], Tok(w.xtok(st, st.caught[-1])) if st.caught else NULL, PTR); return Ret(None)
        ex.contract(rx(r'^std::current_exception\(\)'), cur, 'std::current_exception', True)
        def mk(ex, st, a, ins):
            n = ex.mod.funcs[ex.val(st, ins.x).name].dem; t = w.code(st, a[1]) if 'future_error' in n else fresh('exc')
            if 'future_error' not in n: st.assume(t > 0)
            ex.store(st, a[0], Tok(t), PTR); return Ret(None)
        ex.contract(rx(r'std::make_exception_ptr<'), mk, 'std::make_exception_ptr', True)
        def re_(ex, st, a, ins):
            v = ex.load(st, a[0], PTR); ex.check(st, not isinstance(v, Null) and (zi(v.t) > 0 if isinstance(v, Tok) else False), 'only a stored exception is rethrown')
            if isinstance(v, Tok): return Throw(Exc(v.t, '_ZTI_user'))
            raise Infeasible()
        ex.contract(rx(r'^std::rethrow_exception\('), re_, 'std::rethrow_exception', True)
    def exval(w, v): return z3.IntVal(0) if isinstance(v, Null) else zi(v.t) if isinstance(v, Tok) else z3.IntVal(-1)
    # ---- executors
    def isfun(w, st, p):
        v = first(st, p)
        if isinstance(v, str): return v == 'idx'
        m = st.mem[p.r].cells.get(p.o + 16) if isinstance(p, Ptr) and p.r in st.mem else None   # the manager slot of a std::function built from a known callable
        return is_tok(v) and not (m and isinstance(m[1], (Ptr, Null)) or m and isinstance(m[1], Fn))
    def functions(w):
        ex = w.ex
        def mine(f): return lambda n, d: d.startswith('std::function<void (stlab') and (lambda c: len(c[0]) >= 2 and base(c[0][1]) == 'function' and f(c[1], c[2]))(cxx(d))
        def gt(st, p): return ex.load(st, p, I64)
        def stt(st, p, t):
            if st.mem[p.r].kind == 'indexed': ex.store(st, p, t, I64)
            else: w.put(st, p, zi(t))
        def ctor(ex, st, a, ins):
            if len(a) < 2 or not w.isfun(st, a[1]): return NotImplemented
            par = cxx(ex.mod.funcs[ex.val(st, ins.x).name].dem)[2]; t = gt(st, a[1]); stt(st, a[0], t)
            if par.endswith('&&'): stt(st, a[1], z3.IntVal(0))
            return Ret(None)
        def asg(ex, st, a, ins):
            if not isinstance(a[1], Ptr): return NotImplemented
            if not w.isfun(st, a[1]) and not w.isfun(st, a[0]): return NotImplemented
            if not w.isfun(st, a[1]): raise ToolLimit('known executor assigned over an unknown one')
            par = cxx(ex.mod.funcs[ex.val(st, ins.x).name].dem)[2]; t = gt(st, a[1]); ex.put(st, a[0].r, a[0].o, 32, UNDEF); del st.reg(a[0].r).cells[a[0].o]; stt(st, a[0], t)
            if par.endswith('&&'): stt(st, a[1], z3.IntVal(0))
            return Ret(a[0])
        ex.contract(mine(lambda m, p: m == 'function' and p.startswith('std::function<')), ctor, 'std::function of an unknown executor: copy, move', True)
        ex.contract(mine(lambda m, p: m == 'operator=' and p.startswith('std::function<')), asg, 'std::function of an unknown executor: assignment', True)
        ex.contract(mine(lambda m, p: m == '~function'), lambda ex, st, a, ins: Ret(None) if w.isfun(st, a[0]) else NotImplemented, 'std::function of an unknown executor: destruction', True)
        ex.contract(mine(lambda m, p: m == 'operator bool'), lambda ex, st, a, ins: Ret(simp(gt(st, a[0]) > 0)) if w.isfun(st, a[0]) else NotImplemented, 'std::function of an unknown executor: operator bool', True)
        ex.contract(mine(lambda m, p: m == 'opcall'), lambda ex, st, a, ins: w.schedule(st, gt(st, a[0]), a[1]) if w.isfun(st, a[0]) else NotImplemented, 'an unknown executor', True)
        ex.contract(lambda n, d: d.startswith('std::_Function_base::~_Function_base'), lambda ex, st, a, ins: Ret(None) if w.isfun(st, a[0]) else NotImplemented, 'std::function of an unknown executor: destruction', True)
    def schedule(w, st, e, tp):
        """an attached continuation is handed to its executor"""
        ex = w.ex; g = st.g; ex.check(st, not w.mon.held(st), 'a continuation is scheduled without a lock held')
        if 'taken' not in g: ex.check(st, False, 'continuations are scheduled only after the result is in place and the list was taken'); raise Infeasible()
        n, ea, ta, b = g['taken']; k = g['k']; t = ex.load(st, tp, I64)
        ex.check(st, k < n, 'each attached continuation is scheduled exactly once')
        if not ex.check(st, z3.And(e == z3.Select(ea, b + k), t == z3.Select(ta, b + k)), 'continuations are scheduled in attachment order, each on its own executor'): raise Infeasible()
        ex.check(st, w.ready(st, g['comp']), 'continuations are scheduled after the future is ready')
        g['k'] = zi(simp(k + 1)); return Ret(None)
    def o_exec(w, ex, st, a, ins):
        ex.check(st, not w.mon.held(st), 'the executor is called without a lock held'); i = a[0] if z3.is_expr(a[0]) else z3.IntVal(a[0])
        dst = Ptr(ex.new_region(st, w.TS, 'scheduled task')); o = ex.invoke_fn(st, 't_take', [dst, a[1]]); st = o[0][0]
        st.g['handed'] = st.g.get('handed', []) + [(i, dst.r)]; return [(st, Ret(None))]
    # ---- the continuation list
    def vector(w):
        ex = w.ex; P = r'(^|[ &])std::vector<std::pair<std::function<.*>::'
        def callee(ex, ins): return ex.mod.funcs[ex.val(ex.cur_state, ins.x).name]
        def app(ex, st, a, ins):
            f = callee(ex, ins); f.body(); c = None
            for b in f._blocks.values():
                for i in b:
                    if i.op in ('call', 'invoke') and i.x[0] == 'fn':
                        n = ex.mod.funcs[i.x[1]].dem
                        if re.search(r'::construct<std::pair<', n): c, lead = i.x[1], 2
                        elif re.search(r'(^| )std::construct_at<std::pair<', n): c, lead = i.x[1], 1
            if c is None: return NotImplemented       # e.g. push_back forwarding to emplace_back
            tmp = Ptr(ex.new_region(st, w.PS, 'continuation')); outs = ex.invoke_fn(st, c, ([a[0]] if lead == 2 else []) + [tmp] + list(a[1:])); o = []
            for s2, r in outs:
                if isinstance(r, Throw): o.append((s2, r)); continue
                p = w.vec.insert_at(s2, a[0], None); s2.reg(p.r).meta['open'] = p.i
                for off in (0, 32):
                    t = fresh('new'); s2.assume(t > 0); ex.store(s2, p.add(off), t, I64)
                s2.reg(p.r).meta['open'] = None
                s2.g['app'] = s2.g.get('app', []) + [tmp.r]; o.append((s2, Ret(p)))
            return o
        ex.contract(re.compile(P + r'(push_back|emplace_back)(<.*>)?\('), app, 'std::vector::push_back/emplace_back: appends one element', True)
        def ins_(ex, st, a, ins):
            p = a[1] if isinstance(a[1], Ptr) and st.mem[a[1].r].kind == 'indexed' else ex.load(st, a[1], PTR); r, lo, hi = w.vec.bounds_of(st, a[0])
            ex.check(st, w.vec.idx(p) == zi(hi), 'a continuation is appended behind the ones attached before'); raise ToolLimit('vector::insert of a continuation')
        ex.contract(re.compile(P + r'(insert|emplace)(<.*>)?\('), ins_, 'std::vector::insert', True)
        ex.contract(re.compile(P + r'(_M_realloc_insert|_M_realloc_append|reserve|resize|erase|_M_erase)'), lambda ex, st, a, ins: (_ for _ in ()).throw(ToolLimit('vector operation outside the contracts')), 'std::vector internals', True)
        def destroy(ex, st, a, ins):
            return Ret(None)
        ex.contract(re.compile(r'^void std::(_Destroy|_Destroy_n|destroy)<std::pair<std::function<'), destroy, 'destruction of list elements', True)
    # ---- shared states
    def reg_sb(w, st, fut, t, prod=False):
        """registers the shared state a future refers to; returns its key"""
        b = w.ex.load(st, fut, PTR)
        if not isinstance(b, Ptr): raise ToolLimit('a future without state')
        o = w.O(st, t); k = (b.r, b.o + o['mutex']); w.sb[k] = (t, b, w.ex.load(st, fut.add(8), PTR))
        st.reg(b.r).meta['access'] = w.access; w.f(st, k, prod=prod, R=z3.BoolVal(False), x0=None); return k
    def f(w, st, k, **kv):
        d = dict(st.g.get('sbs', {})); e = dict(d.get(k, {})); e.update(kv); d[k] = e; st.g['sbs'] = d; return e
    def ghost(w, st, k): return st.g['sbs'][k]
    def ready(w, st, k): return to_bool(w.ghost(st, k)['R'])
    def at(w, st, k, what): t, b, c = w.sb[k]; return b.add(w.O(st, t)[what])
    def refs(w, st, k): return to_bv(w.ex.load(st, w.sb[k][2].add(8), I32), 32)
    def setrefs(w, st, k, v): p = w.sb[k][2].add(8); w.ex.put(st, p.r, p.o, 4, v)
    def setready(w, st, k, r):
        p = w.at(st, k, 'ready'); w.ex.put(st, p.r, p.o, 1, z3.If(to_bool(r), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))); w.f(st, k, R=r)
    def rdready(w, st, k): p = w.at(st, k, 'ready'); return simp(to_bv(st.mem[p.r].cells[p.o][1], 8) != 0) if z3.is_expr(st.mem[p.r].cells[p.o][1]) else z3.BoolVal(st.mem[p.r].cells[p.o][1] != 0)
    def voff(w, st, k): return w.O(st, w.sb[k][0])['optsize'] - (1 if w.sb[k][0] == 'O' else 8)
    def result(w, st, k):
        """(engaged, value token, exception token) as stored"""
        p = w.at(st, k, 'result'); c = st.mem[p.r].cells; e = c.get(p.o + w.voff(st, k)); e = to_bv(e[1], 8) != 0 if e else z3.BoolVal(False)
        v = c.get(p.o); x = w.at(st, k, 'exception'); xv = st.mem[x.r].cells.get(x.o); return simp(e), v[1] if v and is_tok(v[1]) else z3.IntVal(-9), w.exval(xv[1] if xv else NULL)
    def hide(w, st, k, hv, v, x, R):
        """other threads own this state: arbitrary result (fixed), readiness R"""
        p = w.at(st, k, 'result'); w.ex.put(st, p.r, p.o + w.voff(st, k), 1, z3.If(hv, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        if w.sb[k][0] != 'O': w.ex.put(st, p.r, p.o, 8, v)
        q = w.at(st, k, 'exception'); w.ex.put(st, q.r, q.o, 8, Tok(z3.If(hv, z3.IntVal(0), x))); w.setready(st, k, R)
    def access(w, ex, st, p, size, what):
        for k, (t, b, c) in w.sb.items():
            if p.r != b.r: continue
            o = w.O(st, t); d = p.o - b.o; g = st.g.get('sbs', {}).get(k)
            if g is None or st.g.get('free'): continue
            if o['result'] <= d < o['result'] + o['optsize'] or o['exception'] <= d < o['exception'] + 8:
                if what == 'read': ex.check(st, z3.Or(to_bool(g['R']), z3.BoolVal(bool(g['prod'])), to_bool(w.dying(st, k))), 'the result is read only after the future is ready')
                else: ex.check(st, z3.Or(z3.And(z3.BoolVal(bool(g['prod'])), z3.Not(to_bool(g['R']))), w.excl(st, k)), 'the result is written only by the producer before the future is ready, or moved out by the last owner')
            elif o['then'] <= d < o['then'] + o['thensize']:
                if not w.mon.held(st): ex.check(st, z3.Or(w.dying(st, k)), 'the continuation list is accessed only with the lock held')
    def dying(w, st, k):
        p = w.sb[k][2].add(8); v = st.mem[p.r].cells[p.o][1]; return to_bv(v, 32) == 0
    def excl(w, st, k): p = w.sb[k][2].add(8); v = st.mem[p.r].cells[p.o][1]; return z3.ULE(to_bv(v, 32), 1) if w.sb[k][0] != 'M' else z3.BoolVal(True)
    def hload(w, ex, st, p, ty, ins):
        if not isinstance(p, Ptr) or st.g.get('free'): return None
        for k, (t, b, c) in w.sb.items():
            if p.r == b.r and p.o == b.o + w.off[t]['ready'] and k not in w.mon.held(st):
                g = w.ghost(st, k)
                if g['prod'] or ex.must(st, to_bool(g['R'])): return None
                n = fresh('ready', 'bool'); st.assume(z3.Implies(to_bool(g['R']), n)); w.setready(st, k, n); return None
        return None
    def newlist(w, st, k, n):
        p = w.at(st, k, 'then')
        if w.sb[k][0] == 'M':
            e, t = fresh('executor'), fresh('task'); st.assume(z3.Implies(n == 0, z3.And(e == 0, t == 0)), z3.Implies(n == 1, z3.And(e > 0, t > 0)))
            for o, v in ((0, e), (32, t)): w.ex.put(st, p.r, p.o + o, 32, UNDEF); del st.reg(p.r).cells[p.o + o]; w.ex.put(st, p.r, p.o + o, 8, v)
            K = lambda v: z3.K(z3.IntSort(), v); return ('m', n, K(e), K(t), 0)
        r = w.vec.init(st, p, n); R = st.reg(r); i = z3.Int('i')
        for o, nm in ((0, 'executor'), (32, 'task')):
            a = z3.Array('%s!%d' % (nm, next(_k)), z3.IntSort(), z3.IntSort()); R.cells[(o, 8)] = a; st.assume(z3.ForAll([i], z3.Select(a, i) > 0))
        return (r, n, R.cells[(0, 8)], R.cells[(32, 8)], 0)
    def lst(w, st, k):
        """the list as stored: (region, lo, hi, executors, tasks) or concrete move-only pair"""
        p = w.at(st, k, 'then')
        if w.sb[k][0] == 'M': return ('m', w.tokat(st, p) if w.isfun(st, p) else None, w.tokat(st, p.add(32)))
        c = st.mem[p.r].cells; a, b = c[p.o][1], c[p.o + 8][1]
        if not isinstance(a, Ptr): return (None, z3.IntVal(0), z3.IntVal(0), None, None)
        R = st.mem[a.r]; return (a.r, zi(w.vec.idx(a)), zi(w.vec.idx(b)), R.cells[(0, 8)], R.cells[(32, 8)])
    def tokat(w, st, p):
        c = st.mem[p.r].cells.get(p.o); return c[1] if c and is_tok(c[1]) else None
    def on_lock(w, ex, st, k):
        if k not in w.sb: return
        st.g['free'] = True; g = w.ghost(st, k); n = fresh('attached')
        if not g['prod'] and not ex.must(st, to_bool(g['R'])):
            r = fresh('ready', 'bool'); st.assume(z3.Implies(to_bool(g['R']), r)); w.setready(st, k, r)
        st.assume(n >= 0, z3.Implies(w.ready(st, k), n == 0), z3.BoolVal(True) if w.sb[k][0] != 'M' else n <= 1)
        if g.get('single'): K = z3.K(z3.IntSort(), z3.IntVal(0)); l = ('m', z3.IntVal(0), K, K, 0)      # the only handle attaches: nothing is attached yet
        else: l = w.newlist(st, k, n)
        w.f(st, k, pre=(w.ready(st, k), l)); st.g['free'] = False
    def empty_pair(w, st, p):
        """is the concrete move-only slot empty (default std::function and task)?"""
        m = st.mem[p.r].cells.get(p.o + 16); return m is None or isinstance(m[1], Null) or m[1] == 0
    def on_unlock(w, ex, st, k):
        if k not in w.sb: return
        g = w.ghost(st, k); R0, (rg, n0, ea, ta, _) = g['pre']; R0, R1 = to_bool(R0), to_bool(w.rdready(st, k)); prod = bool(g['prod']); w.f(st, k, R=R1, pre=None)
        ex.check(st, z3.Implies(R0, R1), 'a ready future stays ready')
        ex.check(st, z3.Implies(R1, z3.Or(R0, z3.BoolVal(prod))), 'only the producer makes the future ready')
        L = w.lst(st, k); app = len(st.g.get('app', [])) - st.g.get('app0', 0); st.g['app0'] = len(st.g.get('app', []))
        if L[0] == 'm':
            p = w.at(st, k, 'then')
            if L[1] is None and L[2] is None:          # a concrete pair
                if w.empty_pair(st, p): n1 = z3.IntVal(0); same = n0 == 0
                else:                                  # overwritten: a continuation was attached
                    t = Ptr(ex.new_region(st, w.PS, 'continuation')); st.g['free'] = True; ex.memcpy(st, t, p, w.PS); w.f(st, k, single=False); w.newlist(st, k, z3.IntVal(1)); st.g['free'] = False; st.g['app'] = st.g.get('app', []) + [t.r]; st.g['app0'] = len(st.g['app']); app = 1
                    ex.check(st, n0 == 0, 'no attached continuation is overwritten'); n1 = z3.IntVal(1); same = z3.BoolVal(True)
            elif L[1] is None or L[2] is None: ex.check(st, False, 'executor and continuation are stored together'); raise Infeasible()
            else:
                n1 = z3.If(L[2] > 0, z3.IntVal(1), z3.IntVal(0)); ex.check(st, (L[1] > 0) == (L[2] > 0), 'executor and continuation are stored together'); same = z3.And(z3.Implies(n1 == 1, z3.And(L[1] == z3.Select(ea, 0), L[2] == z3.Select(ta, 0))))
        else:
            i = fresh('any'); n1 = L[2] - L[1]
            same = z3.Implies(z3.And(0 <= i, i < z3.If(n0 < n1, n0, n1)), z3.And(z3.Select(L[3], L[1] + i) == z3.Select(ea, i), z3.Select(L[4], L[1] + i) == z3.Select(ta, i))) if L[0] is not None else z3.BoolVal(True)
        ex.check(st, z3.Implies(R1, n1 == 0), 'no continuation stays behind in the list once the future is ready')
        if ex.must(st, z3.Or(R0, z3.Not(R1))):
            ex.check(st, z3.And(same, n1 == (n0 + app if L[0] != 'm' else (1 if app else n0))), 'attached continuations stay in the list, in order, until the future becomes ready')
            ex.check(st, z3.Or(app == 0, z3.Not(R1)), 'a continuation is put in the list only while the future is not ready')
        elif ex.must(st, z3.And(R1, z3.Not(R0))):
            e, v, x = w.result(st, k); ex.check(st, z3.Xor(to_bool(e), x != 0), 'the result (a value or an exception) is in place before the future becomes ready'); ex.check(st, app == 0, 'the producer attaches nothing')
            st.g['taken'] = (n0, ea, ta, 0); st.g['takenr'] = rg; st.g['k'] = z3.IntVal(0); st.g['comp'] = k; st.g['ncomp'] = st.g.get('ncomp', 0) + 1; w.f(st, k, res=(e, v, x))
        else: raise ToolLimit('readiness is not decided at unlock')
    # ---- loop over the taken list
    def orig(w, st, p):
        """the list as it was when taken, for the array cells of its region"""
        n, ea, ta, b = st.g['taken'] 
        return None if p[0] != 'arr' or p[1] != st.g.get('takenr') else {(0, 8): ea, (32, 8): ta}.get(p[2])
    def lrel(w, ex, st, vals):
        if 'taken' not in st.g: return None
        out = []; k, n = st.g['k'], st.g['taken'][0]
        for p, v in sorted(vals.items(), key=lambda x: repr(x[0])):
            if p[0] == 'arr':
                o = w.orig(st, p); i = fresh('any'); out.append((p, 'rest' if o is not None and ex.must(st, z3.Implies(i >= k, z3.Select(v, i) == z3.Select(o, i))) else '?'))
            elif isinstance(v, Ptr) and v.i is not None and st.mem[v.r].kind == 'indexed':
                i = w.vec.idx(v); out.append((p, 'k' if ex.must(st, zi(i) == k) else 'n' if ex.must(st, zi(i) == n) else 'left' if ex.must(st, zi(i) == n - k) else '?', v.o % w.PS))
            elif isinstance(v, int) or is_tok(v): out.append((p, 'k' if ex.must(st, zi(v) == k) else 'left' if ex.must(st, zi(v) == n - k) else '?'))
            else: out.append((p, '?'))
        tied = any(o[1] in ('k', 'left', 'rest') for o in out)      # the loop runs over the taken list
        return (tuple(out), bool(w.mon.held(st)), tied, None if tied or ex.in_disc else str(simp(zi(k))))
    def lgen(w, ex, st, vals):
        if 'taken' not in st.g or not ex.last_rel[2]: return {}
        k = fresh('k'); n = st.g['taken'][0]; st.assume(0 <= k, k <= n); st.g['k'] = k; tied = {}
        for (p, kind, *o) in ex.last_rel[0]:
            v = vals[p]; x = {'k': k, 'left': simp(n - k), 'n': n}.get(kind)
            if kind == 'rest':
                a = z3.Const('rest!%d' % next(_k), v.sort()); i = z3.Int('i'); st.assume(z3.ForAll([i], z3.Implies(i >= k, z3.Select(a, i) == z3.Select(w.orig(st, p), i)))); tied[p] = a
            elif x is not None: tied[p] = Ptr(v.r, x, o[0]) if isinstance(v, Ptr) else x
        return tied
    # ---- helpers for units
    def one(w, st, f, a):
        o = w.ex.invoke_fn(st, f, a)
        if len(o) != 1 or not isinstance(o[0][1], Ret): raise ToolLimit('%s is expected to return once (%d)' % (f, len(o)))
        return o[0][0], o[0][1].v
    def obj(w, st, size, what, tok=None):
        p = Ptr(w.ex.new_region(st, size, what))
        if tok is not None: w.put(st, p, tok); st.assume(tok > 0)
        return p
    def completed(w, st, k, val=None, exc=None):
        """obligations on a state completed by the code under verification"""
        ex = w.ex; g = w.ghost(st, k); ex.check(st, w.ready(st, k), 'the future becomes ready')
        if 'taken' not in st.g or st.g.get('comp') != k: ex.check(st, False, 'the future becomes ready (with its continuations taken)'); return
        ex.check(st, st.g['ncomp'] == 1, 'the future becomes ready exactly once')
        ex.check(st, st.g['k'] == st.g['taken'][0], 'every attached continuation is scheduled')
        for what, (e, v, x) in (('when it became ready', g['res']), ('afterwards', w.result(st, k))):
            if exc is not None: ex.check(st, z3.And(z3.Not(to_bool(e)), x == exc), 'the result is that exception ' + what)
            else:
                ex.check(st, z3.And(to_bool(e), x == 0), 'the result is a value ' + what)
                if w.sb[k][0] != 'O': ex.check(st, v == val, 'the result is the value returned ' + what)
    def pending(w, st, k):
        w.ex.check(st, z3.Not(w.ready(st, k)), 'the future is not ready yet'); e, v, x = w.result(st, k); w.ex.check(st, z3.And(z3.Not(to_bool(e)), x == 0), 'a pending future has no result')
import itertools
_k = itertools.count()
