"""when_all / when_any: monitor invariant of the shared context, the reporting closures and the final function (shared by C12, C13).

Futures are opaque here (their contracts are C09-C11): an input future i has a fixed outcome OK[i], VAL[i], ERR[i]; recover() registers a
closure, package() a function.  The context is shared by the attaching thread and one reporting closure per input.  At every lock the
context is ANY state that satisfies the invariant (the other inputs may have reported in any order); at every unlock it must satisfy it
again, and the critical section must be a report of this closure's input, the storing of the hold just created, or no change."""
from .fut import *
from .fut import _k
And, Or, Not, If, Sel = z3.And, z3.Or, z3.Not, z3.If, z3.Select
MAX = (1 << 64) - 1
ASSUMPTIONS = ['futures are used through their contracts (C09-C11): recover() registers its closure, which later runs at most once with the completed future; package() stores its function',
  'std::mutex gives mutual exclusion; at every lock the other inputs may have reported in any order (context havocked subject to the invariant)',
  'values and callables are opaque: copies are equal, moves transfer, moves and copies of values do not throw', 'shared_ptr/weak_ptr/make_shared run as real libstdc++ code; std::vector sizing is an assumed contract; exception_ptr primitives are assumed contracts',
  'the number of futures in a range is below 2^31']
def wbat(args, flags, t=240): return dict(src='when.cpp', args=args, flags=flags, timeout=t, hang_is_failure=True, repo_src=RS)
MODES = {'all0': dict(all=1, n=0, t=''), 'all3': dict(all=1, n=3, t='VOM'), 'any3': dict(all=0, n=3, t='VVV'), 'any3o': dict(all=0, n=3, t='OOO'), 'anyM': dict(all=0, n=2, t='MM'),
  'allr': dict(all=1, t='V'), 'allro': dict(all=1, t='O'), 'allrM': dict(all=1, t='M'), 'anyr': dict(all=0, t='V'), 'anyro': dict(all=0, t='O'), 'anyrM': dict(all=0, t='M')}
TITLE = {'all0': 'when_all(f)', 'all3': 'when_all(f, future<V>, future<void>, future<M>)', 'any3': 'when_any(f, 3 x future<V>)', 'any3o': 'when_any(f, 3 x future<void>)', 'anyM': 'when_any(f, 2 x future<M>)',
  'allr': 'when_all(range of future<V>)', 'allro': 'when_all(range of future<void>)', 'allrM': 'when_all(range of future<M>)', 'anyr': 'when_any(range of future<V>)', 'anyro': 'when_any(range of future<void>)', 'anyrM': 'when_any(range of future<M>)'}
def zb(v): return to_bv(v, 64)
class When(World):
    def __init__(w, ex, mode):
        w.ex = ex; w.mode = mode; w.c = MODES[mode]; w.rng = 'n' not in w.c; w.on_call = None; w.inner = None; w.T3 = w.c['t'] if not w.rng else None
        ex.hooks['extern_global'] = extern_global; install_refcount(ex); install_typeinfo(ex); w.mon = Monitor(ex, w.on_lock, w.on_unlock)
        ex.hooks['index'] = lambda ex, st, i: z3.BV2Int(z3.simplify(i)) if ex.must(st, i >= 0) else bv_index(i)
        w.BROKEN = z3.Int('broken_promise'); ex.axioms.append(w.BROKEN > 0)
        w.OK, w.VAL, w.ERR = (z3.Function(n, z3.IntSort(), s) for n, s in (('succeeds', z3.BoolSort()), ('value_of', z3.IntSort()), ('error_of', z3.IntSort())))
        i = z3.Int('i'); ex.axioms += [z3.ForAll([i], w.VAL(i) > 0), z3.ForAll([i], w.ERR(i) > 0)]
        w.FUT = z3.Array('inputs', z3.IntSort(), z3.IntSort()); ex.axioms.append(z3.ForAll([i], Sel(w.FUT, i) > 0))
        w.values(); w.exceptions(); w.futures(); w.vectors(); ex.contract(lambda n, d: d in ('V::V()', 'M::M()'), lambda ex, st, a, ins: (w.put(st, a[0], (lambda t: (st.assume(t > 0), t)[1])(fresh('default'))), Ret(None))[1], 'opaque default construction', True); w.off = {}
        s = State(); w.off = [ex.invoke_fn(s, 'off_' + mode, [k])[0][1].v for k in range(11)]
        ex.contract('o_exec', w.o_exec, 'the user executor', True)
        ex.loopspecs.append(lambda ex, st, f, hd: TagLoop('loop of ' + short(f.dem), w.lrel, w.lgen, skip=('held', 'locks', 'free', 'ctl', 'ctx', 'fn', 'rep', 'ok', 'execs'), reset=w.lreset) if 'stlab::' in f.dem and w.rng else None)
    # ---- opaque values also live in sequences
    def put(w, st, p, t):
        if st.mem[p.r].kind == 'indexed': w.ex.store(st, p, t, I64)
        else: World.put(w, st, p, t)
    def alive(w, st, p, what):
        if st.mem[p.r].kind == 'indexed': return w.ex.load(st, p, I64)
        return World.alive(w, st, p, what)
    # ---- contracts of futures, packaged tasks, package()
    def futures(w):
        ex = w.ex
        def of(cls, f): return lambda n, d: 'stlab' in d and (lambda c: len(c[0]) >= 2 and c[0][0] == 'stlab' and base(c[0][-1]) == cls and f(c[1], c[2], c[0][-1]))(cxx(d))
        def dem(ins): return ex.mod.funcs[ex.val(ex.cur_state, ins.x).name].dem
        def tk(st, p):
            v = w.ex.load(st, p, I64)
            return z3.IntVal(v) if isinstance(v, int) else v
        w.tk = tk
        def dflt(ex, st, a, ins): w.put(st, a[0], z3.IntVal(0)); return Ret(None)
        def mv(ex, st, a, ins): t = tk(st, a[1]); w.put(st, a[0], t); w.put(st, a[1], z3.IntVal(0)); return Ret(None)
        def cp(ex, st, a, ins): t = tk(st, a[1]); w.put(st, a[0], t); return Ret(None)
        def lose(st, t, what):
            o = st.g.get('open')
            if o is not None: ex.check(st, t != o[1], 'the hold of an input is kept, its continuation is not cancelled')
            if w.mon.held(st) and not st.g.get('free'): ex.check(st, Or(t == 0, w.ownhold(st, t)), 'no input is cancelled with the lock held: cancelling runs code of others')
        w.lose = lose
        def sw(ex, st, a, ins): t = tk(st, a[0]); w.put(st, a[0], tk(st, a[1])); w.put(st, a[1], t); return Ret(None)
        def am(ex, st, a, ins): t = tk(st, a[1]); lose(st, tk(st, a[0]), 0); w.put(st, a[1], z3.IntVal(0)); w.put(st, a[0], t); return Ret(a[0])
        def ac(ex, st, a, ins): t = tk(st, a[1]); lose(st, tk(st, a[0]), 0); w.put(st, a[0], t); return Ret(a[0])
        def rs(ex, st, a, ins): lose(st, tk(st, a[0]), 0); w.put(st, a[0], z3.IntVal(0)); return Ret(None)
        def dt(ex, st, a, ins): lose(st, tk(st, a[0]), 0); return Ret(None)
        F = lambda m, h, l: ex.contract(of('future', m), h, 'future: ' + l)
        F(lambda m, p, c: m == 'future' and p == '', dflt, 'default construction'); F(lambda m, p, c: m == 'future' and p.endswith('&&'), mv, 'move'); F(lambda m, p, c: m == 'future' and p.endswith('const&'), cp, 'copy')
        F(lambda m, p, c: m == 'operator=' and p.endswith('&&'), am, 'move assignment'); F(lambda m, p, c: m == 'operator=' and p.endswith('const&'), ac, 'copy assignment'); F(lambda m, p, c: m == 'reset', rs, 'reset'); F(lambda m, p, c: m == 'swap' and ',' not in p, sw, 'swap'); F(lambda m, p, c: m == '~future', dt, 'destruction')
        F(lambda m, p, c: m == 'valid', lambda ex, st, a, ins: Ret(simp(tk(st, a[0]) != 0)), 'valid')
        F(lambda m, p, c: m == 'is_ready', lambda ex, st, a, ins: Ret(1), 'is_ready (of a completed input)')
        def exc(ex, st, a, ins):
            t = tk(st, a[1]); o = w.cases(st, w.OK(t)); 
            for s2, ok in o: ex.store(s2, a[0], NULL if ok else Tok(w.ERR(t)), PTR)
            return [(s2, Ret(None)) for s2, ok in o]
        F(lambda m, p, c: m == 'exception', exc, 'exception')
        def err(ex, st, a, ins):
            t = tk(st, a[1]); o = w.cases(st, w.OK(t))
            for s2, ok in o:
                if not ok: ex.store(s2, a[0], Tok(w.ERR(t)), PTR)
                ex.store(s2, a[0].add(8), 0 if ok else 1, I8)
            return [(s2, Ret(None)) for s2, ok in o]
        F(lambda m, p, c: m == 'error', err, 'error')
        def get(opt):
            def h(ex, st, a, ins):
                d = dem(ins); void = split_args(cxx(d)[0][-1][7:-1])[0].strip() == 'void'; t = tk(st, a[0] if void else a[1]); out = []
                ex.check(st, t > 0, 'a completed future is read')
                for s2, ok in w.cases(st, w.OK(t)):
                    if not ok: out.append((s2, Throw(Exc(w.ERR(t), '_ZTI_user')))); continue
                    if void: out.append((s2, Ret(1 if opt else None))); continue
                    w.put(s2, a[0], w.VAL(t))
                    if opt: ex.store(s2, a[0].add(8), 1, I8)
                    out.append((s2, Ret(None)))
                return out
            return h
        F(lambda m, p, c: m == 'get_try', get(True), 'get_try'); F(lambda m, p, c: m == 'get_ready', get(False), 'get_ready')
        F(lambda m, p, c: m == 'recover', w.recover, 'recover')
        P = lambda m, h, l: ex.contract(of('packaged_task', m), h, 'packaged_task: ' + l)
        P(lambda m, p, c: m == 'packaged_task' and p == '', dflt, 'default construction'); P(lambda m, p, c: m == 'packaged_task' and 'packaged_task' in p, mv, 'move')
        def pas(ex, st, a, ins): t = tk(st, a[1]); ex.check(st, tk(st, a[0]) <= 0, 'the packaged task is not overwritten'); w.put(st, a[1], z3.IntVal(0)); w.put(st, a[0], t); return Ret(a[0])
        def pd(ex, st, a, ins): ex.check(st, tk(st, a[0]) <= 0, 'the packaged task that calls the continuation is not lost'); return Ret(None)
        def pr(ex, st, a, ins):
            w.deliver(st); t = tk(st, a[0]); ex.check(st, t == w.task(st), 'the packaged task run is the one of this operation')
            w.put(st, a[0], z3.IntVal(0)); st.g['ran'] = st.g.get('ran', 0) + 1; return Ret(None)
        P(lambda m, p, c: m == 'operator=', pas, 'move assignment'); P(lambda m, p, c: m == '~packaged_task', pd, 'destruction'); P(lambda m, p, c: m == 'opcall', pr, 'invocation')
        ex.contract(lambda n, d: d.startswith('std::pair<stlab') and 'package<' in d and cxx(d)[1] == 'package' and cxx(d)[0][:1] == ('stlab',) and len(cxx(d)[0]) == 2, w.package, 'package()')
        def brk(ex, st, a, ins): st.g['brokenfut'] = True; w.put(st, a[0], z3.IntVal(7777)); st.g['bexec'] = w.eid(a[1]); return Ret(None)
        ex.contract(lambda n, d: 'future_with_broken_promise<' in d and cxx(d)[1] == 'future_with_broken_promise', brk, 'future_with_broken_promise (C10)')
    def ownhold(w, st, t):
        """the hold of the input whose report is running (its task is alive, nothing is cancelled)"""
        if 'pre' not in st.g or 'own' not in st.g: return z3.BoolVal(False)
        h = st.g['pre']['v']['holds']; return t == (h[st.g['own']] if not w.rng else Sel(h, st.g['own']))
    def deliver(w, st):
        """no lock is held while the continuation may run, unless every input has reported and none will need the lock"""
        if not w.mon.held(st): return
        g = st.g['pre']['g'] if 'pre' in st.g and 'own' in st.g else None
        if g is None: w.ex.check(st, False, 'the result is delivered without a lock held'); return
        g = w.after(st, g, st.g['ok']); w.ex.check(st, And(*[Or(a, b) for a, b in zip(g['S'], g['F'])]) if not w.rng else g['c'] + g['f'] == w.n, 'the result is delivered without a lock held while inputs have yet to report')
    def eid(w, v): return z3.IntVal(v) if isinstance(v, int) else v
    def task(w, st): return st.g['task'] if 'task' in st.g else z3.IntVal(-1)
    def cases(w, st, c):
        """explores both truth values of c where feasible"""
        ex = w.ex
        if ex.must(st, c): return [(st, True)]
        if ex.must(st, Not(c)): return [(st, False)]
        s2 = st.fork(); st.assume(c); s2.assume(Not(c)); s2.path.append('input failed'); st.path.append('input succeeded'); return [(st, True), (s2, False)]
    def closure(w, ins, fname):
        """the call operator of the callable passed as last template argument"""
        d = w.ex.mod.funcs[w.ex.val(w.ex.cur_state, ins.x).name].dem; i = d.find(fname + '<'); j = i + len(fname) + 1; dep = 1; k = j
        dd = d
        for a, b in (('operator()', 'opcall**'), ('->', '**')): dd = dd.replace(a, b)
        while dep:
            if dd[k] in '<({[': dep += 1
            elif dd[k] in '>)}]': dep -= 1
            k += 1
        L = split_args(d[j:k - 1])[-1].strip().rstrip('&').strip()
        if L.endswith(' const'): L = L[:-6]
        c = [n for n, f in w.ex.mod.funcs.items() if (L + '::operator()') in f.dem and f.dem.split('(')[0] is not None and w.isop(f.dem, L)]
        if len(c) != 1: raise ToolLimit('call operator of %s: %d candidates' % (short(L), len(c)))
        return c[0]
    def isop(w, d, L):
        k = d.find(L + '::operator()')
        pre = d[:k].strip()
        return pre in ('', 'auto', 'void', 'decltype(auto)', 'V', 'M')
    def package(w, ex, st, a, ins):
        op = w.closure(ins, 'package'); ex.check(st, 'task' not in st.g, 'the function is packaged once'); ex.check(st, w.eid(a[1]) == w.e, 'the result is bound to the executor given'); t, f = fresh('task'), fresh('resultfuture'); st.assume(t > 0, f > 0)
        w.put(st, a[0], t); w.put(st, a[0].add(16), f); F = a[2]; R = st.mem[F.r]; n = R.size - F.o if R.size else 64
        d = Ptr(ex.new_region(st, n, 'packaged function')); ex.memcpy(st, d, F, n)
        for o, (sz, v) in list(st.mem[F.r].cells.items()):      # moved from: a captured shared_ptr is null now
            if o >= F.o and isinstance(v, Ptr): ex.put(st, F.r, o, sz, NULL)
            elif o >= F.o and is_tok(v): g = w.gone(st); ex.put(st, F.r, o, sz, g)
        st.g['task'] = t; st.g['rfut'] = f; st.g['fn'] = (op, d.r)
        ptr = [v for o, (sz, v) in sorted(st.mem[d.r].cells.items()) if isinstance(v, Ptr) and st.mem[v.r].heap and v.o > 0]
        if ptr: st.g['ctx'] = (ptr[0].r, ptr[0].o); st.reg(ptr[0].r).meta['access'] = w.access; st.g['ctl'] = next((v.o for o, (sz, v) in sorted(st.mem[d.r].cells.items()) if isinstance(v, Ptr) and v.r == ptr[0].r and v.o == 0), 0)
        return Ret(None)
    # ---- the context
    def at(w, st, k): r, o = st.g['ctx']; return Ptr(r, None, o + w.off[k])
    def free(w, st, v=True): st.g['free'] = v
    def rd(w, st, p, ty): f = st.g.get('free'); st.g['free'] = True; v = w.ex.load(st, p, ty); st.g['free'] = f; return v
    def seqreg(w, st, k):
        v = w.rd(st, w.at(st, k), PTR); return v.r if isinstance(v, Ptr) else None
    def view(w, st):
        m = w.mode; d = dict(rem=zb(w.rd(st, w.at(st, 3), I64)), exc=w.exval(w.rd(st, w.at(st, 4), PTR)))
        tok = lambda p: (lambda v: z3.IntVal(v) if isinstance(v, int) else v if is_tok(v) else z3.IntVal(-9))(w.rd(st, p, I64))
        opttok = lambda p: (lambda c: c[1] if c and is_tok(c[1]) else z3.IntVal(-9))(st.mem[p.r].cells.get(p.o))
        flag = lambda p: to_bv(w.rd(st, p, I8), 8) != 0
        if not w.rng:
            h = w.at(st, 2); d['holds'] = [tok(h.add(16 * i)) for i in range(w.c['n'])]
            if w.c['all']:
                d['eng'], d['val'] = [], []
                for i, t in enumerate(w.c['t']):
                    p = w.at(st, 8 + i); d['eng'].append(flag(p.add(1 if t == 'O' else 8))); d['val'].append(opttok(p) if t != 'O' else None)
            else:
                d['idx'] = zb(w.rd(st, w.at(st, 7), I64))
                if w.c['t'][0] != 'O': p = w.at(st, 8); d['aeng'] = flag(p.add(8)); d['aval'] = opttok(p)
        else:
            d['se'] = flag(w.at(st, 6)); hr = w.seqreg(st, 2); d['holds'] = st.mem[hr].cells.get((0, 8)) if hr is not None else None; d['hn'] = zi(st.mem[hr].meta['hi']) if hr is not None else z3.IntVal(0)
            if not w.c['all']: d['idx'] = zb(w.rd(st, w.at(st, 7), I64))
            if w.c['t'] != 'O':
                if w.c['all']:
                    rr = w.seqreg(st, 8); d['res'] = st.mem[rr].cells.get((0, 8)) if rr is not None else None; d['rn'] = zi(st.mem[rr].meta['hi']) if rr is not None else z3.IntVal(0)
                else: d['aval'] = tok(w.at(st, 8))
        return d
    def havoc(w, st):
        """the context becomes an arbitrary state that satisfies the invariant; returns the reports ghost"""
        ex = w.ex; w.free(st); g = w.newghost(st); c = st.g['ctx']; P = lambda k: w.at(st, k)
        def pt(p, sz, v): ex.put(st, p.r, p.o, sz, v)
        pt(P(3), 8, fresh('remaining', 'bv')); x = fresh('exception'); st.assume(x >= 0); pt(P(4), 8, Tok(x))
        def hold():
            h = fresh('hold'); st.assume(h >= 0, *([h != st.g['open'][1]] if st.g.get('open') else [])); return h
        if not w.rng:
            for i in range(w.c['n']): pt(P(2).add(16 * i), 8, hold())
            if w.c['all']:
                for i, t in enumerate(w.c['t']):
                    pt(P(8 + i).add(1 if t == 'O' else 8), 1, fresh('engaged', 'bv', 8)); e = st.mem[P(8).r].cells[P(8 + i).add(1 if t == 'O' else 8).o][1]; st.assume(z3.ULE(e, 1))
                    if t != 'O': v = fresh('stored'); st.assume(v > 0); pt(P(8 + i), 8, v)
            else:
                pt(P(7), 8, fresh('index', 'bv'))
                if w.c['t'][0] != 'O': e = fresh('engaged', 'bv', 8); st.assume(z3.ULE(e, 1)); pt(P(8).add(8), 1, e); v = fresh('stored'); st.assume(v > 0); pt(P(8), 8, v)
        else:
            e = fresh('event', 'bv', 8); st.assume(z3.ULE(e, 1)); pt(P(6), 1, e)
            def arr(r, n):
                if r is None: return
                a = z3.Array('%s!%d' % (n, next(_k)), z3.IntSort(), z3.IntSort()); i = z3.Int('i'); st.assume(z3.ForAll([i], And(Sel(a, i) >= 0, *([Sel(a, i) != st.g['open'][1]] if st.g.get('open') else [])))); st.reg(r).cells[(0, 8)] = a
            arr(w.seqreg(st, 2), 'holds')
            if not w.c['all']: pt(P(7), 8, fresh('index', 'bv'))
            if w.c['t'] != 'O':
                if w.c['all']: arr(w.seqreg(st, 8), 'results')
                else: v = fresh('stored'); st.assume(v > 0); pt(P(8), 8, v)
        v = w.view(st); st.assume(*[c for n, c in w.inv(st, v, g)]); o = st.g.get('open')
        if o: st.assume((v['holds'][o[0]] if not w.rng else Sel(v['holds'], zi(o[0]))) == 0)       # its hold has not been stored yet, reports store none
        w.free(st, False); return g
    # reports: per input for the fixed forms; counters and the set of successful inputs for ranges
    def N(w): return w.n if w.rng else w.c['n']
    def newghost(w, st):
        j = st.g.get('own')
        if not w.rng:
            S, F = [], []
            for i in range(w.c['n']):
                if j is not None and i == j or i >= st.g.get('natt', 0) + (1 if j is not None else 0): S.append(z3.BoolVal(False)); F.append(z3.BoolVal(False)); continue
                s, f = fresh('succeeded', 'bool'), fresh('failed', 'bool'); st.assume(Not(And(s, f))); S.append(s); F.append(f); t = w.fut[i]; st.assume(z3.Implies(s, w.OK(t)), z3.Implies(f, Not(w.OK(t))))
            return dict(S=S, F=F)
        c, f = fresh('succeeded', 'bv'), fresh('failed', 'bv'); st.assume(z3.ULE(c, w.n), z3.ULE(f, w.n), z3.ULE(c + f, w.n - 1 if j is not None else w.n)); s = z3.Array('succeeded!%d' % next(_k), z3.IntSort(), z3.BoolSort())
        win, err = fresh('first', 'bv'), fresh('failing'); st.assume(z3.ULT(win, w.n))
        if j is not None: st.assume(Not(Sel(s, j)))
        i = z3.Int('i'); st.assume(z3.Implies(c == 0, z3.ForAll([i], Not(Sel(s, i)))))
        wt = fresh('winner'); return dict(c=c, f=f, s=s, win=win, wt=wt, err=err)
    def after(w, st, g, ok):
        j = st.g['own']; t = st.g['x']
        if not w.rng:
            S, F = list(g['S']), list(g['F']); (S if ok else F)[j] = z3.BoolVal(True); return dict(S=S, F=F)
        h = dict(g)
        if ok: h['c'] = g['c'] + 1; h['s'] = z3.Store(g['s'], j, True); h['win'] = If(g['c'] == 0, st.g['kb'], g['win']); h['wt'] = If(g['c'] == 0, t, g['wt'])
        else: h['f'] = g['f'] + 1; h['err'] = If(g['f'] == 0, t, g['err']) if w.c['all'] else If(g['f'] + 1 == w.n, t, g['err'])
        return h
    def cnt(w, l): return z3.Sum([If(x, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)) for x in l]) if False else sum((If(x, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)) for x in l), z3.BitVecVal(0, 64))
    def decided(w, g):
        if not w.rng: return Or(And(*g['S']), Or(*g['F'])) if w.c['all'] else Or(And(*g['F']), Or(*g['S']))
        return Or(g['c'] == w.n, g['f'] != 0) if w.c['all'] else Or(g['f'] == w.n, g['c'] != 0)
    def inv(w, st, v, g):
        o = []; I = lambda n, c: o.append((n, c)); n = w.N(); n = z3.BitVecVal(n, 64) if isinstance(n, int) else n
        if not w.rng:
            S, F = g['S'], g['F']; cs, cf = w.cnt(S), w.cnt(F)
            if w.c['all']:
                I('the number of missing results is right', If(cf == 0, v['rem'] == n - cs, z3.And(z3.UGE(v['rem'], n - cs), z3.ULE(v['rem'], n))))
                I('the error is set exactly if an input failed, to the error of a failed input', And((v['exc'] != 0) == (cf != 0), Or(cf == 0, *[And(F[i], v['exc'] == w.ERR(w.fut[i])) for i in range(len(S))])))
                I('the results hold exactly the values of the inputs that succeeded, each in its place', And(*[And(z3.Implies(cf == 0, v['eng'][i] == S[i]), z3.Implies(v['eng'][i], And(S[i], v['val'][i] == w.VAL(w.fut[i]) if v['val'][i] is not None else True))) for i in range(len(S))]))
            else:
                I('the number of inputs that have not failed is right', If(cs == 0, v['rem'] == n - cf, And(z3.UGE(v['rem'], n - cf), z3.ULE(v['rem'], n))))
                I('an error is kept only if all inputs failed, and is the error of one of them', And(z3.Implies(cf == n, v['exc'] != 0), z3.Implies(v['exc'] != 0, And(cf == n, Or(*[And(F[i], v['exc'] == w.ERR(w.fut[i])) for i in range(len(S))])))))
                win = Or(*[And(S[i], v['idx'] == i, *([v['aeng'], v['aval'] == w.VAL(w.fut[i])] if 'aval' in v else [])) for i in range(len(S))])
                I('the winner is an input that succeeded, with its value and index', And((v['idx'] == MAX) == (cs == 0), Or(cs == 0, win)))
            return o
        c, f = g['c'], g['f']; F = lambda i: Sel(w.FUT, i)
        if w.c['all']:
            I('the number of missing results is right', If(f == 0, v['rem'] == n - c, And(z3.UGE(v['rem'], n - c), z3.ULE(v['rem'], n))))
            I('the error is set exactly if an input failed, to the error of the first that did', And(v['se'] == (f != 0), (v['exc'] != 0) == (f != 0), z3.Implies(f != 0, v['exc'] == w.ERR(g['err']))))
            if 'res' in v:
                i = z3.Int('i'); I('the results hold the values of the inputs that succeeded, each in its place', z3.ForAll([i], z3.Implies(And(Sel(g['s'], i), 0 <= i, i < w.ni), Sel(v['res'], i) == w.VAL(F(i)))))
        else:
            I('the number of inputs that have not failed is right', If(c == 0, v['rem'] == n - f, And(z3.UGE(v['rem'], n - f), z3.ULE(v['rem'], n))))
            I('an error is kept only if all inputs failed, and is the error of the last one', And((v['exc'] != 0) == (f == n), z3.Implies(f == n, v['exc'] == w.ERR(g['err']))))
            I('the winner is the first input that succeeded, with its value and index', And(v['se'] == (c != 0), z3.Implies(c != 0, And(v['idx'] == g['win'], v['aval'] == w.VAL(g['wt']) if 'aval' in v else True))))
        if 'hn' in v: I('there is one hold per input', v['hn'] == w.ni)
        if 'rn' in v: I('there is one result per input', v['rn'] == w.ni)
        return o
    def skolem(w, n, c):
        """an invariant conjunct as an obligation (forall -> arbitrary instance)"""
        if z3.is_quantifier(c): return z3.substitute_vars(c.body(), fresh('any'))
        return c
    def same(w, a, b, keys):
        o = [z3.BoolVal(True)]
        for k in keys:
            x, y = a.get(k), b.get(k)
            if x is None or y is None: continue
            if isinstance(x, list): o += [p == q for p, q in zip(x, y) if p is not None]
            elif z3.is_array(x): i = fresh('any'); o.append(z3.Implies(And(0 <= i, i < w.ni), Sel(x, i) == Sel(y, i)))
            else: o.append(x == y)
        return And(*o)
    STATE = ('rem', 'exc', 'eng', 'val', 'idx', 'aeng', 'aval', 'se', 'res')
    def on_lock(w, ex, st, k):
        if 'ctx' not in st.g or k != (st.g['ctx'][0], st.g['ctx'][1] + w.off[1]): return
        if not st.g.get('pub'): st.g['priv'] = True; return
        g = w.havoc(st); st.g['pre'] = dict(g=g, v=w.view(st))
    def on_unlock(w, ex, st, k):
        if st.g.pop('priv', None): return
        if 'pre' not in st.g: return
        g, v0 = st.g['pre']['g'], st.g['pre']['v']; v1 = w.view(st); del st.g['pre']; same = w.same(v0, v1, w.STATE); out = []
        if 'own' not in st.g:      # the attaching thread
            ex.check(st, same, 'attaching an input reports nothing'); o = st.g.get('open')
            if not w.rng:
                ch = [i for i in range(w.c['n']) if not ex.must(st, v0['holds'][i] == v1['holds'][i])]; ex.check(st, len(ch) <= 1, 'only the hold of the input being attached is stored')
                for i in ch:
                    ok = o is not None and i == o[0]; ex.check(st, ok, 'the hold is stored at the index of its input')
                    if ok: ex.check(st, v1['holds'][i] == o[1], 'the hold stored is that of the input just attached')
                    st.g['open'] = None
            else:
                i = fresh('any')
                if ex.must(st, z3.Implies(And(0 <= i, i < w.ni), Sel(v0['holds'], i) == Sel(v1['holds'], i))): pass
                else:
                    ex.check(st, o is not None and And(Sel(v1['holds'], zi(o[0])) == o[1], z3.Implies(And(i != zi(o[0]), 0 <= i, i < w.ni), Sel(v0['holds'], i) == Sel(v1['holds'], i))), 'the hold of the input just attached is stored at its index, the others are kept'); st.g['open'] = None
            return
        ok = st.g['ok']; ga = w.after(st, g, ok); before, aft = w.decided(g), w.decided(ga)
        for a, b in ([(Sel(v0['holds'], i), Sel(v1['holds'], i)) for i in [fresh('any')]] if w.rng else zip(v0['holds'], v1['holds'])): ex.check(st, Or(a == b, b == 0) if not w.rng else z3.Implies(And(0 <= a.arg(1), a.arg(1) < w.ni), Or(a == b, b == 0)), 'a report stores no hold')
        if not st.g.get('rep') and ex.must(st, And(same, Not(before))) : 
            ex.check(st, w.same(v0, v1, ('holds',)), 'no other input is cancelled before the outcome is decided'); return
        ex.check(st, not st.g.get('rep'), 'an input is reported once'); st.g['rep'] = True
        for n, c in w.inv(st, v1, ga): ex.check(st, w.skolem(n, c), 'after a report: ' + n)
        for n, keys in (('the first error', ('exc',)),) if w.c['all'] else (('the winner', ('idx', 'aeng', 'aval', 'exc')),):
            ex.check(st, z3.Implies(before, w.same(v0, v1, keys)), n + ' stays as decided')
        if w.c['all'] and not w.rng: ex.check(st, z3.Implies(before, w.same(v0, v1, ('eng', 'val'))), 'the results stay as they are once the outcome is decided')
        ex.check(st, Or(aft, w.same(v0, v1, ('holds',))), 'no other input is cancelled before the outcome is decided')
        st.g['duty'] = And(aft, Not(before)); st.g['was'] = before
    def access(w, ex, st, p, size, what):
        c = st.g.get('ctx')
        if not c or p.r != c[0] or st.g.get('free') or not st.g.get('pub') or st.g.get('final') or w.mon.held(st): return
        d = p.o - c[1]; o = w.off; F = [(o[3], 8, 'number of missing inputs'), (o[4], 8, 'error')]
        if not w.rng: F.append((o[2], 16 * w.c['n'], 'holds'))
        else: F.append((o[6], 1, 'state'))
        if not w.c['all']: F.append((o[7], 8, 'index'))
        if w.c['t'][0] != 'O' and not (w.rng and w.c['all']): F.append((o[8], 16 if not w.rng else 8, 'result'))
        if w.c['all'] and not w.rng: F += [(o[8], 16, 'results'), (o[9], 2, 'results'), (o[10], 16, 'results')]
        for a, n, nm in F:
            if d < a + n and d + size > a: ex.check(st, False, 'the %s of the shared context is accessed only with its lock held' % nm)
    # ---- publishing
    def publish(w, st):
        ex = w.ex
        if st.g.get('pub') or 'ctx' not in st.g: return
        v = w.view(st); g = dict(S=[z3.BoolVal(False)] * 3, F=[z3.BoolVal(False)] * 3) if not w.rng else dict(c=z3.BitVecVal(0, 64), f=z3.BitVecVal(0, 64), s=z3.K(z3.IntSort(), z3.BoolVal(False)), win=z3.BitVecVal(0, 64), wt=z3.IntVal(0), err=z3.IntVal(0))
        if not w.rng: g = {k: x[:w.c['n']] for k, x in g.items()}
        for n, c in w.inv(st, v, g): ex.check(st, w.skolem(n, c), 'before the first input is attached: ' + n)
        t = w.rd(st, w.at(st, 5), I64); ex.check(st, t == st.g['task'] if is_tok(t) else False, 'before the first input is attached: the task that calls the continuation is in place'); st.g['pub'] = True
    def input_of(w, st, t):
        if not w.rng: return next((i for i, f in enumerate(w.fut) if w.ex.must(st, t == f)), None)
        k = zi(st.g['k']); return k if w.ex.must(st, t == Sel(w.FUT, k)) else None
    def recover(w, ex, st, a, ins):
        d = ex.mod.funcs[ex.val(st, ins.x).name].dem; par = cxx(d)[2]; r, this, e, f = a[0], a[1], a[2], a[3]; t = w.tk(st, this)
        if 'ctx' not in st.g: ex.check(st, False, 'inputs are attached after the function was packaged'); raise Infeasible()
        w.publish(st); ex.check(st, not w.mon.held(st), 'an input is attached without the lock held'); ex.check(st, st.g.get('open') is None, 'the hold of every input is stored')
        ev = w.rd(st, e, I64); ex.check(st, w.eid(ev) == w.e, 'the inputs report on the executor given'); j = w.input_of(st, t)
        if w.rng: st.assume(z3.ULT(st.g['kb'], w.n)) if ex.must(st, zi(st.g['k']) != w.ni) else ex.check(st, z3.ULT(st.g['kb'], w.n), 'only inputs of the range are attached')
        ex.check(st, j is not None, 'every input is attached, in order')
        if j is None: raise Infeasible()
        ex.check(st, zi(j) == st.g.get('natt', 0) if not w.rng else True, 'every input is attached once, in order')
        h = fresh('hold'); st.assume(h > 0); op = w.closure(ins, 'recover')
        if not ex.in_disc: w.probe(st, j, t, f, op)
        if not d.rstrip().endswith('const &') and not d.rstrip().endswith('const&'): w.put(st, this, z3.IntVal(0))
        if w.rng: kb = st.g['kb']; st.g['kb'] = z3.simplify(kb + 1); st.g['k'] = z3.BV2Int(st.g['kb']); st.assume(st.g['k'] == z3.BV2Int(kb) + 1)      # below 2^31
        else: st.g['natt'] = j + 1
        w.put(st, r, h); st.g['open'] = (j, h); return Ret(None)
    def probe(w, st0, j, t, f, op):
        """the closure registered for input j runs, at any time"""
        ex = w.ex; fn = ex.mod.funcs[op]; n = 0; seen = w.seen
        for ok in (True, False):
            for gone in (False, True):
                st = st0.fork(); st.frames = st.frames[:]; st.path.append('input %s reports %s%s' % (simp(zi(j)), 'success' if ok else 'failure', ' after the result was abandoned' if gone else ''))
                st.assume(w.OK(t) if ok else Not(w.OK(t))); st.g.update(own=j if not w.rng else zi(j), x=t, ok=ok, open=None, ran=0, calls=[]); st.g.pop('rep', None); st.g.pop('duty', None)
                x = Ptr(ex.new_region(st, 16, 'completed input')); w.put(st, x, t); c = st.g['ctx']; cnt = Ptr(c[0], None, 8)
                if gone: ex.put(st, c[0], 8, 4, 0)
                save = ex.cur; ex.cur = w.title + ': report'
                for s2, o in ex.invoke_fn(st, op, [f, x]):
                    ex.check(s2, isinstance(o, Ret), 'reporting does not throw'); ex.check(s2, not w.mon.held(s2), 'the lock is released')
                    if gone: ex.check(s2, s2.g['ran'] == 0 and not s2.g.get('rep'), 'nothing happens once the result was abandoned'); seen.add('gone'); continue
                    ex.check(s2, bool(s2.g.get('rep')), 'the outcome of an input is reported')
                    if not s2.g.get('rep'): continue
                    duty = s2.g['duty']; ran = s2.g['ran']; ex.check(s2, ran <= 1 and (duty if ran else Not(duty)), 'the continuation is started exactly once, by the report that decides the outcome')
                    seen.add(('ok' if ok else 'fail') + ('!' if ran else ''))
                ex.cur = save
    # ---- sequences
    def vectors(w):
        ex = w.ex
        def mk(tok): return Vector(ex, tok, (0,), 'sequence')
        w.vf, w.vv = Vector(ex, 16, (0,), 'holds'), Vector(ex, 8, (0,), 'results')
        def sized(v, fromempty=False):
            def h(ex, st, a, ins):
                if fromempty:
                    r, lo, hi = v.bounds_of(st, a[0])
                    if r is not None and not ex.must(st, zi(lo) == zi(hi)): raise ToolLimit('resize of a vector with elements')
                n = a[1]; iv = bv_index(to_bv(n, 64)) if not (z3.is_expr(n) and z3.is_int(n)) and not isinstance(n, int) else n
                r = v.init(st, a[0], simp(zi(iv))); st.reg(r).cells[(0, 8)] = z3.K(z3.IntSort(), z3.IntVal(0)); return Ret(None)
            return h
        ex.contract(rx(r'(^|[ &])std::vector<stlab[^(]*future<void.*>::vector\(unsigned long'), sized(w.vf), 'std::vector<future<void>>(n)', True)
        ex.contract(rx(r'(^|[ &])std::vector<stlab[^(]*future<void.*>::resize\(unsigned long'), sized(w.vf, True), 'std::vector<future<void>>::resize', True)
        ex.contract(rx(r'(^|[ &])std::vector<[VM], std::allocator<[VM]> >::resize\(unsigned long'), sized(w.vv, True), 'std::vector<V>::resize', True)
        ex.contract(re.compile(r'^void std::(_Destroy|_Destroy_n|destroy)<'), lambda ex, st, a, ins: Ret(None), 'destruction of elements', True)
        def vdt(ex, st, a, ins):
            v = w.vf if 'future<' in ex.mod.funcs[ex.val(st, ins.x).name].dem else w.vv; r, lo, hi = v.bounds_of(st, a[0])
            if v is w.vf and r is not None and w.mon.held(st): i = fresh('any'); e = Sel(st.mem[r].cells[(0, 8)], i); ex.check(st, z3.Implies(And(zi(lo) <= i, i < zi(hi)), Or(e == 0, w.ownhold(st, e))), 'no input is cancelled with the lock held: cancelling runs code of others')
            return Ret(None)
        ex.contract(rx(r'(^|[ &])std::vector<([VM]|stlab[^(]*future<void.*)>::~vector\('), vdt, 'std::vector destruction', True)
        def vcopy(ex, st, a, ins):
            r, lo, hi = w.vv.bounds_of(st, a[1]); q = w.vv.init(st, a[0], hi)
            if r is not None: st.reg(q).cells[(0, 8)] = st.mem[r].cells[(0, 8)]
            return Ret(None)
        ex.contract(rx(r'^std::vector<[VM], std::allocator<[VM]> >::vector\(std::vector<[VM], std::allocator<[VM]> > const&\)'), vcopy, 'std::vector copy', True)
    # ---- loops over the range / over the holds
    def lreset(w, ex, st):
        if 'task' in st.g and not st.g.get('pub'): w.publish(st)
        st.g.setdefault('open', None)
    def lrel(w, ex, st, vals):
        out = []; k = zi(st.g['k']); held = bool(w.mon.held(st)) or 'own' in st.g
        for p, v in sorted(vals.items(), key=lambda x: repr(x[0])):
            if held: out.append((p, w.heldrel(st, p, v, vals))); continue
            if p[0] == 'arr': i = fresh('any'); out.append((p, 'rest' if p[1] == w.fr and ex.must(st, z3.Implies(i >= k, Sel(v, i) == Sel(w.FUT, i))) else '?'))
            elif isinstance(v, Ptr) and v.i is not None and v.r == w.fr: i = simp(zi(v.i) + v.o // 16) if v.o else v.i; out.append((p, 'k' if ex.must(st, zi(i) == k) else '?', v.o % 16))
            elif isinstance(v, int) or z3.is_expr(v) and (z3.is_bv(v) or z3.is_int(v)): out.append((p, 'kb' if z3.is_expr(v) and z3.is_bv(v) and v.size() == 64 and ex.must(st, v == st.g['kb']) or isinstance(v, int) and ex.must(st, st.g['kb'] == v) else 'ki' if is_tok(v) and ex.must(st, v == k) else '?'))
            else: out.append((p, '?'))
        return (tuple(out), held, st.g.get('open') is not None)
    def scalars(w, vals): return [(p, v) for p, v in sorted(vals.items(), key=lambda x: repr(x[0])) if p[0] != 'arr' and (isinstance(v, int) or z3.is_expr(v) and (z3.is_bv(v) and v.size() in (32, 64) or z3.is_int(v)))]
    def ival(w, st, v):
        if isinstance(v, int): return z3.IntVal(v)
        if z3.is_int(v): return v
        v = z3.simplify(v)
        if v.decl().kind() == z3.Z3_OP_BADD and v.num_args() == 2:      # valid for all bit vectors: no wrap, no carry lost
            c = v.arg(1) if z3.is_bv_value(v.arg(0)) else v.arg(0); st.assume(z3.Implies(v == c + 1, Or(v == 0, z3.BV2Int(v) == z3.BV2Int(c) + 1)))
        return z3.BV2Int(v)
    def heldrel(w, st, p, v, vals):
        """relations kept by loops of a report: holds of the context are unchanged or empty; a sequence is empty from a loop variable on"""
        ex = w.ex
        if 'pre' not in st.g or not w.rng: return '?'
        if any(q == p for q, _ in w.scalars(vals)): x = w.ival(st, v); return ('le',) if ex.must(st, And(0 <= x, x <= w.ni)) else '?'
        if p[0] != 'arr' or not z3.is_array(v) or v.sort().range() != z3.IntSort(): return '?'
        i = fresh('any'); rg = And(0 <= i, i < w.ni)
        if p[1] == w.seqreg(st, 2): h = st.g['pre']['v']['holds']; return 'sub' if ex.must(st, z3.Implies(rg, Or(Sel(v, i) == Sel(h, i), Sel(v, i) == 0))) else '?'
        z = []
        for q, x in w.scalars(vals):
            xi = w.ival(st, x)
            if ex.must(st, z3.Implies(And(i >= xi, rg), Sel(v, i) == 0)): z.append(q)
        return ('zero', tuple(z)) if z else '?'
    def heldgen(w, st, vals):
        tied = {}; ii = z3.Int('i'); rg = And(0 <= ii, ii < w.ni)
        def count(q):
            x = vals[q]; tied[q] = fresh('count') if z3.is_expr(x) and z3.is_int(x) else fresh('count', 'bv', x.size() if z3.is_expr(x) else q[3] * 8 if q[0] == 'mem' else w.ex.last_loop.w[q[1]].w)
        for (p, kind, *o) in ex_rel(w.ex):
            if kind == ('le',):
                if p not in tied: count(p)
                c = tied[p]; st.assume(0 <= w.ival(st, c), w.ival(st, c) <= w.ni)
                if not z3.is_int(c): c64 = c if c.size() == 64 else z3.ZeroExt(64 - c.size(), c); st.assume(z3.ULE(c64, w.n), z3.Implies(c64 != w.n, z3.BV2Int(c) < w.ni))       # the same in both arithmetics
        for (p, kind, *o) in ex_rel(w.ex):
            if kind == '?' or kind == ('le',): continue
            a = z3.Const('rest!%d' % next(_k), vals[p].sort()); tied[p] = a
            if kind == 'sub': h = st.g['pre']['v']['holds']; st.assume(z3.ForAll([ii], z3.Implies(rg, Or(Sel(a, ii) == Sel(h, ii), Sel(a, ii) == 0))))
            else:
                for q in kind[1]:
                    if q not in tied: count(q)
                    c = tied[q]; c = c if z3.is_int(c) else z3.BV2Int(c); st.assume(z3.ForAll([ii], z3.Implies(And(ii >= c, rg), Sel(a, ii) == 0)))
        return tied
    def lgen(w, ex, st, vals):
        if ex.last_rel[1]: return w.heldgen(st, vals)
        kb = fresh('k', 'bv'); k = z3.BV2Int(kb); st.assume(z3.ULE(kb, w.n), 0 <= k, k <= w.ni, z3.Implies(k == w.ni, kb == w.n)); st.g['k'] = k; st.g['kb'] = kb; tied = {}
        for (p, kind, *o) in ex.last_rel[0]:
            v = vals[p]
            if kind == 'rest': a = z3.Const('rest!%d' % next(_k), v.sort()); i = z3.Int('i'); st.assume(z3.ForAll([i], z3.Implies(i >= k, Sel(a, i) == Sel(w.FUT, i)))); tied[p] = a
            elif kind == 'k': tied[p] = Ptr(v.r, k, o[0])
            elif kind == 'kb': tied[p] = kb
            elif kind == 'ki': tied[p] = k
        return tied
    def o_exec(w, ex, st, a, ins):
        ex.check(st, not w.mon.held(st), 'the executor is called without a lock held'); ex.check(st, w.eid(a[0]) == w.e, 'the executor given is used'); st.g['execs'] = st.g.get('execs', 0) + 1
        o = ex.invoke_fn(st, 't_run', [a[1]]); return [(s2, r) for s2, r in o]
def ex_rel(ex): return ex.last_rel[0]
def setup(mode):
    ex = Engine(mod('when')); ex.cur = TITLE[mode]; ex.in_disc = False; ex.last_rel = None; ex.under_contract.add(TITLE[mode]); w = When(ex, mode); w.title = TITLE[mode]; w.seen = set(); s = State()
    w.e = fresh('executor'); s.assume(w.e > 0); w.g0 = fresh('fn'); s.assume(w.g0 > 0); w.r, w.ep, w.fp = w.obj(s, 16, 'result future'), w.obj(s, 8, 'executor', w.e), w.obj(s, 8, 'function', w.g0)
    if w.rng:
        w.n = z3.BitVec('N', 64); w.ni = z3.BV2Int(w.n); ex.axioms.append(z3.ULT(w.n, 1 << 31)); r = w.vf.region(s); w.vf.setrng(s, r, 0, w.ni); s.reg(r).cells[(0, 8)] = w.FUT; w.fr = r; s.g['k'] = z3.IntVal(0); s.g['kb'] = z3.BitVecVal(0, 64); ex.axioms += [0 <= w.ni, w.ni < 1 << 31]
    else:
        w.ni = z3.IntVal(w.c['n']); w.fut = [fresh('input%d' % i) for i in range(w.c['n'])]; s.assume(*[f > 0 for f in w.fut], *([z3.Distinct(*w.fut)] if w.fut else []))
    return ex, w, s
def attach(mode):
    ex, w, s = setup(mode)
    if w.rng: s.assume(w.n != 0); args = [Ptr(w.fr, 0, 0), Ptr(w.fr, w.ni, 0)]
    else: ps = [w.obj(s, 16, 'input %d' % i, f) for i, f in enumerate(w.fut)]; args = ps
    fin = []; n = 0
    for st, o in ex.invoke_fn(s, 'w_' + mode, [w.r, w.ep, w.fp] + args):
        ex.check(st, isinstance(o, Ret), 'attaching does not throw')
        if not isinstance(o, Ret): continue
        n += 1; ex.check(st, 'rfut' in st.g and w.rd(st, w.r, I64) == st.g['rfut'], 'the future returned is that of the packaged function'); ex.check(st, st.g.get('open') is None, 'the hold of every input is stored'); ex.check(st, not w.mon.held(st), 'the lock is released'); ex.check(st, not st.g.get('ran') and not st.g.get('calls'), 'attaching itself calls nothing')
        if w.rng: ex.check(st, zi(st.g['k']) == w.ni, 'every input is attached')
        else:
            ex.check(st, st.g.get('natt') == w.c['n'], 'every input is attached')
            for p in ps: ex.check(st, w.tk(st, p) == 0, 'the inputs are consumed')
        cnt = to_bv(ex.load(st, Ptr(st.g['ctx'][0], None, 8), I32), 32); ex.check(st, cnt == 1, 'the context lives as long as the result is wanted')
        if 'ctx' in st.g and 'fn' in st.g: fin.append(st)
    ex.check(s, n > 0 and w.seen >= {'ok', 'ok!', 'fail', 'fail!', 'gone'}, 'cover: attached; reports before, at and after the decision')
    for st in fin: final(ex, w, st, mode)
    return [ex]
def final(ex, w, st, mode):
    """the packaged function runs once the outcome is decided (the result is read by nobody else then)"""
    ex.cur = w.title + ': result'; seen = set(); op, reg = st.g['fn']; d = ex.mod.funcs[op].dem; void = False
    for ok in (True, False):
        s2 = st.fork(); s2.frames = []; s2.g.update(pub=True, own=None); s2.g.pop('own'); s2.g['natt'] = w.c.get('n', 0); g = w.havoc(s2); s2.g['final'] = True; s2.g['calls'] = []; s2.g['ran'] = 0; v = w.view(s2)
        if w.c['all']: s2.assume((And(*g['S']) if not w.rng else g['c'] == w.n) if ok else (Or(*g['F']) if not w.rng else g['f'] != 0))
        else: s2.assume((Or(*g['S']) if not w.rng else g['c'] != 0) if ok else (And(*g['F']) if not w.rng else g['f'] == w.n))
        if w.rng and w.c['all'] and ok: i = z3.Int('i'); s2.assume(z3.ForAll([i], z3.Implies(And(0 <= i, i < w.ni), Sel(g['s'], i))))
        res = []
        def on_call(s3, f, av, args): s3.g['seen'] = (list(av), [w.vv.bounds_of(s3, p) if w.rng and w.c['all'] and w.c['t'] != 'O' else None for p in args[:1]], [s3.mem[b.r].cells[(0, 8)] if False else None for b in []]); w.arg(s3, args)
        w.on_call = on_call; w.argseen = None
        r = Ptr(ex.new_region(s2, 16, 'result')); F = ex.mod.funcs[op]
        for s3, o in ex.invoke_fn(s2, op, [r, Ptr(reg)]):
            calls = s3.g['calls']
            if not ok:
                ex.check(s3, not calls, 'the continuation is not called when the operation failed'); ex.check(s3, isinstance(o, Throw) and w.xtok(s3, o.e) == v['exc'], 'the error is forwarded'); seen.add('fail'); continue
            ex.check(s3, len(calls) == 1, 'the continuation is called exactly once')
            if len(calls) != 1: continue
            f, av = calls[0]; ex.check(s3, f == w.g0, 'it is the continuation given'); w.checkargs(s3, av, v, g)
            if isinstance(o, Throw): ex.check(s3, s3.g.get('threw') is not None and w.xtok(s3, o.e) == s3.g['threw'], 'only what the continuation throws is thrown'); seen.add('threw')
            else: ex.check(s3, w.rd(s3, r, I64) == s3.g['returned'], 'the result is what the continuation returned'); seen.add('ok')
    ex.check(st, seen >= {'fail', 'threw', 'ok'}, 'cover: success, a throwing continuation, failure'); w.on_call = None
def arg(w, st, args):
    if w.rng and w.c['all'] and w.c['t'] != 'O' and args:
        r, lo, hi = w.vv.bounds_of(st, args[0]); st.g['vec'] = (zi(lo), zi(hi), st.mem[r].cells[(0, 8)]) if r is not None else (z3.IntVal(0), z3.IntVal(0), None)
def checkargs(w, st, av, v, g):
    ex = w.ex
    if w.c['all'] and not w.rng:
        want = [w.VAL(w.fut[i]) for i, t in enumerate(w.c['t']) if t != 'O']; ex.check(st, len(av) == len(want) and And(*[a == x for a, x in zip(av, want)]), 'the continuation receives the values of the inputs in order (void ones left out)')
    elif w.c['all']:
        if w.c['t'] == 'O': ex.check(st, len(av) == 0, 'the continuation of void inputs receives nothing'); return
        lo, hi, a = st.g['vec']; i = fresh('any'); ex.check(st, And(lo == 0, hi == w.ni), 'the continuation receives one value per input')
        if a is not None: ex.check(st, z3.Implies(And(0 <= i, i < w.ni), Sel(a, i) == w.VAL(Sel(w.FUT, i))), 'the continuation receives the values of the inputs in order')
    else:
        void = w.c['t'][0] == 'O'; ex.check(st, len(av) == (1 if void else 2), 'the continuation receives the value and the index'); 
        if len(av) != (1 if void else 2): return
        ex.check(st, zb(av[-1]) == v['idx'], 'the index is that of the winner')
        if not void: ex.check(st, av[0] == v['aval'], 'the value is that of the winner')
When.arg = arg; When.checkargs = checkargs
def empty(mode):
    ex, w, s = setup(mode); ex.cur += ': empty range'; s.assume(w.n == 0); n = 0; seen = set()
    for st, o in ex.invoke_fn(s, 'w_' + mode, [w.r, w.ep, w.fp, Ptr(w.fr, 0, 0), Ptr(w.fr, w.ni, 0)]):
        ex.check(st, isinstance(o, Ret), 'does not throw'); ex.check(st, zi(st.g['k']) == 0, 'no input is touched'); n += 1
        if not w.c['all']: ex.check(st, bool(st.g.get('brokenfut')) and w.tk(st, w.r) == 7777, 'when_any of nothing is a broken promise'); continue
        ex.check(st, 'rfut' in st.g and w.tk(st, w.r) == st.g['rfut'], 'the future returned is that of the packaged function')
        ex.check(st, st.g.get('execs') == 1 and st.g.get('ran') == 1, 'the continuation is started once, through the executor')
        if 'fn' not in st.g: continue
        op, reg = st.g['fn']; r = Ptr(ex.new_region(st, 16, 'result')); s2 = st.fork(); s2.frames = []; s2.g['calls'] = []; w.on_call = lambda s3, f, av, args: w.arg(s3, args)
        for s3, o in ex.invoke_fn(s2, op, [r, Ptr(reg)]):
            c = s3.g['calls']; ex.check(s3, len(c) == 1 and c[0][0] == w.g0, 'the continuation is called exactly once')
            if w.c['t'] != 'O': lo, hi, a = s3.g['vec']; ex.check(s3, lo == hi, 'it receives an empty list')
            if isinstance(o, Ret): ex.check(s3, w.rd(s3, r, I64) == s3.g['returned'], 'the result is what the continuation returned'); seen.add('ok')
    ex.check(s, n > 0 and (not w.c['all'] or 'ok' in seen), 'cover: empty range'); return [ex]
def zero(mode):
    """no input at all: the continuation is started once, through the executor"""
    ex, w, s = setup(mode); ex.cur += ': no input'; n = 0; seen = set()
    for st, o in ex.invoke_fn(s, 'w_' + mode, [w.r, w.ep, w.fp]):
        ex.check(st, isinstance(o, Ret), 'does not throw'); n += 1; ex.check(st, 'rfut' in st.g and w.tk(st, w.r) == st.g['rfut'], 'the future returned is that of the packaged function')
        ex.check(st, st.g.get('execs') == 1 and st.g.get('ran') == 1, 'the continuation is started once, through the executor')
        if 'fn' not in st.g: continue
        op, reg = st.g['fn']; r = Ptr(ex.new_region(st, 16, 'result')); s2 = st.fork(); s2.frames = []; s2.g['calls'] = []
        for s3, o in ex.invoke_fn(s2, op, [r, Ptr(reg)]):
            c = s3.g['calls']; ex.check(s3, len(c) == 1 and c[0][0] == w.g0 and len(c[0][1]) == 0, 'the continuation is called exactly once, without arguments')
            if isinstance(o, Ret): ex.check(s3, w.rd(s3, r, I64) == s3.g['returned'], 'the result is what the continuation returned'); seen.add('ok')
    ex.check(s, n > 0 and 'ok' in seen, 'cover: no input'); return [ex]
def run(u): return {'attach': attach, 'empty': empty, 'zero': zero}[u[0]](u[1])
ALLU = [('zero', 'all0')] + [('attach', m) for m in MODES if MODES[m]['all'] and MODES[m].get('n') != 0] + [('empty', m) for m in MODES if MODES[m]['all'] and 'n' not in MODES[m]]
ANYU = [('attach', m) for m in MODES if not MODES[m]['all']] + [('empty', m) for m in MODES if not MODES[m]['all'] and 'n' not in MODES[m]]
