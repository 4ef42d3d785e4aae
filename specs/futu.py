"""Contract units over the futures driver: attach / package / promise / read."""
from .fut import *
And, Or, Not, If = z3.And, z3.Or, z3.Not, z3.If
FN = {'V': 'future<V>', 'O': 'future<void>', 'M': 'future<M>'}
def setup(name):
    ex = Engine(mod()); ex.cur = name; ex.under_contract.add(name.split(' [')[0]); w = World(ex); s = State(); return ex, w, s
def state(w, s, t, tag=''):
    """an arbitrary shared state: built by the real code, then owned by other threads (producer included)"""
    e0 = fresh('executor0'); s.assume(e0 > 0); g0 = fresh('producerfn')
    p, f, g = w.obj(s, 16, 'packaged task'), w.obj(s, 16, 'future'), w.obj(s, 8, 'producer', g0)
    s.g['free'] = True; s, _ = w.one(s, t + '_make', [p, f, e0, g]); s.g['free'] = False
    k = w.reg_sb(s, f, t); hv = fresh('hasvalue', 'bool'); v, x = fresh('value'), fresh('exception'); s.assume(v > 0, x > 0)
    R = fresh('ready', 'bool'); c = fresh('owners', 'bv', 32); s.assume(z3.UGE(c, 1), z3.ULE(c, 1 << 20))
    w.hide(s, k, hv, v, x, R); w.setrefs(s, k, c); w.f(s, k, R=R)
    # the list outside the lock: unknown (touching it unlocked is an obligation)
    s.g['free'] = True; n = fresh('n'); s.assume(n >= 0, z3.Implies(R, n == 0))
    if t == 'M': w.f(s, k, single=True)
    else: w.newlist(s, k, n)
    s.g['free'] = False
    return s, p, f, k, dict(e0=e0, hv=hv, v=v, x=x, R=R, c=c)
def res_of(ex, w, s2, k2, d, kind, t, k):
    """after the continuation ran: the callable was called as promised and its result is the result of the new future"""
    calls = s2.g.get('calls', [])
    if kind == 'then' and ex.must(s2, Not(d['hv'])):
        ex.check(s2, len(calls) == 0, 'the continuation is skipped when the antecedent failed'); w.completed(s2, k2, exc=d['x']); return
    if kind == 'then' and not ex.must(s2, d['hv']): raise ToolLimit('outcome of the antecedent is not decided')
    ex.check(s2, len(calls) == 1, 'the continuation is called exactly once')
    if len(calls) != 1: return
    f, a = calls[0]; ex.check(s2, f == d['f'], 'it is the continuation that was attached')
    if kind == 'then': ex.check(s2, len(a) == (0 if t == 'O' else 1) and (t == 'O' or a[0] == d['v']), 'the continuation receives exactly the value of its antecedent')
    else:
        ex.check(s2, len(a) == 1 and a[0][:3] == ('future', w.sb[k][1].r, w.sb[k][1].o), 'the continuation receives the completed antecedent')
    if s2.g.get('threw') is not None: w.completed(s2, k2, exc=s2.g['threw'])
    else: w.completed(s2, k2, val=s2.g.get('returned'))
KIND = {'then': 'then', 'ethen': 'then', 'or': 'then', 'eor': 'then', 'rec': 'rec', 'erec': 'rec', 'xor': 'rec', 'exor': 'rec'}
def attach(t, op, q, suf=''):
    """attach a continuation at any moment, then complete / cancel / drop it"""
    nm = {'then': 'then', 'ethen': 'then on an executor', 'or': 'operator|', 'eor': 'operator| with executor', 'rec': 'recover', 'erec': 'recover on an executor', 'xor': 'operator^', 'exor': 'operator^ with executor'}[op]
    if suf == '_o': nm += ' (void result)'
    ex, w, s = setup('%s::%s %s' % (FN[t], nm, {'l': 'const&', 'r': '&&'}[q])); kind = KIND[op]
    s, p, f, k, d = state(w, s, t); d['f'] = fresh('fn'); e1 = fresh('executor1'); s.assume(e1 > 0); want = e1 if op[0] == 'e' else d['e0']
    fp, r = w.obj(s, 8, 'continuation', d['f']), w.obj(s, 16, 'result future'); fb = ex.load(s, f, PTR); t2 = 'O' if suf == '_o' else 'V'
    if suf == '_f': w.inner = None
    n = 0; seen = set(); c0 = d['c']
    for st, o in ex.invoke_fn(s, '%s_%s%s_%s' % (t, op, suf, q), [f, e1, fp, r]):
        n += 1; ex.check(st, isinstance(o, Ret), 'attaching does not throw')
        if not isinstance(o, Ret): continue
        app, hd = st.g.get('app', []), st.g.get('handed', []); ex.check(st, len(app) + len(hd) == 1, 'the continuation is attached exactly once: put in the list or handed to its executor')
        ex.check(st, not st.g.get('calls'), 'attaching does not call the continuation itself'); ex.check(st, not w.mon.held(st), 'the lock is released')
        b2 = ex.load(st, f, PTR)
        if q == 'r': ex.check(st, isinstance(b2, Null), 'the future is consumed')
        else: ex.check(st, b2 == fb, 'the future is unchanged')
        if len(app) + len(hd) != 1: continue
        if hd:
            ex.check(st, hd[0][0] == want, 'a continuation of a ready future goes to the executor requested for it'); ex.check(st, w.ready(st, k), 'a continuation is handed to its executor directly only when the result is in place')
        st.g['free'] = True; k2 = w.reg_sb(st, r, t2, prod=True); st.g['free'] = False
        ex.check(st, w.refs(st, k2) == 1, 'the new future is the only owner of its state'); w.pending(st, k2)
        ex.check(st, w.refs(st, k) == (c0 + 1 if q == 'l' else c0), 'the continuation keeps its antecedent alive')
        # executor of the new state
        s3 = st.fork(); s3.frames = []; s3.g['handed'] = []; s3, _ = w.one(s3, t2 + '_exec', [w.sb[k2][1]])
        ex.check(s3, len(s3.g['handed']) == 1 and s3.g['handed'][0][0] == want, 'continuations of the new future default to the executor requested')
        seen.add('appended' if app else 'handed')
        for sc in ('run', 'cancel', 'drop'):
            s4 = st.fork(); s4.frames = []; s4.g['handed'] = list(hd); s4.path.append('then: ' + sc); starts = [s4]
            if sc == 'cancel':
                starts = []
                for s5, o5 in ex.invoke_fn(s4, t2 + '_drop', [r]):
                    ex.check(s5, isinstance(o5, Ret), 'dropping the new future does not throw'); starts.append(s5)
                    if s5.mem[w.sb[k][2].r].alive: ex.check(s5, w.refs(s5, k) == c0 - (0 if q == 'l' else 1), 'a cancelled continuation releases its antecedent')
                    else: ex.check(s5, c0 == 1 if q == 'r' else False, 'the antecedent is released only by its last owner')
            for s4 in starts:
                if s4.mem[w.sb[k][1].r].alive and not ex.must(s4, w.ready(s4, k)): w.setready(s4, k, z3.BoolVal(True))     # the producer completes
                if app: outs = ex.invoke_fn(s4, 'then_drop' if sc == 'drop' else 'then_run', [Ptr(app[0])])
                else: outs = [(s4, Ret(None))]
                for s5, o5 in outs:
                    ex.check(s5, isinstance(o5, Ret), 'scheduling does not throw')
                    if app and sc != 'drop':
                        ex.check(s5, len(s5.g['handed']) == 1 and s5.g['handed'][0][0] == want, 'the stored continuation goes to the executor requested for it')
                        if len(s5.g['handed']) != 1: continue
                    if app and sc == 'drop': fin = [(s5, Ret(None))]
                    else: fin = ex.invoke_fn(s5, 't_drop' if sc == 'drop' else 't_run', [Ptr(s5.g['handed'][0][1])])
                    for s6, o6 in fin:
                        ex.check(s6, isinstance(o6, Ret), 'running a continuation does not throw')
                        if sc == 'run': res_of(ex, w, s6, k2, d, kind, t, k); seen.add('run')
                        elif sc == 'cancel': ex.check(s6, not s6.g.get('calls'), 'a continuation nobody waits for any more is not called'); seen.add('cancel')
                        else: ex.check(s6, not s6.g.get('calls'), 'a dropped continuation is not called'); w.completed(s6, k2, exc=w.BROKEN); seen.add('drop')
    ex.check(s, seen >= {'appended', 'handed', 'run', 'cancel', 'drop'}, 'cover: attached before and after readiness; run, cancelled, dropped'); return [ex]
def detach(t, q):
    ex, w, s = setup('%s::detach%s' % (FN[t], ' with a continuation' if q else '')); s, p, f, k, d = state(w, s, t); d['f'] = fresh('fn'); fp = w.obj(s, 8, 'continuation', d['f']); seen = set(); c0 = d['c']; fb = ex.load(s, f, PTR)
    for st, o in ex.invoke_fn(s, t + ('_detach_r' if q else '_detach'), [f, 0, fp, NULL]):
        ex.check(st, isinstance(o, Ret), 'detaching does not throw'); app = st.g.get('app', []); calls = st.g.get('calls', []); ex.check(st, not st.g.get('handed'), 'detach schedules nothing on an executor')
        if not q:
            ex.check(st, ex.load(st, f, PTR) == fb, 'the future is unchanged'); ex.check(st, not calls, 'detach calls nothing')
            ex.check(st, len(app) <= 1, 'detach attaches at most one holder'); ex.check(st, Or(w.ready(st, k), len(app) == 1), 'detach of a pending future keeps it alive'); ex.check(st, w.refs(st, k) == c0 + len(app), 'the holder owns the state')
        else:
            ex.check(st, isinstance(ex.load(st, f, PTR), Null), 'the future is consumed'); ex.check(st, len(app) + len(calls) == 1, 'the continuation is attached or called exactly once')
            ex.check(st, Or(w.ready(st, k), not calls) if calls else True, 'the continuation is called directly only when the result is in place')
        if calls: ex.check(st, And(calls[0][0] == d['f'], calls[0][1][0][1] == w.sb[k][1].r), 'the continuation receives the completed future'); seen.add('called')
        if not app:
            if not calls: seen.add('called')
            continue
        seen.add('appended')
        for sc in ('then_run', 'then_drop'):
            s4 = st.fork(); s4.frames = []; w.setready(s4, k, z3.BoolVal(True))
            for s5, o5 in ex.invoke_fn(s4, sc, [Ptr(app[0])]):
                ex.check(s5, isinstance(o5, Ret), 'completion does not throw'); c5 = s5.g.get('calls', [])
                if q and sc == 'then_run': ex.check(s5, len(c5) == 1 and And(c5[0][0] == d['f'], z3.BoolVal(c5[0][1][0][1] == w.sb[k][1].r)), 'on completion the continuation is called once with the completed future')
                else: ex.check(s5, not c5, 'nothing is called')
                if s5.mem[w.sb[k][2].r].alive: ex.check(s5, w.refs(s5, k) == (c0 - 1 if q else c0), 'afterwards the state is released')
    ex.check(s, seen == {'called', 'appended'}, 'cover: before and after readiness'); return [ex]
# ---- producers
def producer(t, kind):
    """packaged task (kind 'p'), reduced package ('r'), with argument ('a')"""
    pass
def fresh_package(w, s, t, mk=None, e=None, one=False):
    e0 = fresh('executor0'); g0 = fresh('fn'); s.assume(e0 > 0); p, f, g = w.obj(s, 16, 'packaged task'), w.obj(s, 16, 'future'), w.obj(s, 8, 'function', g0)
    s.g['free'] = True; s, _ = w.one(s, (mk or t) + '_make', [p, f, e0, g]); k = w.reg_sb(s, f, t, prod=True)
    if not one: c = fresh('owners', 'bv', 32); s.assume(z3.UGE(c, 1), z3.ULE(c, 1 << 20)); w.setrefs(s, k, c)       # the future may have been copied
    s.g['free'] = False; return s, p, f, k, g0, e0
def package(t, mk, act):
    ex, w, s = setup('package<%s>: %s' % ({'V': 'V()', 'O': 'void()', 'M': 'M()', 'A': 'V(V)'}[mk], act)); s, p, f, k, g0, e0 = fresh_package(w, s, t, mk, one=act == 'cancel'); c0 = w.refs(s, k); ex.under_contract.update(['packaged_task', 'package', 'shared_base::set_value', 'shared_base::_set_exception', 'value_::set', 'value_::proceed', 'promise'])
    w.pending(s, k); s3 = s.fork(); s3, _ = w.one(s3, t + '_exec', [w.sb[k][1]]); ex.check(s3, s3.g['handed'][0][0] == e0, 'continuations of the future default to the executor given')
    v = w.obj(s, 8, 'argument', fresh('arg')); av = w.tok(s, v); X = fresh('error'); s.assume(X > 0, X != w.BROKEN); xp = w.obj(s, 8, 'error'); w.ex.put(s, xp.r, 0, 8, Tok(X)); seen = set()
    runf = 'pt_run_arg' if mk == 'A' else 'pt_run'; ra = [p, v] if mk == 'A' else [p]
    def seq(st, fn, a):
        out = []
        for s2, o in ex.invoke_fn(st, fn, a):
            ex.check(s2, isinstance(o, Ret), 'no exception escapes')
            if isinstance(o, Ret): out.append((s2, o.v))
        return out
    def ran(st):
        calls = st.g.get('calls', []); ex.check(st, len(calls) == 1 and And(calls[0][0] == g0, z3.BoolVal(len(calls[0][1]) == (mk == 'A')), calls[0][1][0] == av if mk == 'A' and calls[0][1] else True), 'the function is called exactly once with the given arguments')
        if st.g.get('threw') is not None: seen.add('threw'); w.completed(st, k, exc=st.g['threw'])
        else: seen.add('value'); w.completed(st, k, val=st.g.get('returned'))
    def broken(st): ex.check(st, not st.g.get('calls'), 'the function is not called'); w.completed(st, k, exc=w.BROKEN); seen.add('broken')
    if act == 'run':
        for st, _ in seq(s, runf, ra):
            ran(st)
            if st.mem[w.sb[k][1].r].alive: ex.check(st, w.refs(st, k) == c0, 'nothing but the futures owns the state afterwards')
            for st2, _ in seq(st.fork(), 'pt_drop', [p]): ran(st2)
            v2 = w.obj(st, 8, 'argument', fresh('arg2'))
            for st2, _ in seq(st, runf, [p, v2] if mk == 'A' else [p]): ran(st2)
    elif act.startswith('gone'):        # the function destroys (or overwrites) the very task that is running it
        q = w.obj(s, 16, 'packaged task'); s, _ = w.one(s, 'pt_default', [q]); w.on_call = lambda st, f, av, args: [s2 for s2, _ in seq(st, 'pt_drop' if act == 'gone' else 'pt_assign', [p] if act == 'gone' else [p, q])]
        for st, _ in seq(s, runf, ra): ran(st)
    elif act == 'drop':
        for st, _ in seq(s, 'pt_drop', [p]): broken(st)
    elif act == 'drop as task':
        d = w.obj(s, w.TS, 'task'); 
        for st, _ in seq(s, 'pt_task', [d, p]):
            w.pending(st, k)
            for st2, _ in seq(st, 't_drop', [d]): broken(st2)
    elif act == 'run as task':
        d = w.obj(s, w.TS, 'task')
        for st, _ in seq(s, 'pt_task', [d, p]):
            for st2, _ in seq(st, 't_run', [d]): ran(st2)
    elif act == 'error':
        for st, _ in seq(s, 'pt_exc', [p, xp]):
            w.completed(st, k, exc=X); ex.check(st, not st.g.get('calls'), 'the function is not called'); seen.add('error')
            for st2, _ in seq(st.fork(), 'pt_drop', [p]): w.completed(st2, k, exc=X)
            for st2, _ in seq(st, runf, ra): w.completed(st2, k, exc=X); ex.check(st2, not st2.g.get('calls'), 'the function is not called')
    elif act == 'cancel':
        for st, c in seq(s, 'pt_canceled', [p]): ex.check(st, Not(to_bool(c)), 'not cancelled while a future waits')
        for st, _ in seq(s, t + '_drop', [f]):
            ex.check(st, not st.mem[w.sb[k][2].r].alive or to_bv(ex.load(st, w.sb[k][2].add(8), I32), 32) == 0, 'the state is released with its last future')
            for st2, c in seq(st.fork(), 'pt_canceled', [p]): ex.check(st2, to_bool(c), 'cancelled once no future waits')
            for st2, _ in seq(st.fork(), 'pt_drop', [p]): ex.check(st2, not st2.g.get('calls'), 'nothing is called')
            for st2, _ in seq(st, runf, ra): ex.check(st2, not st2.g.get('calls'), 'the function is called only while some future still wants the result'); seen.add('cancel')
    elif act == 'move':
        q = w.obj(s, 16, 'packaged task')
        for st, _ in seq(s, 'pt_move', [q, p]):
            w.pending(st, k)
            for st2, _ in seq(st, 'pt_drop', [p]):
                w.pending(st2, k)
                for st3, _ in seq(st2, runf, [q] + ra[1:]): ran(st3)
    elif act == 'assign':
        q = w.obj(s, 16, 'packaged task')
        for st, _ in seq(s, 'pt_default', [q]):
            for st2, _ in seq(st, 'pt_assign', [q, p]):
                w.pending(st2, k)
                for st3, _ in seq(st2.fork(), 'pt_drop', [q]): broken(st3)
                for st3, _ in seq(st2, runf, [q] + ra[1:]): ran(st3)
    elif act == 'overwrite':
        s.g['free'] = True; q, f2, g2 = w.obj(s, 16, 'packaged task'), w.obj(s, 16, 'future'), w.obj(s, 8, 'function', fresh('fn2')); s, _ = w.one(s, mk + '_make', [q, f2, e0, g2]); k2 = w.reg_sb(s, f2, t, prod=True); s.g['free'] = False
        for st, _ in seq(s, 'pt_assign', [p, q]):
            broken(st); w.pending(st, k2)
    elif act == 'self assign':
        for st, _ in seq(s, 'pt_assign', [p, p]):
            w.pending(st, k)
            for st2, _ in seq(st, runf, ra): ran(st2)
    ex.check(s, len(seen) > 0 and (act not in ('run', 'run as task', 'move', 'gone', 'gone by assignment') or seen == {'value', 'threw'}), 'cover: ' + act); return [ex]
def reduced(t, mk, act):
    """package of a function returning a future: the inner result becomes the result"""
    ex, w, s = setup('package<%s()>: %s' % (FN[t], act)); s, pi, fi, ki, d = state(w, s, t); s.assume(d['c'] == 2 if False else z3.UGE(d['c'], 1))
    s, p, f, k, g0, e0 = fresh_package(w, s, t, mk, one=act == 'drop future'); w.pending(s, k); seen = set(); ex.under_contract.update(['package (function returning a future)'])
    def inner(st, dst):
        for o in (0, 8):
            c = st.mem[fi.r].cells[fi.o + o]; ex.put(st, dst.r, dst.o + o, 8, c[1])
        for o in (0, 8): ex.put(st, fi.r, fi.o + o, 8, NULL)
        return [st]
    w.inner = inner
    for st, o in ex.invoke_fn(s, 'pt_run', [p]):
        ex.check(st, isinstance(o, Ret), 'no exception escapes'); calls = st.g.get('calls', []); ex.check(st, len(calls) == 1 and calls[0][0] == g0, 'the function is called exactly once'); ex.check(st, not st.g.get('handed'), 'nothing is scheduled on an executor')
        if st.g.get('threw') is not None: w.completed(st, k, exc=st.g['threw']); seen.add('threw'); continue
        app = st.g.get('app', [])
        def done(s2, how):
            if ex.must(s2, d['hv']): w.completed(s2, k, val=d['v']); seen.add(how + ' value')
            elif ex.must(s2, Not(d['hv'])): w.completed(s2, k, exc=d['x']); seen.add(how + ' error')
            else: raise ToolLimit('inner outcome undecided')
        if not app: ex.check(st, w.ready(st, ki), 'the inner future is forwarded directly only when it is ready'); done(st, 'ready'); continue
        w.pending(st, k); ex.check(st, len(app) == 1, 'one continuation is attached to the inner future')
        s3 = st.fork(); s3.frames = []
        if act == 'drop future':
            for s4, o4 in ex.invoke_fn(s3, t + '_drop', [f]): ex.check(s4, isinstance(o4, Ret), 'no exception escapes'); seen.add('dropped'); ex.check(s4, not s4.mem[w.sb[ki][2].r].alive or w.refs(s4, ki) == d['c'] - 1, 'the inner future is released when nobody waits')
            continue
        if act == 'drop inner':
            for s4, o4 in ex.invoke_fn(s3, 'then_drop', [Ptr(app[0])]): w.completed(s4, k, exc=w.BROKEN); seen.add('inner dropped')
            continue
        w.setready(s3, ki, z3.BoolVal(True))
        for s4, o4 in ex.invoke_fn(s3, 'then_run', [Ptr(app[0])]):
            ex.check(s4, isinstance(o4, Ret), 'no exception escapes'); ex.check(s4, len(s4.g['calls']) == 1, 'the function is not called again'); done(s4, 'later')
    ex.check(s, seen >= ({'threw', 'ready value', 'ready error'} | ({'later value', 'later error'} if act == 'run' else {'dropped'} if act == 'drop future' else {'inner dropped'})), 'cover'); return [ex]
def promise(t, act):
    ex, w, s = setup('promise<%s>: %s' % ({'V': 'V', 'O': 'void', 'M': 'M'}[t], act)); s, p0, f, k, g0, e0 = fresh_package(w, s, t, one=act == 'cancel'); ex.under_contract.update(['promise', 'shared_base::set_value', 'shared_base::_set_exception'])
    p = w.obj(s, 16, 'promise'); s, _ = w.one(s, t + '_pro_new', [p, f]); s.g['free'] = True; s.g['free'] = False
    X = fresh('error'); s.assume(X > 0, X != w.BROKEN); xp = w.obj(s, 8, 'error'); ex.put(s, xp.r, 0, 8, Tok(X)); v = w.obj(s, 8, 'value', fresh('v')); vt = w.tok(s, v); n = 0
    def seq(st, fn, a):
        out = []
        for s2, o in ex.invoke_fn(st, fn, a):
            ex.check(s2, isinstance(o, Ret), 'no exception escapes'); out.append((s2, o.v))
        return out
    if act == 'overwrite':
        s.g['free'] = True; s, p1, f1, k1, _, _ = fresh_package(w, s, t); q = w.obj(s, 16, 'promise'); s, _ = w.one(s, t + '_pro_new', [q, f1]); s.g['free'] = False
        for st, _ in seq(s, t + '_pro_assign', [p, q]):
            w.completed(st, k, exc=w.BROKEN); w.pending(st, k1); n += 1
    elif act == 'cancel':
        for st, c in seq(s, t + '_pro_canceled', [p]): ex.check(st, Not(to_bool(c)), 'not cancelled while a future waits')
        for st, _ in seq(s, t + '_drop', [f]):
            for st2, c in seq(st.fork(), t + '_pro_canceled', [p]): ex.check(st2, to_bool(c), 'cancelled once no future waits')
            for a in (('_pro_value', [p, v]), ('_pro_exc', [p, xp]), ('_pro_drop', [p])):
                for st2, _ in seq(st.fork(), t + a[0], a[1]): n += 1; ex.check(st2, st2.g.get('ncomp', 0) == 0, 'nothing is completed')
    else:
        a = {'value': ('_pro_value', [p, v]), 'error': ('_pro_exc', [p, xp]), 'drop': ('_pro_drop', [p])}[act]; kw = {'value': dict(val=vt), 'error': dict(exc=X), 'drop': dict(exc=w.BROKEN)}[act]
        for st, _ in seq(s, t + a[0], a[1]):
            w.completed(st, k, **kw); n += 1
            if act != 'drop':
                for st2, _ in seq(st.fork(), t + '_pro_drop', [p]): w.completed(st2, k, **kw)
                v2 = w.obj(st, 8, 'value', fresh('v2'))
                for st2, _ in seq(st, t + '_pro_value', [p, v2]): w.completed(st2, k, **kw)
    ex.check(s, n > 0, 'cover'); return [ex]
# ---- reading
def read(t, op):
    """get_ready (gr) / get_try (gt), const& (l) / && (r)"""
    ex, w, s = setup('%s::%s %s' % (FN[t], {'gr': 'get_ready', 'gt': 'get_try'}[op[:2]], {'l': 'const&', 'r': '&&'}[op[3]])); s, p, f, k, d = state(w, s, t); seen = set(); r = w.obj(s, 16, 'result')
    if op[:2] == 'gr': w.setready(s, k, z3.BoolVal(True))
    for st, o in ex.invoke_fn(s, '%s_%s' % (t, op), [f, r]):
        ex.check(st, not w.mon.held(st), 'the lock is released'); rd = w.ready(st, k); e1, v1, x1 = w.result(st, k)
        if isinstance(o, Throw):
            ex.check(st, And(rd, Not(d['hv'])), 'an exception is thrown only when the future failed'); ex.check(st, w.xtok(st, o.e) == d['x'], 'the stored exception is rethrown'); ex.check(st, And(x1 == d['x'], Not(to_bool(e1))), 'the stored exception stays: it is rethrown every time'); seen.add('throw'); continue
        has = z3.BoolVal(True) if op[:2] == 'gr' else (to_bool(o.v) if t == 'O' else to_bv(ex.load(st, r.add(8), I8), 8) != 0)
        ex.check(st, z3.Implies(rd, d['hv']), 'a failed future does not return a value')
        if op[:2] == 'gt': ex.check(st, z3.Implies(has, rd), 'get_try returns a value only when the future is ready')
        # a future known ready before the call must deliver
        ex.check(st, z3.Implies(And(d['R'], d['hv']), has), 'a ready future delivers its value')
        if ex.must(st, has):
            seen.add('value')
            if t != 'O':
                v = w.tok(st, r); ex.check(st, v == d['v'], 'the value read is the value of the future')
                if t == 'V' and not (op[3] == 'r'): ex.check(st, And(to_bool(e1), v1 == d['v']), 'the value is copied, the future keeps it')
                if t == 'V' and op[3] == 'r': ex.check(st, Or(d['c'] == 1, And(to_bool(e1), v1 == d['v'])), 'the value is moved out only through the last handle'); seen.add('moved' if not ex.must(st, v1 == d['v']) else 'copied')
        elif ex.must(st, Not(has)): seen.add('none'); ex.check(st, And(to_bool(e1) == d['hv'], v1 == d['v'] if t != 'O' else True), 'a future that is not ready is untouched')
        else: raise ToolLimit('result undecided')
    ex.check(s, seen >= {'throw', 'value'} | ({'none'} if op[:2] == 'gt' else set()) | ({'moved', 'copied'} if t == 'V' and op[3] == 'r' else set()), 'cover: every outcome'); return [ex]
def handle(t, op):
    ex, w, s = setup('%s: %s' % (FN[t], op)); s, p, f, k, d = state(w, s, t); n = 0; c0 = d['c']; fb = ex.load(s, f, PTR); g = w.obj(s, 16, 'other future'); 
    for o in (0, 8): ex.put(s, g.r, o, 8, NULL)
    def outs(fn, a, st=None):
        r = []
        for s2, o in ex.invoke_fn(st or s, fn, a): ex.check(s2, isinstance(o, Ret), 'no exception escapes'); r.append((s2, o.v))
        return r
    if op == 'is_ready':
        for st, r in outs(t + '_is_ready', [f]): n += 1; ex.check(st, z3.Implies(d['R'], to_bool(r)), 'a ready future is reported ready'); ex.check(st, z3.Implies(to_bool(r), w.ready(st, k)), 'only a ready future is reported ready')
        for st, r in outs(t + '_is_ready', [g], s.fork()): ex.check(st, Not(to_bool(r)), 'a future without state is not ready')
    elif op == 'valid':
        for st, r in outs(t + '_valid', [f], s.fork()): n += 1; ex.check(st, to_bool(r), 'a future with state is valid')
        for st, r in outs(t + '_valid', [g]): ex.check(st, Not(to_bool(r)), 'a future without state is not valid')
    elif op == 'reset':
        for st, r in outs(t + '_reset', [f]): n += 1; ex.check(st, isinstance(ex.load(st, f, PTR), Null), 'a reset future has no state'); ex.check(st, (not st.mem[w.sb[k][2].r].alive) or w.refs(st, k) == c0 - 1, 'reset drops one owner'); ex.check(st, not st.g.get('calls') and not st.g.get('handed'), 'reset schedules nothing')
    elif op == 'swap':
        for st, r in outs(t + '_swap', [f, g]): n += 1; ex.check(st, isinstance(ex.load(st, f, PTR), Null) and ex.load(st, g, PTR) == fb, 'swap exchanges the states'); ex.check(st, w.refs(st, k) == c0, 'no owner is added')
    elif op in ('move', 'assign_r', 'copy', 'assign_l'):
        if 'assign' not in op:
            for o in (0, 8): del s.reg(g.r).cells[o]
        for st, r in outs(t + '_' + op, [g, f]):
            n += 1; b = ex.load(st, f, PTR); ex.check(st, ex.load(st, g, PTR) == fb, 'the target refers to the same state')
            if op in ('move', 'assign_r'): ex.check(st, isinstance(b, Null), 'the source is empty'); ex.check(st, w.refs(st, k) == c0, 'no owner is added')
            else: ex.check(st, b == fb, 'the source is unchanged'); ex.check(st, w.refs(st, k) == c0 + 1, 'one owner is added')
    elif op == 'compare':
        for nm, a, b, want in (('eq', f, f, 1), ('eq', f, g, 0), ('ne', f, f, 0), ('ne', f, g, 1)):
            for st, r in outs(t + '_' + nm, [a, b], s.fork()): n += 1; ex.check(st, to_bool(r) == bool(want), 'futures compare equal exactly when they share a state')
    elif op in ('exception', 'error'):
        w.setready(s, k, z3.BoolVal(True)); r = w.obj(s, 16, 'exception')
        for st, _ in outs(t + '_' + op, [f, r]):
            n += 1
            if op == 'exception': ex.check(st, w.exval(ex.load(st, r, PTR)) == If(d['hv'], z3.IntVal(0), d['x']), 'exception() is the stored exception, or none')
            else:
                h = to_bv(ex.load(st, r.add(8), I8), 8) != 0; ex.check(st, h == Not(d['hv']), 'error() tells whether the future failed')
                if ex.must(st, h): ex.check(st, w.exval(ex.load(st, r, PTR)) == d['x'], 'error() is the stored exception')
    ex.check(s, n > 0, 'cover'); return [ex]
def ready(t, op):
    """futures that are ready from the start"""
    ex, w, s = setup({'broken': 'future_with_broken_promise<%s>', 'exceptional': 'make_exceptional_future<%s>', 'ready': 'make_ready_future<%s>', 'ready_l': 'make_ready_future<%s> (copy)'}[op] % {'V': 'V', 'O': 'void', 'M': 'M'}[t])
    e = fresh('executor'); s.assume(e > 0); r = w.obj(s, 16, 'future'); X = fresh('error'); s.assume(X > 0, X != w.BROKEN); xp = w.obj(s, 8, 'error'); ex.put(s, xp.r, 0, 8, Tok(X)); v = w.obj(s, 8, 'value', fresh('v')); vt = w.tok(s, v); n = 0
    a = {'broken': [r, e], 'exceptional': [r, xp, e], 'ready': [r, v, e], 'ready_l': [r, v, e]}[op]
    for st, o in ex.invoke_fn(s, t + '_' + op, a):
        n += 1; ex.check(st, isinstance(o, Ret), 'no exception escapes'); st.g['free'] = True; k = w.reg_sb(st, r, t, prod=True); st.g['free'] = False; w.f(st, k, R=w.rdready(st, k))
        ex.check(st, w.ready(st, k), 'the future is ready'); eg, val, x = w.result(st, k)
        if op.startswith('ready'): ex.check(st, And(to_bool(eg), x == 0, val == vt if t != 'O' else True), 'it holds the value given')
        else: ex.check(st, And(Not(to_bool(eg)), x == (w.BROKEN if op == 'broken' else X)), 'it holds the exception')
        ex.check(st, not st.g.get('handed'), 'nothing is scheduled'); ex.check(st, w.refs(st, k) == 1, 'the future is the only owner')
        if op == 'ready_l': ex.check(st, w.tok(st, v) == vt, 'an lvalue is copied')
        s3 = st.fork(); s3.frames = []; s3, _ = w.one(s3, t + '_exec', [w.sb[k][1]]); ex.check(s3, s3.g['handed'][0][0] == e, 'continuations default to the executor given')
    ex.check(s, n > 0, 'cover'); return [ex]
def async_(op):
    ex, w, s = setup('async' + (' (lvalue argument)' if op else '')); e = fresh('executor'); s.assume(e > 0); f, v, r = w.obj(s, 8, 'function', fresh('fn')), w.obj(s, 8, 'argument', fresh('arg')), w.obj(s, 16, 'future'); ft, vt = w.tok(s, f), w.tok(s, v); seen = set()
    for st, o in ex.invoke_fn(s, 'V_async' + op, [e, f, v, r]):
        ex.check(st, isinstance(o, Ret), 'no exception escapes'); hd = st.g.get('handed', []); ex.check(st, len(hd) == 1 and hd[0][0] == e, 'the work is handed to the executor exactly once'); ex.check(st, not st.g.get('calls'), 'async calls nothing itself')
        if op: ex.check(st, w.tok(st, v) == vt, 'an lvalue argument is copied')
        st.g['free'] = True; k = w.reg_sb(st, r, 'V', prod=True); st.g['free'] = False; w.pending(st, k); ex.check(st, w.refs(st, k) == 1, 'the future is the only owner')
        s2 = st.fork(); s2.frames = []; s2, _ = w.one(s2, 'V_exec', [w.sb[k][1]]); ex.check(s2, s2.g['handed'][-1][0] == e, 'continuations default to the executor given')
        for sc in ('t_run', 't_drop', 'cancel'):
            s3 = st.fork(); s3.frames = []
            if sc == 'cancel': s3, _ = w.one(s3, 'V_drop', [r])
            for s4, o4 in ex.invoke_fn(s3, 't_drop' if sc == 't_drop' else 't_run', [Ptr(hd[0][1])]):
                ex.check(s4, isinstance(o4, Ret), 'no exception escapes'); calls = s4.g.get('calls', [])
                if sc == 't_run':
                    ex.check(s4, len(calls) == 1 and And(calls[0][0] == ft, calls[0][1][0] == vt), 'the function is called once with the arguments given')
                    if s4.g.get('threw') is not None: w.completed(s4, k, exc=s4.g['threw']); seen.add('threw')
                    else: w.completed(s4, k, val=s4.g['returned']); seen.add('value')
                else:
                    ex.check(s4, not calls, 'the function is not called')
                    if sc == 't_drop': w.completed(s4, k, exc=w.BROKEN); seen.add('broken')
    ex.check(s, seen == {'threw', 'value', 'broken'}, 'cover'); return [ex]
OPS = ['then', 'ethen', 'or', 'eor', 'rec', 'erec', 'xor', 'exor']
ATTACH = [('attach', t, o, q) for t in 'VOM' for o in OPS for q in ('lr' if t != 'M' else 'r')] + [('attach', 'V', 'ethen', q, '_o') for q in 'lr']
DETACH = [('detach', t, q) for t in 'VOM' for q in (0, 1)]
PACK = [('package', t, mk, a) for t, mk in (('V', 'V'), ('O', 'O'), ('M', 'M'), ('V', 'A')) for a in ('run', 'drop', 'error', 'cancel', 'move', 'assign', 'overwrite', 'self assign', 'gone', 'gone by assignment') + (('run as task', 'drop as task') if mk != 'A' else ())] \
  + [('reduced', t, mk, a) for t, mk in (('V', 'R'), ('O', 'Q'), ('M', 'N')) for a in ('run', 'drop future', 'drop inner')] + [('promise', t, a) for t in 'VOM' for a in ('value', 'error', 'drop', 'overwrite', 'cancel')]
COMPLETE = [u for u in PACK if u[0] == 'package' and u[3] in ('run', 'drop', 'error')] + [u for u in PACK if u[0] == 'promise' and u[2] in ('value', 'error', 'drop')]
READ = [('read', t, o) for t in 'VOM' for o in ('gr_l', 'gr_r', 'gt_l', 'gt_r') if not (t == 'M' and o == 'gr_l')] + [('handle', t, o) for t in 'VOM' for o in ('is_ready', 'valid', 'reset', 'swap', 'move', 'assign_r', 'copy', 'assign_l', 'compare', 'exception', 'error') if not (t == 'M' and o in ('copy', 'assign_l'))] \
  + [('ready', t, o) for t in 'VOM' for o in ('broken', 'exceptional', 'ready')] + [('ready', 'V', 'ready_l')]
ASYNC = [('async_', ''), ('async_', '_l')]
def run(u, **kw): return globals()[u[0]](*u[1:])
