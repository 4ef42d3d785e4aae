"""Channels: contracts of the queue strategies, of a channel process and of senders and receivers (shared by C14, C15, C16)."""
import os, re, z3
from irv.core import *
from irv.std import *
from irv.seq import *
from irv.loops import *
from irv.tasks import first, is_tok
from irv.build import bitcode, VERIF
from irv.llvm import Module
from irv.names import cxx, base
RS = ['src/pre_exit.cpp', 'src/concurrency/default_executor.cpp']
def cbat(args, flags, t=240): return dict(src='channel.cpp', args=args, flags=flags, timeout=t, hang_is_failure=True, repo_src=RS)
_M = {}
def mod(d='channel'):
    if d not in _M: _M[d] = Module(bitcode(os.path.join(VERIF, 'drivers/%s.cpp' % d)))
    return _M[d]
iserr = z3.Function('is_error', z3.IntSort(), z3.BoolSort())
Sel = z3.Select
MAXS = (1 << 64) - 1
class Values:
    """opaque values (their first word is a ghost token) and std::variant<value, exception_ptr> (token at its first word)"""
    NAMES = ('Vn', 'M')
    def __init__(w, ex):
        w.ex = ex; ex.hooks['extern_global'] = extern_global; install_refcount(ex); install_typeinfo(ex)
        N = w.NAMES
        def of(m): return lambda n, d: d.startswith(tuple(x + y for x in N for y in ('::', '<'))) and (lambda c: len(c[0]) == 1 and base(c[0][0]) in N and m(base(c[0][0]), c[1], c[2]))(cxx(d))
        def cdef(ex, st, a, ins): t = fresh('default'); st.assume(t < 0); w.put(st, a[0], t); return Ret(None)
        def cmove(ex, st, a, ins): t = w.alive(st, a[1]); w.put(st, a[0], t); w.put(st, a[1], w.gone(st)); return Ret(None)
        def ccopy(ex, st, a, ins): w.put(st, a[0], w.alive(st, a[1])); return Ret(None)
        def amove(ex, st, a, ins): t = w.alive(st, a[1]); w.alive(st, a[0]); w.put(st, a[1], w.gone(st)); w.put(st, a[0], t); return Ret(a[0])
        def acopy(ex, st, a, ins): t = w.alive(st, a[1]); w.put(st, a[0], t); return Ret(a[0])
        def dtor(ex, st, a, ins): w.alive(st, a[0]); w.put(st, a[0], UNDEF); return Ret(None)
        C = lambda m, h, l: ex.contract(of(m), h, l, True)
        C(lambda b, m, p: m == b and p == '', cdef, 'opaque default construction'); C(lambda b, m, p: m == b and p.endswith('&&'), cmove, 'opaque move'); C(lambda b, m, p: m == b and p.endswith('const&'), ccopy, 'opaque copy')
        C(lambda b, m, p: m == 'operator=' and p.endswith('&&'), amove, 'opaque move assignment'); C(lambda b, m, p: m == 'operator=' and p.endswith('const&'), acopy, 'opaque copy assignment'); C(lambda b, m, p: m == '~' + b, dtor, 'opaque destruction')
        ex.contract(rx(r'^std::__exception_ptr::exception_ptr::_M_(addref|release)\(\)'), lambda ex, st, a, ins: Ret(None), 'exception_ptr reference count', True)
        def var(m): return lambda n, d: d.startswith('std::variant<') and (lambda c: len(c[0]) == 2 and c[0][0] == 'std' and base(c[0][1]) == 'variant' and m(c[1], c[2]))(cxx(d))
        def vctor(ex, st, a, ins):
            par = w.par(st, ins)
            if par == '': t = fresh('default'); st.assume(t < 0, z3.Not(iserr(t))); w.put(st, a[0], t); return Ret(None)
            w.put(st, a[0], w.take(st, a[1], par)); return Ret(None)
        def vasg(ex, st, a, ins): t = w.take(st, a[1], w.par(st, ins)); w.put(st, a[0], t); return Ret(a[0])
        C = lambda m, h, l: ex.contract(var(m), h, 'std::variant: ' + l, True)
        C(lambda m, p: m == 'variant', vctor, 'construction'); C(lambda m, p: m == 'operator=', vasg, 'assignment'); C(lambda m, p: m == '~variant', lambda ex, st, a, ins: (w.put(st, a[0], UNDEF), Ret(None))[1], 'destruction')
        C(lambda m, p: m == 'index', lambda ex, st, a, ins: Ret(z3.If(iserr(w.alive(st, a[0])), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))), 'index')
        def get(ex, st, a, ins):
            c = cxx(w.dem(st, ins)); t = w.alive(st, a[0]); err = 'exception_ptr' in c[1] if not c[1].startswith('get<') else c[1][4:].startswith(('std::__exception_ptr', '1'))
            ex.check(st, iserr(t) if err else z3.Not(iserr(t)), 'the alternative read from a message is the one it holds'); return Ret(a[0])
        ex.contract(lambda n, d: 'std::get<' in d and '(std::variant<' in d, w.get, 'std::get(std::variant)', True)
        ex.contract(lambda n, d: 'std::variant<' in d and cxx(d)[0][:2] == ('std', '__detail') and '__variant' in d, w.no, 'std::variant internals', True)
    def no(w, ex, st, a, ins): raise ToolLimit('std::variant operation outside the contracts')
    def get(w, ex, st, a, ins):
        d = w.dem(st, ins); i = d.index('std::get<'); g = d[i + 9:]; err = g.startswith(('std::__exception_ptr', '1')); t = w.alive(st, a[0])
        ex.check(st, iserr(t) if err else z3.Not(iserr(t)), 'the alternative read from a message is the one it holds')
        return Ret(a[0])
    def dem(w, st, ins): return w.ex.mod.funcs[w.ex.val(st, ins.x).name].dem
    def par(w, st, ins): return cxx(w.dem(st, ins))[2]
    def put(w, st, p, t):
        w.ex.access_ok(st, p, 8, 'write')
        if st.mem[p.r].kind == 'indexed':
            if t is not UNDEF: w.ex.store(st, p, t, I64)
        else: w.ex.put(st, p.r, p.o, 8, t)
    def alive(w, st, p):
        w.ex.access_ok(st, p, 8, 'read')
        if st.mem[p.r].kind == 'indexed': return w.ex.load(st, p, I64)
        c = st.mem[p.r].cells.get(p.o); v = c[1] if c else None
        if isinstance(v, Tok): v = zi(v.t)
        if isinstance(v, Null): v = z3.IntVal(0)
        ok = is_tok(v); w.ex.check(st, ok, 'a live object is used')
        if not ok: raise Infeasible()
        return v
    def gone(w, st): m = fresh('moved'); st.assume(m < 0); return m
    def take(w, st, p, par):
        t = w.alive(st, p)
        if 'exception_ptr' in par and not par.startswith('std::variant'): st.assume(iserr(t)) if False else w.ex.check(st, iserr(t), 'an error message is made from an exception')
        elif not par.startswith('std::variant'): w.ex.check(st, z3.Not(iserr(t)), 'a value message is made from a value')
        if not par.endswith('const&') and not (par.endswith('&') and not par.endswith('&&')): w.put(st, p, w.gone(st)) if st.mem[p.r].kind == 'indexed' or not isinstance(st.mem[p.r].cells.get(p.o, (0, 0))[1], Tok) else w.ex.put(st, p.r, p.o, 8, NULL)
        return t
    def queues(w, st):
        def construct(ex, st, p, args, params):
            w.ex.store(st, p, w.take(st, args[0], params), I64); return Ret(None)
        w.D = Deque(w.ex, 16, 'std::variant<', construct, name='message queue'); return w.D
    def one(w, st, f, a):
        o = w.ex.invoke_fn(st, f, a)
        if len(o) != 1 or not isinstance(o[0][1], Ret): raise ToolLimit('%s is expected to return (%d outcomes)' % (f, len(o)))
        return o[0][0], o[0][1].v
STRATS = {'QD': ('default', 1), 'QM': ('default', 1), 'QZ': ('zip', 3), 'QZ2': ('zip', 2), 'QR': ('rr', 3), 'QU': ('any', 3), 'QU2': ('any', 2)}
NAMES = {'default': 'default_queue_strategy', 'zip': 'zip_with_queue_strategy', 'rr': 'round_robin_queue_strategy', 'any': 'unordered_queue_strategy'}
def sunits(): return [('strategy', k) for k in STRATS]
def strategy(u):
    """each operation of one strategy on arbitrary queue contents"""
    k = u[1]; kind, n = STRATS[k]; ex = Engine(mod()); ex.cur = '%s<%s>' % (NAMES[kind], {'QD': 'V', 'QM': 'move-only', 'QZ': 'V, W, X', 'QZ2': 'V, move-only', 'QR': 'V, V, V', 'QU': 'V, V, V', 'QU2': 'move-only, move-only'}[k])
    ex.under_contract.update('%s::%s' % (NAMES[kind], m) for m in ('empty', 'front', 'pop_front', 'size', 'queue_size', 'append'))
    w = Values(ex); s = State(); D = w.queues(s); s, sz = w.one(s, k + '_off', [0]); s, vs = w.one(s, k + '_off', [1])
    q = Ptr(ex.new_region(s, sz, 'queues')); s, _ = w.one(s, k + '_new', [q])
    qs = []
    for i in range(n): s, p = w.one(s, '%s_q%d' % (k, i), [q]); qs.append(p)
    for i, p in enumerate(qs): lo, hi = D.rd(s, p); ex.check(s, zi(lo) == zi(hi), 'new queues are empty')
    ip = pp = None
    if kind in ('rr', 'any'):
        s, ip = w.one(s, k + '_idx', [q]); s, pp = w.one(s, k + '_pop_idx', [q])
        if kind == 'rr': ex.check(s, to_bv(ex.load(s, ip, I64), 64) == 0, 'round robin starts with the first input')
    def havoc(st):
        for p in qs:
            lo, hi = fresh('lo'), fresh('hi'); st.assume(0 <= lo, lo <= hi, hi < 1 << 60); r = D.reg_of(st, p); a = z3.Array('msgs!%d' % next(C), z3.IntSort(), z3.IntSort()); st.reg(r).cells[(0, 8)] = a; D.wr(st, p, r, lo, hi)
        if ip is not None:
            for x in (ip, pp): v = fresh('index', 'bv', 64); st.assume(z3.ULT(v, n)); ex.store(st, x, v, I64)
    def view(st): return [(D.rd(st, p), st.mem[D.reg_of(st, p)].cells[(0, 8)]) for p in qs]
    def index(st, p): return to_bv(ex.load(st, p, I64), 64)
    def size(v): return simp(zi(v[0][1]) - zi(v[0][0]))
    def at(v, i): return Sel(v[1], zi(v[0][0]) + i)
    def same(v0, v1, i=None):
        j = fresh('any'); return z3.And(size(v0) == size(v1), z3.Implies(z3.And(0 <= j, j < size(v0)), at(v0, j) == at(v1, j)))
    def less(v0, v1):
        j = fresh('any'); return z3.And(size(v1) == size(v0) - 1, z3.Implies(z3.And(0 <= j, j < size(v1)), at(v0, j + 1) == at(v1, j)))
    def rest(v0, v1):     # all but the first message is as it was
        j = fresh('any'); return z3.And(size(v1) == size(v0), z3.Implies(z3.And(1 <= j, j < size(v1)), at(v0, j) == at(v1, j)))
    import itertools
    C = itertools.count()
    def emptyc(v, st): 
        if kind == 'default': return size(v[0]) == 0
        if kind == 'zip': return z3.Or(*[size(x) == 0 for x in v])
        if kind == 'any': return z3.And(*[size(x) == 0 for x in v])
        return z3.Or(*[z3.And(index(st, ip) == i, size(x) == 0) for i, x in enumerate(v)])
    havoc(s); cov = {}
    # empty
    s0 = s.fork(); v = view(s0); e0 = emptyc(v, s0)
    for st, r in ex.invoke_fn(s0, k + '_empty', [q]):
        ex.check(st, to_bool(r.v) == e0, 'empty: exactly when there is nothing to take'); ex.check(st, z3.And(*[same(a, b) for a, b in zip(v, view(st))]), 'empty changes nothing'); cov['empty'] = cov.get('empty', 0) + 1
    # sizes of single queues
    for i in range(n):
        s0 = s.fork(); v = view(s0)
        for st, r in ex.invoke_fn(s0, '%s_n%d' % (k, i), [q]): ex.check(st, zi(r.v) == size(v[i]), 'queue_size: the number of messages of that input')
    # append
    for i in range(n):
        for f, err in (('app', False), ('appe', True)):
            s0 = s.fork(); v = view(s0); t = fresh('message'); s0.assume(t > 0, iserr(t) == err); p = Ptr(ex.new_region(s0, 8, 'message')); i0 = [index(s0, x) for x in (ip, pp)] if ip is not None else []
            ex.put(s0, p.r, 0, 8, Tok(t) if err else t)
            for st, r in ex.invoke_fn(s0, '%s_%s%d' % (k, f, i), [q, p]):
                v1 = view(st); ex.check(st, isinstance(r, Ret), 'append does not throw'); x, y = v[i], v1[i]; j = fresh('any')
                ex.check(st, z3.And(size(y) == size(x) + 1, at(y, size(x)) == t, z3.Implies(z3.And(0 <= j, j < size(x)), at(y, j) == at(x, j))), 'append: the message goes behind all earlier ones of its input, once')
                ex.check(st, z3.And(*[same(a, b) for m, (a, b) in enumerate(zip(v, v1)) if m != i]) if n > 1 else True, 'append: the other inputs are as they were'); cov['append'] = cov.get('append', 0) + 1
                for a, b in zip(i0, [index(st, x) for x in (ip, pp)] if ip is not None else []): ex.check(st, a == b, 'append: the input to take from stays')
    # take: front, pop_front, size
    s0 = s.fork(); v = view(s0); s0.assume(z3.Not(emptyc(v, s0))); i0 = index(s0, ip) if ip is not None else None
    out = Ptr(ex.new_region(s0, vs, 'taken')); o2 = Ptr(ex.new_region(s0, 8 * n, 'sizes'))
    for st, r in ex.invoke_fn(s0, k + '_front', [q, out]):
        ex.check(st, isinstance(r, Ret), 'front does not throw'); v1 = view(st); nt = n if kind == 'zip' else 1; got = []
        for i in range(nt):
            st, p = w.one(st, '%s_elt%d' % (k, i), [out]); got.append(w.alive(st, p))
        for st, r in ex.invoke_fn(st, k + '_pop', [q]):
            ex.check(st, isinstance(r, Ret), 'pop_front does not throw'); v2 = view(st); cov['take'] = cov.get('take', 0) + 1
            if kind in ('default', 'zip'):
                for i in range(n):
                    ex.check(st, got[i] == at(v[i], 0), 'take: the oldest message of every input, at the position of that input'); ex.check(st, less(v[i], v2[i]), 'take: exactly the message taken leaves, the rest keeps its order')
            else:
                ch = index(st, pp)     # the input taken from
                ex.check(st, z3.ULT(ch, n), 'take: from one of the inputs')
                for i in range(n):
                    c = ch == i
                    ex.check(st, z3.Implies(c, z3.And(size(v[i]) > 0, got[0] == at(v[i], 0), less(v[i], v2[i]))), 'take: exactly the oldest message of one input leaves, the rest keeps its order')
                    ex.check(st, z3.Implies(z3.Not(c), same(v[i], v2[i])), 'take: the other inputs are as they were')
                if kind == 'rr':
                    ex.check(st, ch == i0, 'take: from the input whose turn it is'); ex.check(st, index(st, ip) == z3.If(i0 == n - 1, z3.BitVecVal(0, 64), i0 + 1), 'take: then it is the turn of the next input')
            for st, r in ex.invoke_fn(st, k + '_size', [q, o2]):
                v3 = view(st); ex.check(st, z3.And(*[same(a, b) for a, b in zip(v2, v3)]), 'size changes nothing')
                for i in range(n):
                    x = ex.load(st, o2.add(8 * i), I64); e = size(v2[i])
                    if kind in ('rr', 'any'): e = z3.If(index(st, pp) == i, e, MAXS)
                    ex.check(st, (z3.BV2Int(x) if z3.is_bv(x) else zi(x)) == e, 'size: what is left of the input taken from; the other inputs are not told to send')
    for c in ('empty', 'append', 'take'): ex.check(State(), cov.get(c, 0) > 0, 'cover: ' + c)
    return [ex]
