"""Contracts for C03: size (counting loop), operator==, equal_shape (lock-step loops), and copy / move / assignment / swap / destruction
against the contracts of splice, insert(range) and erase(range)."""
import os, itertools, z3
from .forest import *
from .forest import G
from . import forest as SF
from .forest_iter import IterLoop
from irv.build import bitcode, VERIF
from irv.llvm import Module
ASSUMPTIONS = ['element type: opaque Regular type; copy/move/destroy/compare are assumed contracts (no throw)',
 'the preorder step used by size() is the contract proved under C02 (next leading edge)', 'counting and depth functions over the edge sequence are definitions; their step laws are instantiated as axioms',
 'copy, move, assignment, swap and destruction are proved against the contracts of splice (proved under C01), insert(range) and erase(range) (C01: bounded)',
 'the two compared forests are different objects', 'node counts stay below 2^61']
BOUNDED = ['insert(range) / erase(range) loops used by copy, clear and destruction: harness battery/forest.cpp c03 (all forests up to the size it prints)']
BATTERY = [dict(src='forest.cpp', args=['c03'], flags=['-fsanitize=address'], timeout=200, hang_is_failure=True)]
_M = None
def mod():
    global _M
    if _M is None: _M = Module(bitcode(os.path.join(VERIF, 'drivers/forest3.cpp')))
    return _M
def world(nf):
    ex = Engine(mod()); w = ForestWorld(ex, nf); w.install(); return w
def prepare(): mod(); SF.load_world(1)
LEAD = 1
# ---- counting / depth definitions
def counts(w, st, f):
    """cnt(p): number of leading edges of proper nodes in [1,p); dep(p): number of proper nodes open at p"""
    if not hasattr(w, 'cnt'): w.cnt, w.dep, w.wit = {}, {}, {}
    k = next(Gen.k); B = z3.BitVecSort(64); cnt, dep, wit = z3.Function('cnt%d' % k, I, B), z3.Function('dep%d' % k, I, I), z3.Function('wit%d' % k, I, I, I)
    w.cnt[f], w.dep[f], w.wit[f] = cnt, dep, wit; g = w.g0; t = w.tail[f]
    def r(x):
        L, T = g.L(x), g.T(x)
        return [Implies(And(g.own(x) == f, x != t), And(cnt(L + 1) == cnt(L) + 1, cnt(T + 1) == cnt(T), dep(L + 1) == dep(L) + 1, dep(T + 1) == dep(T) - 1, dep(T) >= 1, dep(L) >= 0))]
    w.gen0.rel.append(r); st.assume(cnt(1) == 0, dep(1) == 0, cnt(2 * g.n[f] + 1) == g.c[f], dep(2 * g.n[f] + 1) == 0)
    for y in list(st.g['nodes']): st.assume(*r(y)); st.assume(*[c for k2 in OFF for c in r(z3.Select(w.gen0.h[k2], y))])
def nolead(w, st, f, a, b):
    """if no leading edge lies in [a,b), the count does not change (definition of the count; witness otherwise)"""
    z = w.wit[f](a, b); w.note(st, z)
    st.assume(Implies(And(a <= b, w.cnt[f](a) != w.cnt[f](b)), And(w.g0.own(z) == f, z != w.tail[f], a <= w.g0.L(z), w.g0.L(z) < b)))
def preorder_contract(w, ex):
    """edge_iterator<.., leading>: construction and ++ move to the first leading edge at / after the position (wraps to the root)"""
    def seek(ex, st, p, f, P, name):
        y = fresh('edge'); g = w.g0; w.note(st, y); q = g.L(y)
        st.assume(g.own(y) == f)
        rule = lambda z: Implies(g.own(z) == f, If(q >= P, Not(And(P <= g.L(z), g.L(z) < q)), And(y == w.tail[f], g.L(z) < P)))
        for z in list(st.g['nodes']): st.assume(rule(z))
        st.g['lq'] = st.g.get('lq', []) + [rule]
        nolead(w, st, f, P, If(q >= P, q, 2 * g.n[f] + 1))
        ex.store(st, p, Ptr(w.N, y, 0), PTR); ex.store(st, p.add(8), 1, I8)
    def owner(st, x):
        for f in w.tail:
            if ex.must(st, w.own0(x) == f): return f
        raise ToolLimit('iterator of an unknown forest')
    def inc(ex, st, a, ins):
        x, e = w.getiter(st, a[0]); w.note(st, x); f = owner(st, x); P = w.pos(w.g0, x, e); last = 2 * w.g0.n[f] + 1
        seek(ex, st, a[0], f, simp(If(P == last, 0, P + 1)), '++'); return Ret(a[0])
    def ctor(ex, st, a, ins):
        if len(a) < 2 or not isinstance(a[1], Ptr): return NotImplemented
        x, e = w.getiter(st, a[1]); w.note(st, x); f = owner(st, x); seek(ex, st, a[0], f, w.pos(w.g0, x, e), 'ctor'); return Ret(None)
    is_pre = lambda d: 'edge_iterator<' in d and ('(stlab::' in d and 'forest_edge)1>' in d)
    ex.contract(lambda n, d: is_pre(d) and re_end(d, '::operator++()'), inc, 'preorder ++ (C02)', False)
    ex.contract(lambda n, d: is_pre(d) and '::edge_iterator(' in d and 'edge_iterator(stlab' in d.split('::edge_iterator(')[-1].join(['edge_iterator(', '']), ctor, 'preorder construction (C02)', False)
def re_end(d, s): return d.endswith(s)
class CountLoop(IterLoop):
    name = 'size counting loop'
    def bind(s, ex, st0):
        IterLoop.bind(s, ex, st0); s.n = None
        for k, (p, a) in s.widen.items():
            v = p.get(s.entry, s.depth)
            if isinstance(v, int) and v == 0 and (p.kind == 'mem' and p.a[2] == 8 or p.kind == 'reg' and s.phiw.get(p.a[0]) == 64) and not (p.kind == 'mem' and p.a[0] in [w.r for w in s.w.F.values()]): s.n = p
    def steps(s, ex, st, x, e, p0, p, first):
        w = s.w; g = w.g0; out = [('the cursor is on a leading edge', e)]
        if s.n is not None: out.append(('the counter is the number of nodes passed', to_bv(s.n.get(st, s.depth), 64) == If(p == 0, g.c[1], w.cnt[1](p))))
        return out
class LockLoop(IterLoop):
    """two cursors moving in lock step over forests 1 and 2; everything before them agrees"""
    def __init__(s, w, values): s.w = w; s.values = values; s.name = 'comparison loop'
    def bind(s, ex, st0):
        w = s.w; s.a = s.b = s.it = None
        for pr in s.pairs():
            try: x, e, _ = s.val(st0, pr)
            except ToolLimit: continue
            w.note(st0, x)
            if s.a is None and ex.must(st0, w.own0(x) == 1): s.a = pr
            elif s.b is None and ex.must(st0, w.own0(x) == 2): s.b = pr
        s.it = s.a
    def inv(s, ex, st, places, first):
        if s.a is None or s.b is None: return []
        w = s.w; g = w.g0; x, e, r1 = s.val(st, s.a); y, f, r2 = s.val(st, s.b); w.note(st, x); w.note(st, y); out = []
        for r in (r1, r2):
            if not isinstance(r, int) and z3.is_bv(r): out.append(('the edge is leading or trailing', z3.ULE(r, 1)))
        P, Q = w.pos(g, x, e), w.pos(g, y, f)
        out += [('the cursors are edges of the two forests', And(g.own(x) == 1, g.own(y) == 2)), ('they are at the same distance from the start', And(P == Q, P >= 1)), ('and at the same depth', w.dep[1](P) == w.dep[2](Q))]
        return out + [('everything passed agrees', s.forall(ex, st, lambda z: agree(w, z, P, s.values), first))]
def agree(w, z, P, values):
    """the edges of node z of forest 1 before position P have the same kind (and value) in forest 2"""
    g = w.g0; gn = w.gen0; V = lambda x: z3.Select(w.v0, x)
    zl = gn.atn[2](g.L(z)); zt = gn.atn[2](g.T(z)); n2 = 2 * g.n[2] + 1
    l = And(g.L(z) < n2, gn.atl[2](g.L(z)), g.own(zl) == 2, g.L(zl) == g.L(z)); t = And(g.T(z) < n2, Not(gn.atl[2](g.T(z))), g.own(zt) == 2, g.T(zt) == g.T(z))
    if values: l = And(l, V(z) == V(zl))
    return Implies(And(g.own(z) == 1, z != w.tail[1]), And(Implies(g.L(z) < P, l), Implies(g.T(z) < P, t)))
def compare(w, fn, values, neg, how):
    """how: 'sound' (true implies equal), 'complete' (equal implies true)"""
    ex, st = w.ex, w.st; g = w.g0; gn = w.gen0
    for f in (1, 2): counts(w, st, f)
    st.assume((g.c[1] == g.c[2]) == (g.n[1] == g.n[2]))
    def size(ex, st, a, ins):
        for f in w.F:
            if a[0].r == w.F[f].r: st.reg(a[0].r).cells[0] = (8, g.c[f]); return Ret(g.c[f])
        raise ToolLimit('size of an unknown forest')
    ex.contract(lambda n, d: 'forest<' in d and d.endswith('>::size() const'), size, 'forest::size (own contract)', False)
    if how == 'complete':
        st.assume(g.n[1] == g.n[2]); full = 2 * g.n[1] + 1
        rule = lambda z: agree(w, z, full, values)
        for z in list(st.g['nodes']): st.assume(rule(z))
        st.g['lq'] = st.g.get('lq', []) + [rule]
    def post(ex, st, rv):
        rv = to_bool(rv); rv = Not(rv) if neg else rv
        if how == 'complete': ex.check(st, rv, 'forests that agree compare equal')
        else:
            s = st.fork(); z = fresh('any'); w.note(s, z); s.assume(rv)
            ex.check(s, g.n[1] == g.n[2], 'forests that compare equal have the same number of nodes')
            ex.check(s, agree(w, z, 2 * g.n[1] + 1, values), 'forests that compare equal agree edge by edge')
        R = st.mem[w.N]; ex.check(st, all(R.cells[(o, 8)].eq(w.h0[k]) for k, o in OFF.items()) and R.cells[(VAL, 8)].eq(w.v0) and not st.g.get('allocs') and not st.g.get('freed'), 'frame: neither forest is modified')
        for f in w.F:
            sz = to_bv(ex.load(st, w.F[f], I64), 64); ex.check(st, Or(sz == 0, sz == g.c[f]), 'frame: a cached size is the number of nodes')
    ex.loopspecs.append(lambda ex, st, fn, h: LockLoop(w, values) if 'operator==' in fn.dem or 'operator!=' in fn.dem or 'equal_shape' in fn.dem or w.inloop(fn) else None)
    w.inloop = lambda fn: 'stlab' in fn.dem and 'std::' not in fn.dem.split('(')[0]
    w.pc0 = list(st.pc); w.seen0 = dict(st.g['seen']); w.nodes0 = list(st.g['nodes'])
    ex.verify('%s (%s)' % (fn, how), st, fn, [w.F[1], w.F[2]], post)
def sizes(w):
    ex, st = w.ex, w.st; g = w.g0; counts(w, st, 1); preorder_contract(w, ex)
    ex.loopspecs.append(lambda ex, st, fn, h: CountLoop(w))
    def post(ex, st, rv):
        ex.check(st, to_bv(rv, 64) == g.c[1], 'size() is the number of nodes'); sz = to_bv(ex.load(st, w.F[1], I64), 64); ex.check(st, Or(sz == 0, sz == g.c[1]), 'the cached size is the number of nodes')
        R = st.mem[w.N]; ex.check(st, all(R.cells[(o, 8)].eq(w.h0[k]) for k, o in OFF.items()) and R.cells[(VAL, 8)].eq(w.v0), 'frame: the forest is not modified')
    ex.verify('size', st, 'd_size', [w.F[1]], post)
# ---- special members over abstract trees
EMPTY = z3.IntVal(0)
cat = z3.Function('cat', I, I, I)
def special(fn, alias=False):
    ex = Engine(mod()); s = State(); ex.cur = 'forest ' + fn + (' (self)' if alias else ''); (s, r), = ex.invoke_fn(s, 'f_sizeof', [0]); SZ = r.v; (s, r), = ex.invoke_fn(s, 'f_sizeof', [1])
    pos = Ptr(ex.new_region(s, None, 'positions', 'indexed', esize=64)); s.mem[pos.r].meta['nullable'] = True
    def tree(st, p):
        t = st.g['tree'].get((p.r, p.o))
        if t is None: ex.check(st, False, 'memory-safety: a forest operation on something that is not a live forest'); raise ToolLimit('forest object')
        return t
    def put(st, p, t): st.g['tree'] = {**st.g['tree'], (p.r, p.o): t}
    def join(a, b): return b if a.eq(EMPTY) else a if b.eq(EMPTY) else cat(a, b)
    s.g['tree'] = {}; s.g['dead'] = ()
    def where(st, p):
        v = ex.load(st, p, PTR); e = ex.load(st, p.add(8), I8)
        for k, (x, w) in st.g.get('posn', {}).items():
            if isinstance(v, Ptr) and v.r == pos.r and ex.must(st, zi(v.i) == k): return x, w
        raise ToolLimit('iterator is neither begin nor end of a forest')
    def mkpos(which):
        def h(ex, st, a, ins):
            o, f = (a[0], a[1]) if len(a) > 1 else (None, a[0])
            if o is None: raise ToolLimit('begin()/end() returned in registers')
            tree(st, f); ks = st.g.get('posn', {}); k = len(ks) + 1
            for i, v in ks.items():
                if v == ((f.r, f.o), which): k = i
            st.g['posn'] = {**ks, k: ((f.r, f.o), which)}
            ex.store(st, o, Ptr(pos.r, z3.IntVal(k), 0), PTR); ex.store(st, o.add(8), 0 if which == 'end' else 1, I8); return Ret(None)
        return h
    is_f = lambda d: '::forest<V>::' in d
    for nm in ('begin', 'end'):
        ex.contract(lambda n, d, nm=nm: is_f(d) and (d.endswith('forest<V>::%s()' % nm) or d.endswith('forest<V>::%s() const' % nm)), mkpos(nm), 'forest::' + nm, False)
    def erase_range(ex, st, a, ins):
        o, f, x, y = a; (fx, wx), (fy, wy) = where(st, x), where(st, y)
        if (fx, wx, fy, wy) != ((f.r, f.o), 'begin', (f.r, f.o), 'end'): raise ToolLimit('erase of a part')
        t = tree(st, f)
        if not t.eq(EMPTY): st.g['dead'] = st.g['dead'] + (t,)
        put(st, f, EMPTY); ex.store(st, o, ex.load(st, y, PTR), PTR); ex.store(st, o.add(8), ex.load(st, y.add(8), I8), I8); return Ret(None)
    ex.contract(lambda n, d: is_f(d) and d.split('forest<V>::')[1].startswith('erase(') if '::forest<V>::' in d else False, lambda ex, st, a, ins: erase_range(ex, st, a, ins) if len(a) == 4 else (_ for _ in ()).throw(ToolLimit('erase(position)')), 'forest::erase(first, last)', False)
    def splice(ex, st, a, ins):
        if len(a) != 4: raise ToolLimit('splice of a part')
        o, f, p, x = a; fp, wp = where(st, p)
        if fp != (f.r, f.o): raise ToolLimit('splice position')
        ex.check(st, (f.r, f.o) != (x.r, x.o), 'precondition of splice: the source is another forest')
        t, u = tree(st, f), tree(st, x); put(st, f, join(t, u) if wp == 'end' else join(u, t)); put(st, x, EMPTY); ex.store(st, o, Ptr(pos.r, z3.IntVal(0), 0), PTR); ex.store(st, o.add(8), 1, I8); return Ret(None)
    ex.contract(lambda n, d: is_f(d) and '::splice(' in d, splice, 'forest::splice (C01)', False)
    def insert(ex, st, a, ins):
        if len(a) != 5: raise ToolLimit('insert of one value')
        o, f, p, x, y = a; fp, wp = where(st, p); (fx, wx), (fy, wy) = where(st, x), where(st, y)
        if fp != (f.r, f.o) or fx != fy or (wx, wy) != ('begin', 'end') or fx == fp: raise ToolLimit('insert of a part')
        t = tree(st, f); u = st.g['tree'][fx]; put(st, f, join(t, u) if wp == 'end' else join(u, t)); ex.store(st, o, Ptr(pos.r, z3.IntVal(0), 0), PTR); ex.store(st, o.add(8), 1, I8); return Ret(None)
    ex.contract(lambda n, d: is_f(d) and '::insert(' in d, insert, 'forest::insert(range) copies', False)
    def nodes(ex, st, a, ins): return Ret(None)
    def fctor(ex, st, a, ins): put(st, Ptr(a[0].r, None, a[0].o - 8), EMPTY); return Ret(None)
    ex.contract(lambda n, d: 'node_base<' in d and '::node_base()' in d, fctor, 'sentinel construction: an empty forest', False)
    def region(name):
        p = Ptr(ex.new_region(s, SZ, name)); s.mem[p.r].cells[0] = (8, fresh('size', 'bv', 64)); return p
    f = region('f'); x = f if alias else region('g'); tf, tg = z3.Int('treef'), z3.Int('treeg'); s.assume(tf > 0, tg > 0)
    if 'ctor' not in fn: put(s, f, tf)
    if not alias: put(s, x, tg)
    else: tg = tf
    sub = [0]; n = 0
    args = [f] if fn in ('d_dtor', 'd_clear') else [f, x]
    for st, r in ex.invoke_fn(s, fn, args):
        n += 1; ex.check(st, isinstance(r, Ret), 'does not throw'); T = lambda p: st.g['tree'].get((p.r, p.o)); dead = list(st.g['dead']); is_ = lambda t, u: t is not None and t.eq(u)
        want = {'d_copy_ctor': (tg, tg, []), 'd_move_ctor': (tg, EMPTY, []), 'd_copy_assign': (tg, tg, [tf]), 'd_move_assign': (tg, EMPTY, [tf]), 'd_fswap': (tg, tf, []), 'd_stdswap': (tg, tf, []), 'd_clear': (EMPTY, None, [tf]), 'd_dtor': (EMPTY, None, [tf])}[fn]
        if alias: want = (tf, tf, [])
        ex.check(st, is_(T(f), want[0]), 'the target holds exactly the tree of the source')
        if want[1] is not None: ex.check(st, is_(T(x), want[1]), 'the source is unchanged by a copy, empty after a move, exchanged by a swap')
        ex.check(st, sorted(d.sexpr() for d in dead) == sorted(d.sexpr() for d in want[2]), 'every node of the old tree is destroyed, and no other')
        left = [k for k, t in st.g['tree'].items() if k not in ((f.r, f.o), (x.r, x.o)) and not t.eq(EMPTY)]
        ex.check(st, not left, 'no tree is left in a temporary')
    ex.check(s, n >= 1, 'cover: a path returns'); return ex
SP = [('d_copy_ctor', False), ('d_move_ctor', False), ('d_copy_assign', False), ('d_move_assign', False), ('d_move_assign', True), ('d_fswap', False), ('d_fswap', True), ('d_stdswap', False), ('d_clear', False), ('d_dtor', False)]
CM = [(fn, v, n, how) for fn, v, n in (('d_eq', True, False), ('d_ne', True, True), ('d_shape', False, False)) for how in ('sound', 'complete')]
MUT = ['insert', 'push_front/push_back', 'child_adaptor push', 'erase', 'pop_front/pop_back', 'child_adaptor pop', 'insert_parent', 'construct'] + [n for n in SF.OPS if n.startswith('splice')]
def units(tier): return [('cmp',) + u for u in reversed(CM)] + [('mut', n, k) for n in reversed(MUT) for k in range(SF.count(n))] + [('size',)] + [('sp',) + u for u in SP]
def run(u, **kw):
    if u[0] == 'mut': return [SF.run_one(u[1], u[2], True)]
    if u[0] == 'sp': return [special(*u[1:])]
    w = world(1 if u[0] == 'size' else 2)
    if u[0] == 'size': sizes(w)
    else: compare(w, *u[1:])
    return [w.ex]
