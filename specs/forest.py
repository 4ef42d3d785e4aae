"""Contracts for stlab::forest.

Abstract view of a forest f with n nodes and tail node t: the circular full-order sequence of 2n+2 edges.  Ghost maps
L(x), T(x) give the position of the leading / trailing edge of node x, with L(t)=0 and T(t)=2n+1; own(x) is the forest
x belongs to (0 = not allocated).  wf(f) states, for every node x: positions are injective, bracketed and laminar, and
each of the four stored links agrees with "next position" / "previous position" in that sequence.
A mutator's postcondition gives the new sequence as an explicit function of the old one.
"""
import z3, itertools
from irv.core import *
from irv.loops import LoopCut, Place, same
from irv.build import bitcode
from irv.llvm import Module

A = z3.ArraySort
I = z3.IntSort()
OFF = {('T', 'P'): 0, ('T', 'N'): 8, ('L', 'P'): 16, ('L', 'N'): 24}
VAL = 32

And_ = z3.And
class Codec:
    """node pointer <-> node reference (0 = null)"""
    def __init__(s, N): s.N = N
    def enc(s, ex, st, v):
        if isinstance(v, Null): return z3.IntVal(0)
        if isinstance(v, Ptr) and v.r == s.N and v.o == 0: return zi(v.i)
        raise ToolLimit('storing %r as a node link' % (v,))
    def dec(s, ex, st, t): return Ptr(s.N, t, 0)

class G:
    """ghost maps as python closures over z3 terms (functional update)"""
    def __init__(s, own, L, T, n, c=None): s.own = own; s.L = L; s.T = T; s.n = n; s.c = c  # n: dict forest-> Int term

class Gen:
    """a generation: symbolic well-formed heap + ghost maps (fresh functions), facts instantiated per node term"""
    k = itertools.count()
    def __init__(s, w, h, own=None):
        i = next(Gen.k); s.w = w; s.h = h
        f = lambda n, *a: z3.Function('%s_%d' % (n, i), *a)
        s.own, s.L, s.T = f('own', I, I), f('L', I, I), f('T', I, I)
        s.atn = {k: f('nodeat%d' % k, I, I) for k in range(1, w.nf + 1)}; s.atl = {k: f('leadat%d' % k, I, z3.BoolSort()) for k in range(1, w.nf + 1)}
        s.n = {k: z3.Int('n%d_%d' % (k, i)) for k in range(1, w.nf + 1)}; s.c = {k: z3.BitVec('cnt%d_%d' % (k, i), 64) for k in range(1, w.nf + 1)}
        s.g = G(s.own, s.L, s.T, dict(s.n), dict(s.c)); s.rel = []; s.rel2 = []
    def base(s):
        out = []
        for f in s.n:
            t = s.w.tail[f]
            out += [s.n[f] >= 0, s.n[f] < 2**61, (s.n[f] == 0) == (s.c[f] == 0), z3.ULT(s.c[f], 1 << 61), s.own(t) == f, s.L(t) == 0, s.T(t) == 2 * s.n[f] + 1]
        return out
    def rng(s, x):
        out = [s.own(x) >= 0, s.own(x) <= s.w.nf]
        for f in s.n:
            t = s.w.tail[f]; n = s.n[f]
            out.append(z3.Implies(s.own(x) == f, z3.And(0 <= s.L(x), s.L(x) < s.T(x), s.T(x) <= 2 * n + 1,
                z3.Implies(x != t, z3.And(s.L(x) > 0, s.T(x) < 2 * n + 1)),
                s.atn[f](s.L(x)) == x, s.atl[f](s.L(x)), s.atn[f](s.T(x)) == x, z3.Not(s.atl[f](s.T(x))), x > 0)))
        return out
    def at(s, f, p):
        """every position of the sequence holds an edge"""
        x = s.atn[f](p); return [z3.Implies(z3.And(p >= 0, p <= 2 * s.n[f] + 1), z3.And(s.own(x) == f, z3.If(s.atl[f](p), s.L(x), s.T(x)) == p))]
    def facts(s, x):
        out = list(s.rng(x)); w = s.w
        for k in OFF: out += s.rng(z3.Select(s.h[k], x))
        for f in s.n: out.append(z3.Implies(s.own(x) == f, z3.And([c for _, c in w.J(x, f, s.own, s.L, s.T, s.h, w.tail[f])])))
        for r in s.rel:
            out += r(x)
            for k in OFF: out += r(z3.Select(s.h[k], x))
        return out
    def lam(s, x, y):
        return [z3.Implies(z3.And(s.own(x) == s.own(y), s.own(x) != 0), z3.And(z3.Not(z3.And(s.L(x) < s.L(y), s.L(y) < s.T(x), s.T(x) < s.T(y))), z3.Not(z3.And(s.L(y) < s.L(x), s.L(x) < s.T(y), s.T(y) < s.T(x)))))] + [f for r in s.rel2 for f in r(x, y)]

class ForestWorld:
    def __init__(w, ex, nf=1):
        w.ex = ex; st = w.st = State(); w.memo = {}
        w.nf = nf
        w.N = ex.new_region(st, None, 'nodes', 'indexed', esize=40)
        ex.esizes = {w.N: 40}
        R = st.mem[w.N]; R.meta['nullable'] = True; R.codec = {o: Codec(w.N) for o in OFF.values()}
        w.h0 = {}
        for k, o in OFF.items():
            a = z3.Const('h0_%s%s' % k, A(I, I)); R.cells[(o, 8)] = a; w.h0[k] = a
        w.v0 = z3.Const('h0_val', A(I, z3.BitVecSort(64))); R.cells[(VAL, 8)] = w.v0
        w.tail = {f: z3.Int('tail%d' % f) for f in range(1, nf + 1)}
        w.gen0 = g0 = Gen(w, w.h0); w.own0, w.L0, w.T0, w.n0, w.c0 = g0.own, g0.L, g0.T, g0.n, g0.c
        w.g0 = g0.g
        st.g['G'] = w.g0; st.g['seen'] = {}; st.g['nodes'] = []; st.g['gens'] = [g0]
        st.assume(*g0.base()); w.size0 = {}
        w.F = {}
        R.meta['access'] = w.access
        for f in range(1, nf + 1):
            t = w.tail[f]; st.assume(t > 0)
            r = ex.new_region(st, 48, 'forest%d' % f); w.F[f] = Ptr(r)
            RR = st.mem[r]; sz = z3.BitVec('size%d' % f, 64); w.size0[f] = sz
            RR.cells[0] = (8, sz); RR.meta['subobj'] = {(8, 40): (w.N, t)}
            st.assume(z3.Or(sz == 0, sz == w.c0[f]))
            w.note(st, t)
        if nf == 2: st.assume(w.tail[1] != w.tail[2])
    def J(w, x, f, own, L, T, h, tail):
        LN, LP, TN, TP = (lambda y: z3.Select(h['L', 'N'], y)), (lambda y: z3.Select(h['L', 'P'], y)), (lambda y: z3.Select(h['T', 'N'], y)), (lambda y: z3.Select(h['T', 'P'], y))
        a, b, c, d = LN(x), TN(x), TP(x), LP(x)
        return [
            ('leading.next', z3.And(own(a) == f, z3.If(a == x, z3.And(T(x) == L(x) + 1, TP(x) == x), z3.And(L(a) == L(x) + 1, LP(a) == x)))),
            ('trailing.next', z3.If(x == tail, b == x, z3.And(own(b) == f, b != x, z3.If(LP(b) == x, L(b) == T(x) + 1, z3.And(T(b) == T(x) + 1, TP(b) == x))))),
            ('trailing.prior', z3.And(own(c) == f, z3.If(c == x, z3.And(T(x) == L(x) + 1, LN(x) == x), z3.And(T(x) == T(c) + 1, TN(c) == x)))),
            ('leading.prior', z3.If(x == tail, d == x, z3.And(own(d) == f, d != x, z3.If(TN(d) == x, L(x) == T(d) + 1, z3.And(L(x) == L(d) + 1, LN(d) == x))))),
        ]
    def note(w, st, x):
        """instantiate the well-formedness of every heap generation at node term x"""
        x = zi(x); k = x.sexpr()
        if k in st.g['seen']: return
        st.g['seen'][k] = 1
        for gn in st.g['gens']:
            st.assume(*gn.facts(x))
            for y in st.g['nodes']: st.assume(*gn.lam(x, y))
        st.g['nodes'] = st.g['nodes'] + [x]
    def newgen(w, st, h, rel=(), rel2=()):
        gn = Gen(w, h); gn.rel = list(rel); gn.rel2 = list(rel2)
        return gn
    def addgen(w, st, gn):
        st.assume(*gn.base())
        ns = st.g['nodes']
        for i, x in enumerate(ns):
            st.assume(*gn.facts(x))
            for y in ns[:i]: st.assume(*gn.lam(x, y))
        st.g['gens'] = st.g['gens'] + [gn]
    def access(w, ex, st, p, size, what):
        x = zi(p.i)
        w.note(st, x)
        k = (x.get_id(), id(st.g['G']))
        if k in st.g['seen']: return
        st.g['seen'][k] = x
        ex.check(st, st.g['G'].own(x) != 0, 'memory-safety: %s of an unallocated node' % what)
    # ---- building arguments
    def iter(w, st, f, name, end_ok=True, root_ok=False, edge=None):
        x = z3.Int(name + '_node'); e = z3.Bool(name + '_edge') if edge is None else edge
        w.note(st, x)
        st.assume(w.own0(x) == f)
        if not end_ok: st.assume(x != w.tail[f])
        elif not root_ok:
            st.assume(z3.Implies(x == w.tail[f], z3.Not(to_bool(e))))
        p = w.mkiter(st, x, e)
        return p, x, e
    def mkiter(w, st, x, e):
        r = w.ex.new_region(st, 16, 'iterator')
        st.mem[r].cells[0] = (8, Ptr(w.N, x, 0)); st.mem[r].cells[8] = (1, to_bv(e, 8) if not isinstance(e, int) else e)
        return Ptr(r)
    def out(w, st): return Ptr(w.ex.new_region(st, 16, 'out iterator'))
    def getiter(w, st, p):
        c = st.mem[p.r].cells
        n = c.get(p.o); e = c.get(p.o + 8)
        if not n or not isinstance(n[1], Ptr): raise ToolLimit('iterator layout')
        v = e[1]
        return zi(n[1].i), (z3.BoolVal(v != 0) if isinstance(v, int) else (v if z3.is_bool(v) else v != 0))
    def value(w, st, name):
        r = w.ex.new_region(st, 8, 'value'); t = z3.BitVec(name, 64); st.mem[r].cells[0] = (8, t)
        return Ptr(r), t
    def pos(w, g, x, e): return z3.If(to_bool(e), g.L(x), g.T(x))
    # ---- node allocation / deletion (contracts of operator new / delete for node<T>)
    def install(w):
        ex = w.ex
        def new(ex, st, a, ins):
            if simp(a[0]) != 40: return None
            z = z3.Int('node#%d%s' % (len(st.g.get('allocs', [])), st.g.get('tag', ''))); g = st.g['G']
            w.note(st, z)
            st.assume(z > 0, w.own0(z) == 0, g.own(z) == 0)
            for y in st.g.get('allocs', []): st.assume(z != y)
            st.g['allocs'] = st.g.get('allocs', []) + [z]
            o = g.own
            st.g['G'] = G((lambda x, o=o, z=z: z3.If(x == z, 9, o(x))), g.L, g.T, g.n, g.c)   # 9 = allocated, not linked
            return Ret(Ptr(w.N, z, 0))
        def delete(ex, st, a, ins):
            p = a[0]
            if not (isinstance(p, Ptr) and p.r == w.N): return None
            x = zi(p.i); w.note(st, x); g = st.g['G']
            ex.check(st, g.own(x) != 0, 'memory-safety: a node is deleted exactly once')
            ex.check(st, z3.And([x != w.tail[f] for f in w.tail]), 'memory-safety: the sentinel is never deleted')
            ex.check(st, z3.Select(st.g['vlive'], x) if 'vlive' in st.g else True, 'x') if False else None
            st.g['freed'] = st.g.get('freed', []) + [x]
            o = g.own; st.g['G'] = G((lambda y, o=o, x=x: z3.If(y == x, 0, o(y))), g.L, g.T, g.n, g.c)
            return Ret(None)
        ex.hooks['new'] = new; ex.hooks['delete'] = delete
        # element type: opaque Regular with ghost value t
        def cp(ex, st, a, ins):
            v = ex.load(st, a[1], I64); ex.store(st, a[0], v, I64); return Ret(None)
        def mv(ex, st, a, ins):
            v = ex.load(st, a[1], I64); ex.store(st, a[1], fresh('moved', 'bv', 64), I64); ex.store(st, a[0], v, I64); return Ret(None)
        def dt(ex, st, a, ins): ex.access_ok(st, a[0], 8, 'destroy'); return Ret(None)
        def cpt(ex, st, a, ins):
            v = ex.load(st, a[1], I64); ex.store(st, a[0], v, I64); return Ret(a[0])
        ex.contract('V::V(V const&)', cp, trusted=True); ex.contract('V::V(V&&)', mv, trusted=True)
        ex.contract('V::operator=(V const&)', cpt, trusted=True); ex.contract('V::operator=(V&&)', cpt, trusted=True)
        ex.contract('V::~V()', dt, trusted=True)
        ex.contract('operator==(V const&, V const&)', lambda ex, st, a, ins: Ret(simp(ex.load(st, a[0], I64) == ex.load(st, a[1], I64) if True else 0)), trusted=True)
        ex.contract('operator!=(V const&, V const&)', lambda ex, st, a, ins: Ret(simp(z3.Not(to_bv(ex.load(st, a[0], I64), 64) == to_bv(ex.load(st, a[1], I64), 64)))), trusted=True)
    def heap(w, st):
        R = st.mem[w.N]
        return {k: R.cells[(o, 8)] for k, o in OFF.items()}
    def pure(w, ex, st, xs, hyp, c, name):
        """obligation about the ghost sequences only: first tried without the heap facts of the path, and shared between paths"""
        key = hyp.sexpr() + '|' + c.sexpr() + '|' + ','.join(a.sexpr() for a in st.g.get('allocs', []))
        if w.memo.get(key): ex.check(st, True, name); return
        if getattr(w, 'pbase', None): return w.pure_gen(ex, st, xs, hyp, c, name, key)
        s = State(); s.pc = list(w.pc0); s.g = {'seen': dict(w.seen0), 'nodes': list(w.nodes0)}
        for z in list(st.g.get('allocs', [])) + list(st.g.get('freed', [])):
            s.pc += w.gen0.rng(z); s.g['nodes'].append(z)
            if any(z is a for a in st.g.get('allocs', [])): s.pc += [w.own0(z) == 0]
        for x in xs:
            s.pc += w.gen0.rng(x)
            for r in w.gen0.rel: s.pc += r(x)
            for y in s.g['nodes']: s.pc += w.gen0.lam(x, y)
            s.g['nodes'] = s.g['nodes'] + [x]
        s.pc.append(hyp)
        if ex.must(s, c): w.memo[key] = True; ex.check(s, c, name); return
        s = st.fork()
        for x in xs: w.note(s, x)
        s.pc.append(hyp); ex.check(s, c, name)
    def pure_gen(w, ex, st, xs, hyp, c, name, key):
        gn, ks = w.pbase
        ns = list(ks) + list(st.g.get('allocs', [])) + list(st.g.get('freed', [])) + list(xs)
        s = State(); s.pc = list(gn.base())
        for x in w.tail.values(): ns.append(x)
        for z in st.g.get('allocs', []): s.pc += [gn.own(z) == 0, w.own0(z) == 0]
        for i, x in enumerate(ns):
            s.pc += gn.rng(x)
            for r in gn.rel: s.pc += r(x)
            for y in ns[:i]: s.pc += gn.lam(x, y)
        s.pc.append(hyp)
        if ex.must(s, c): w.memo[key] = True; ex.check(s, c, name); return
        s = st.fork()
        for x in xs: w.note(s, x)
        s.pc.append(hyp); ex.check(s, c, name)
    # ---- postcondition: the current heap represents ghost g
    def check_wf(w, ex, st, g, forests=None, keepval=True, newvals=(), what=''):
        h = w.heap(st)
        if getattr(w, 'sizes_only', False):
            for f in forests or w.tail: sz = w.ex.load(st, w.F[f], I64); ex.check(st, z3.Or(to_bv(sz, 64) == 0, to_bv(sz, 64) == g.c[f]), what + 'forest %d: a cached size is the number of nodes' % f)
            return
        for f in forests or w.tail:
            s = st.fork()
            x = z3.Int('any_x'); y = z3.Int('any_y')
            w.note(s, x)
            t = w.tail[f]
            s.assume(g.own(x) == f)
            for n, c in w.J(x, f, g.own, g.L, g.T, h, t):
                ex.check(s, c, what + 'forest %d is well formed: %s' % (f, n))
            w.pure(ex, st, [x], And_([g.own(x) == f]), z3.And(0 <= g.L(x), g.L(x) < g.T(x), g.T(x) <= 2 * g.n[f] + 1, z3.If(x == t, z3.And(g.L(x) == 0, g.T(x) == 2 * g.n[f] + 1), z3.And(g.L(x) > 0, g.T(x) < 2 * g.n[f] + 1))), what + 'forest %d: positions bracket and stay within the sequence' % f)
            two = And_([g.own(x) == f, g.own(y) == f, x != y])
            for c in (g.L(x) != g.L(y), g.L(x) != g.T(y), g.T(x) != g.T(y)):
                w.pure(ex, st, [x, y], two, c, what + 'forest %d: each position holds one edge' % f)
            w.pure(ex, st, [x, y], two, z3.Not(z3.And(g.L(x) < g.L(y), g.L(y) < g.T(x), g.T(x) < g.T(y))), what + 'forest %d: edges nest' % f)
            sz = w.ex.load(st, w.F[f], I64)
            ex.check(st, z3.Or(to_bv(sz, 64) == 0, to_bv(sz, 64) == g.c[f]), what + 'forest %d: a cached size is the number of nodes' % f)
        # frame: every surviving node keeps its value; no node lost or leaked
        s = st.fork(); x = fresh('any'); w.note(s, x)
        v = st.mem[w.N].cells[(VAL, 8)]
        c = z3.Select(v, x) == z3.Select(w.v0, x)
        s.assume(w.own0(x) != 0, g.own(x) != 0, z3.And([x != w.tail[f] for f in w.tail]))
        ex.check(s, c, what + 'every other node keeps its value')
        s = st.fork(); x = fresh('any'); w.note(s, x)
        ex.check(s, (g.own(x) != 0) == (st.g['G'].own(x) != 0), what + 'ownership: exactly the intended nodes are allocated and linked')

def load_world(nf=1, **kw):
    global _M
    if _M is None: _M = Module(bitcode('/verif/drivers/forest.cpp' if False else __import__('os').path.join(__import__('irv.build').build.VERIF, 'drivers/forest.cpp')))
    ex = Engine(_M, **kw); w = ForestWorld(ex, nf); w.install()
    return w
_M = None

# =====================================================================================================================
# contracts
If, And, Or, Not, Implies = z3.If, z3.And, z3.Or, z3.Not, z3.Implies
def linked(w, st):
    """an allocated node that the code linked counts as belonging to forest 1"""
    gg = st.g['G']; o = gg.own
    st.g['G'] = G(lambda y: If(o(y) == 9, 1, o(y)), gg.L, gg.T, gg.n, gg.c)

def g_insert(g, z, q, f=1):
    sh = lambda own: (lambda a: If(a >= q, a + 2, a))
    L = lambda y: If(y == z, q, If(g.own(y) == f, If(g.L(y) >= q, g.L(y) + 2, g.L(y)), g.L(y)))
    T = lambda y: If(y == z, q + 1, If(g.own(y) == f, If(g.T(y) >= q, g.T(y) + 2, g.T(y)), g.T(y)))
    n = dict(g.n); n[f] = n[f] + 1; c = dict(g.c); c[f] = c[f] + 1
    return G(lambda y: If(y == z, f, g.own(y)), L, T, n, c)
def g_erase(g, z, f=1):
    lz, tz = g.L(z), g.T(z)
    sh = lambda a: a - If(a > lz, 1, 0) - If(a > tz, 1, 0)
    n = dict(g.n); n[f] = n[f] - 1; c = dict(g.c); c[f] = c[f] - 1
    return G(lambda y: If(y == z, 0, g.own(y)), lambda y: If(g.own(y) == f, sh(g.L(y)), g.L(y)), lambda y: If(g.own(y) == f, sh(g.T(y)), g.T(y)), n, c)
def g_move(g, a, b, q, k, kc, f=1, h=1):
    """move the block of edge positions [a,b) of forest h before position q of forest f; k nodes (kc as size_t)"""
    m = b - a
    if f == h:
        def sh(p):
            return If(And(p >= a, p < b), If(q >= b, p + (q - b), p - (a - q)),
                      If(And(q >= b, p >= b, p < q), p - m, If(And(q <= a, p >= q, p < a), p + m, p)))
        return G(g.own, lambda y: If(g.own(y) == f, sh(g.L(y)), g.L(y)), lambda y: If(g.own(y) == f, sh(g.T(y)), g.T(y)), g.n, g.c)
    inb = lambda y: And(g.own(y) == h, g.L(y) >= a, g.L(y) < b)
    def P(fn):
        return lambda y: If(inb(y), fn(y) - a + q, If(g.own(y) == h, If(fn(y) >= b, fn(y) - m, fn(y)), If(g.own(y) == f, If(fn(y) >= q, fn(y) + m, fn(y)), fn(y))))
    n = dict(g.n); c = dict(g.c); n[f] = n[f] + k; n[h] = n[h] - k; c[f] = c[f] + kc; c[h] = c[h] - kc
    return G(lambda y: If(inb(y), f, g.own(y)), P(g.L), P(g.T), n, c)

def valid(w, x): return w.own0(x) != 0
OPS = {}
def op(name, nf=1, tier=0):
    def d(fn): OPS[name] = (fn, nf); return fn
    return d

@op('next')
def _(w, ex, st):
    p, x, e = w.iter(st, 1, 'i', root_ok=True)
    def post(ex, st, rv):
        y, f = w.getiter(st, p); w.note(st, y); g = w.g0
        last = w.pos(g, x, e) == 2 * g.n[1] + 1
        ex.check(st, And(g.own(y) == 1, w.pos(g, y, f) == If(last, 0, w.pos(g, x, e) + 1)), 'the next edge of the full-order traversal')
        w.unchanged(ex, st)
    for d in ('d_next', 'd_cnext'): yield d, [p], post
@op('prev')
def _(w, ex, st):
    p, x, e = w.iter(st, 1, 'i', root_ok=True)
    def post(ex, st, rv):
        y, f = w.getiter(st, p); w.note(st, y); g = w.g0
        ex.check(st, And(g.own(y) == 1, w.pos(g, y, f) == If(w.pos(g, x, e) == 0, 2 * g.n[1] + 1, w.pos(g, x, e) - 1)), 'the previous edge of the full-order traversal')
        w.unchanged(ex, st)
    for d in ('d_prev', 'd_cprev'): yield d, [p], post
@op('begin/end/root/empty')
def _(w, ex, st):
    o = w.out(st); g = w.g0
    for d, want in (('d_begin', 1), ('d_end', 2 * g.n[1] + 1), ('d_root', 0)):
        def post(ex, st, rv, want=want):
            y, f = w.getiter(st, o); w.note(st, y)
            ex.check(st, And(g.own(y) == 1, w.pos(g, y, f) == want), 'position'); w.unchanged(ex, st)
        yield d, [w.F[1], o], post
    def post(ex, st, rv):
        ex.check(st, to_bool(rv) == (g.n[1] == 0), 'empty() iff there are no nodes'); w.unchanged(ex, st)
    yield 'd_empty', [w.F[1]], post
@op('insert')
def _(w, ex, st):
    p, x, e = w.iter(st, 1, 'pos'); v, t = w.value(st, 'newval'); o = w.out(st)
    def post(ex, st, rv):
        z, ze = w.getiter(st, o); w.inserted(ex, st, z, w.pos(w.g0, x, e), t, ze)
    yield 'd_insert', [w.F[1], p, v, o], post
@op('push_front/push_back')
def _(w, ex, st):
    v, t = w.value(st, 'newval')
    for d in ('d_push_front', 'd_push_back'):
        def post(ex, st, rv, d=d):
            z = st.g['allocs'][-1]
            w.inserted(ex, st, z, w.g0.T(w.tail[1]) if d == 'd_push_back' else z3.IntVal(1), t)
        yield d, [w.F[1], v], post
@op('child_adaptor push')
def _(w, ex, st):
    v, t = w.value(st, 'newval'); p, x, e = w.iter(st, 1, 'parent', root_ok=True)
    for d in ('d_child_push_back', 'd_child_push_front'):
        def post(ex, st, rv, d=d):
            z = st.g['allocs'][-1]
            w.inserted(ex, st, z, w.g0.T(x) if d == 'd_child_push_back' else w.g0.L(x) + 1, t)
        yield d, [w.F[1], p, v], post
@op('erase')
def _(w, ex, st):
    p, x, e = w.iter(st, 1, 'pos', end_ok=False); o = w.out(st)
    def post(ex, st, rv):
        g = g_erase(w.g0, x); w.check_wf(ex, st, g)
        y, f = w.getiter(st, o)
        ex.check(st, And(g.own(y) == 1, w.pos(g, y, f) == If(e, w.g0.L(x), w.g0.T(x) - 1)), 'result is the edge that followed the erased one')
        ex.check(st, len(st.g.get('freed', [])) == 1, 'exactly one node destroyed')
    yield 'd_erase', [w.F[1], p, o], post
@op('pop_front/pop_back')
def _(w, ex, st):
    st.assume(w.n0[1] > 0)
    for d in ('d_pop_front', 'd_pop_back'):
        def post(ex, st, rv, d=d):
            fr = st.g.get('freed', []); ex.check(st, len(fr) == 1, 'exactly one node destroyed')
            if len(fr) != 1: return
            z = fr[0]; w.note(st, z)
            ex.check(st, w.g0.L(z) == 1 if d == 'd_pop_front' else w.g0.T(z) == w.g0.T(w.tail[1]) - 1, 'the first / last top-level node is erased')
            w.check_wf(ex, st, g_erase(w.g0, z))
        yield d, [w.F[1]], post
@op('child_adaptor pop')
def _(w, ex, st):
    p, x, e = w.iter(st, 1, 'parent', root_ok=True); st.assume(w.T0(x) > w.L0(x) + 1)
    for d in ('d_child_pop_front', 'd_child_pop_back'):
        def post(ex, st, rv, d=d):
            fr = st.g.get('freed', []); ex.check(st, len(fr) == 1, 'exactly one node destroyed')
            if len(fr) != 1: return
            z = fr[0]; w.note(st, z)
            ex.check(st, w.g0.L(z) == w.g0.L(x) + 1 if d == 'd_child_pop_front' else w.g0.T(z) == w.g0.T(x) - 1, 'the first / last child is erased')
            w.check_wf(ex, st, g_erase(w.g0, z))
        yield d, [w.F[1], p], post
    for d in ('d_child_front', 'd_child_back'):
        def post(ex, st, rv, d=d):
            if not (isinstance(rv, Ptr) and rv.r == w.N and rv.o == VAL): raise ToolLimit('value layout')
            z = zi(rv.i); w.note(st, z)
            ex.check(st, And(w.g0.own(z) == 1, w.g0.L(z) == w.g0.L(x) + 1 if d == 'd_child_front' else w.g0.T(z) == w.g0.T(x) - 1), 'the first / last child')
            w.unchanged(ex, st)
        yield d, [w.F[1], p], post
def balanced(w, st, f, a, ea, b, eb, g=None):
    """[first,last) is a child range: both edges children positions of the same parent: the block of positions is closed under nesting"""
    g = g or w.g0
    return w.pos(g, a, ea), w.pos(g, b, eb)
def closed(w, st, pa, pb, f):
    """precondition of child ranges: for every node, L in [pa,pb) iff T in [pa,pb)  (instantiated at every node term)"""
    gn = w.gen0
    r = lambda x: [Implies(gn.own(x) == f, And(gn.L(x) >= pa, gn.L(x) < pb) == And(gn.T(x) >= pa, gn.T(x) < pb))]
    gn.rel.append(r)
    for y in list(st.g['nodes']):
        st.assume(*r(y))
        for k in OFF: st.assume(*r(z3.Select(gn.h[k], y)))
def splice(w, ex, st, h, mode):
    """mode all/one/range/count"""
    g = w.g0
    p, x, e = w.iter(st, 1, 'pos'); o = w.out(st); q = w.pos(g, x, e)
    k = z3.Int('moved'); kc = z3.BitVec('movedc', 64)
    args = [w.F[1], p, w.F[h]]
    if mode == 'all':
        pa, pb = z3.IntVal(1), g.T(w.tail[h]); st.assume(k == g.n[h], kc == g.c[h])
        args += [o]
    elif mode == 'one':
        i, y, f = w.iter(st, h, 'node', end_ok=False); pa, pb = g.L(y), g.T(y) + 1
        if h == 1: st.assume(Or(q <= pa, q >= pb))
        args += [i, o]
    else:
        i, y, f = w.iter(st, h, 'first'); j, y2, f2 = w.iter(st, h, 'last')
        pa, pb = w.pos(g, y, f), w.pos(g, y2, f2)
        st.assume(pa <= pb, Implies(Not(to_bool(f)), pa == pb))   # a child range: first is a leading edge unless the range is empty
        closed(w, st, pa, pb, h)
        if h == 1: st.assume(Or(q <= pa, q >= pb))
        args += [i, j] + ([kc] if mode == 'count' else []) + [o]
    if mode == 'one': closed(w, st, pa, pb, h)
    if mode != 'all': st.assume(2 * k == pb - pa, Implies(k == 0, kc == 0), Implies(k > 0, kc != 0), k >= 0, z3.ULE(kc, g.c[h]), Implies(k == g.n[h], kc == g.c[h]), Implies(kc == g.c[h], k == g.n[h]))
    if mode == 'one': st.assume(kc == 1 if False else Implies(k == 1, kc == 1))
    st.assume(z3.ULT(g.c[1] + g.c[h], 1 << 62))
    def post(ex, st, rv):
        g2 = g_move(g, pa, pb, q, k, kc, 1, h)
        w.check_wf(ex, st, g2)
        z, ze = w.getiter(st, o); w.note(st, z)
        newp = If(pb == pa, q, If(q >= pb, q - (pb - pa), q) if h == 1 else q)
        ex.check(st, And(g2.own(z) == 1, w.pos(g2, z, ze) == newp), 'result refers to the first edge spliced (or the position)')
    return {'all': 'd_splice_all', 'one': 'd_splice_one', 'range': 'd_splice_range', 'count': 'd_splice_count'}[mode], args, post
for _h in (1, 2):
    for _m in ('all', 'one', 'range', 'count'):
        if (_h, _m) == (1, 'all'): continue
        def _f(w, ex, st, h=_h, m=_m): yield splice(w, ex, st, h, m)
        OPS['splice %s %s' % (_m, 'from another forest' if _h == 2 else 'within the forest')] = (_f, _h)
@op('insert_parent')
def _(w, ex, st):
    g = w.g0; i, y, f = w.iter(st, 1, 'first'); j, y2, f2 = w.iter(st, 1, 'last'); v, t = w.value(st, 'newval'); o = w.out(st)
    pa, pb = w.pos(g, y, f), w.pos(g, y2, f2); st.assume(pa <= pb, Implies(Not(to_bool(f)), pa == pb)); closed(w, st, pa, pb, 1)
    def post(ex, st, rv):
        linked(w, st); z, ze = w.getiter(st, o); w.note(st, z)
        L = lambda y: If(y == z, pa, g.L(y) + If(g.L(y) >= pb, 2, If(g.L(y) >= pa, 1, 0)))
        T = lambda y: If(y == z, pb + 1, g.T(y) + If(g.T(y) >= pb, 2, If(g.T(y) >= pa, 1, 0)))
        g2 = G(lambda y: If(y == z, 1, g.own(y)), L, T, {1: g.n[1] + 1}, {1: g.c[1] + 1})
        ex.check(st, And(w.own0(z) == 0, g2.own(z) == 1, z3.Select(st.mem[w.N].cells[(VAL, 8)], z) == t), 'the new node holds the value')
        w.check_wf(ex, st, g2)
        ex.check(st, w.pos(g2, z, ze) == If(pa == pb, pa, pa) if True else 1, 'result refers to the new parent') if False else None
        ex.check(st, ze if True else 1, 'result is on the leading edge')
    yield 'd_insert_parent', [w.F[1], i, j, v, o], post
@op('construct')
def _(w, ex, st):
    r = ex.new_region(st, 48, 'raw'); t = fresh('tailx'); w.note(st, t)
    st.assume(t > 0, w.own0(t) == 0); g = w.g0
    st.g['G'] = G(lambda y: If(y == t, 9, g.own(y)), g.L, g.T, g.n, g.c)
    st.mem[r].meta['subobj'] = {(8, 40): (w.N, t)}
    def post(ex, st, rv):
        h = w.heap(st)
        ex.check(st, And([z3.Select(h[k], t) == t for k in h]), 'a new forest is empty')
        ex.check(st, ex.load(st, Ptr(r), I64) == 0, 'a new forest has size 0')
    yield 'd_ctor', [Ptr(r)], post

def _unchanged(w, ex, st):
    R = st.mem[w.N]
    ok = all(R.cells[(o, 8)].eq(w.h0[k]) for k, o in OFF.items()) and R.cells[(VAL, 8)].eq(w.v0)
    ok = ok and not st.g.get('freed') and not st.g.get('allocs') and all(st.mem[w.F[f].r].cells[0][1].eq(w.size0[f]) if z3.is_expr(st.mem[w.F[f].r].cells[0][1]) else False for f in w.F)
    ex.check(st, ok, 'frame: the forest is not modified')
ForestWorld.unchanged = _unchanged
def _inserted(w, ex, st, z, q, t, ze=None):
    linked(w, st); w.note(st, z)
    ex.check(st, And(w.own0(z) == 0, st.g['G'].own(z) == 1), 'exactly one new node')
    if ze is not None: ex.check(st, ze, 'result is on the leading edge of the new node')
    ex.check(st, z3.Select(st.mem[w.N].cells[(VAL, 8)], z) == t, 'the new node holds the value')
    w.check_wf(ex, st, g_insert(w.g0, z, q))
ForestWorld.inserted = _inserted

def run_op(name, which=None, **kw):
    """verify all driver functions of an op; returns list of engines"""
    fn, nf = OPS[name]; res = []
    k = 0
    while True:
        w = load_world(nf, **kw); ex = w.ex
        items = list(itertools.islice(fn(w, ex, w.st), k, k + 1))
        if not items: break
        d, args, post = items[0]
        w.pc0 = list(w.st.pc); w.seen0 = dict(w.st.g['seen']); w.nodes0 = list(w.st.g['nodes'])
        ex.verify('forest::%s (%s)' % (name, d), w.st, d, args, post)
        res.append(ex); k += 1
    return res
def count(name):
    fn, nf = OPS[name]; w = load_world(nf)
    return len(list(fn(w, w.ex, w.st)))
def run_one(name, k, sizes_only=False, **kw):
    fn, nf = OPS[name]
    w = load_world(nf, **kw); ex = w.ex; w.sizes_only = sizes_only
    d, args, post = list(itertools.islice(fn(w, ex, w.st), k, k + 1))[0]
    w.pc0 = list(w.st.pc); w.seen0 = dict(w.st.g['seen']); w.nodes0 = list(w.st.g['nodes'])
    if hasattr(w, 'setup'): w.setup()
    ex.verify('forest::%s (%s)' % (name, d), w.st, d, args, post)
    return ex
