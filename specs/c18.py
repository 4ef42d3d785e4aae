"""Contracts for the linked-sequence algorithms (reverse.hpp, set_next.hpp)."""
import os, z3, itertools
from irv.core import *
from irv.loops import LoopCut
from irv.build import bitcode, VERIF
from irv.llvm import Module
ASSUMPTIONS = ['the node iterator and its set_next specialisation are the user\'s part of the contract (the driver\'s own, one pointer each way)',
 'std::reverse / std::reverse_copy do what the standard says (assumed contracts)', 'node ranks are mathematical integers']
BATTERY = [dict(src='linked.cpp', args=[], flags=['-fsanitize=address'], timeout=100, hang_is_failure=True)]
If, And, Or, Not, Implies = z3.If, z3.And, z3.Or, z3.Not, z3.Implies
I = z3.IntSort(); BV = z3.BitVecSort(64)
_M = None
def mod():
    global _M
    if _M is None: _M = Module(bitcode(os.path.join(VERIF, 'drivers/linked.cpp')))
    return _M
def prepare(): mod()
class Codec:
    def __init__(s, N): s.N = N
    def enc(s, ex, st, v):
        if isinstance(v, Null): return z3.IntVal(0)
        if isinstance(v, Ptr) and v.r == s.N and v.o == 0: return zi(v.i)
        raise ToolLimit('storing %r as a node link' % (v,))
    def dec(s, ex, st, t): return Ptr(s.N, t, 0)
class W:
    """nodes are integers > 0 (0 = null); next/prior are arrays; r = rank in the range, at = inverse"""
    def __init__(w):
        w.ex = ex = Engine(mod()); w.st = st = State()
        w.N = ex.new_region(st, None, 'nodes', 'indexed', esize=16); ex.esizes = {w.N: 16}
        R = st.mem[w.N]; R.meta['nullable'] = True; R.codec = {0: Codec(w.N), 8: Codec(w.N)}
        w.n0 = z3.Const('next0', z3.ArraySort(I, I)); w.p0 = z3.Const('prior0', z3.ArraySort(I, I)); R.cells[(0, 8)] = w.n0; R.cells[(8, 8)] = w.p0
        R.meta['access'] = w.access; st.g['ns'] = []; st.g['q'] = []
        w.r = z3.Function('rank', I, I); w.at = z3.Function('at', I, I); w.m = z3.Int('m')
        w.first, w.last, w.end = z3.Ints('first last end'); w.alive = z3.Function('alive', I, z3.BoolSort())
        st.assume(w.m >= 0)
    def access(w, ex, st, p, size, what):
        w.note(st, zi(p.i)); ex.check(st, w.alive(zi(p.i)), 'memory-safety: %s of a node outside the named ones' % what)
    def inr(w, x): return And(w.r(x) >= 0, w.r(x) < w.m)
    def note(w, st, x):
        k = x.sexpr()
        if k in st.g['ns']: return
        st.g['ns'] = st.g['ns'] + [k]
        nx = z3.Select(w.n0, x)
        def rk(y): return [Implies(w.inr(y), And(w.at(w.r(y)) == y, y > 0, w.alive(y), y != w.last, y != w.end))]
        st.assume(*rk(x)); st.assume(*rk(nx))
        st.assume(Implies(w.inr(x), If(w.r(x) + 1 < w.m, And(nx == w.at(w.r(x) + 1), w.r(nx) == w.r(x) + 1), nx == w.last)))
        st.assume(Implies(And(w.inr(x), w.r(x) > 0), And(w.r(w.at(w.r(x) - 1)) == w.r(x) - 1, z3.Select(w.n0, w.at(w.r(x) - 1)) == x)))
        for f in st.g['q']: st.assume(f(x))
    def chain(w, st):
        st.assume(If(w.m == 0, w.first == w.last, And(w.r(w.first) == 0, w.first == w.at(0))), Not(w.inr(w.last)), Not(w.inr(w.end)), w.alive(w.last) if False else z3.BoolVal(True))
        for x in (w.first, w.last, w.end): w.note(st, x)
        z = w.at(w.m - 1); st.assume(Implies(w.m > 0, w.r(z) == w.m - 1)); w.note(st, z)
    def nxt(w, st): return st.mem[w.N].cells[(0, 8)]
class RevLoop(LoopCut):
    name = 'reverse_append loop'; checking = False
    def __init__(s, w): s.w = w
    def bind(s, ex, st0):
        w = s.w; s.cur = s.res = None
        for k, (p, a) in s.widen.items():
            v = p.get(s.entry, s.depth)
            if not (isinstance(v, Ptr) and v.r == w.N): continue
            if ex.must(s.entry, zi(v.i) == w.first): s.res = p
            elif ex.must(s.entry, zi(v.i) == z3.Select(w.n0, w.first)): s.cur = p
    def inv(s, ex, st, places, first):
        w = s.w
        if s.cur is None or s.res is None:
            if s.checking or first: raise ToolLimit('reverse_append loop: cursor variables not recognised')
            return []
        c = zi(s.cur.get(st, s.depth).i); q = zi(s.res.get(st, s.depth).i); w.note(st, c); w.note(st, q)
        i = w.r(q) + 1
        a = w.nxt(st)
        f = lambda z: z3.Select(a, z) == If(And(w.inr(z), w.r(z) >= 1, w.r(z) < i), w.at(w.r(z) - 1), z3.Select(w.n0, z))
        if s.checking or first:
            z = fresh('any'); w.note(st, z); fa = f(z)
        else:
            st.g['q'] = st.g['q'] + [f]; fa = And(f(c), f(q))
            for k in list(st.g['ns']): pass
        return [('the last relinked node is in the range', w.inr(q)), ('the cursor is the node after it in the original order', c == z3.Select(w.n0, q)), ('relinked nodes point at their original predecessor, all others are untouched', fa)]
    def ghost_havoc(s, ex, st): st.g['q'] = [f for f in st.g['q'] if getattr(f, '_p', False)]
    def backedge(s, ex, st):
        s.checking = True
        try: LoopCut.backedge(s, ex, st)
        finally: s.checking = False
class UntilLoop(LoopCut):
    name = 'reverse_until loop'; checking = False
    def __init__(s, w): s.w = w
    def bind(s, ex, st0):
        w = s.w; s.f = s.l = None
        for k, (p, a) in s.widen.items():
            v = p.get(s.entry, s.depth)
            if not (isinstance(v, Ptr) and v.r == w.A): continue
            i = zi(v.i)
            if ex.must(s.entry, i == w.F): s.f = p
            elif ex.must(s.entry, i == w.L): s.l = p
    def idx(s, st, p): v = p.get(st, s.depth); return zi(v.i) + (v.o // 8)
    def inv(s, ex, st, places, first):
        w = s.w
        if s.f is None or s.l is None:
            if first or s.checking: raise ToolLimit('reverse_until loop: cursors not recognised')
            return []
        f, l = s.idx(st, s.f), s.idx(st, s.l); a = st.mem[w.A].cells[(0, 8)]
        body = lambda z: z3.Select(a, z) == w.mirror(z, f, l)
        if first or s.checking: fa = body(z3.Int('any_i'))
        else: fa = And([body(z) for z in w.terms(f, l)]); w.q.append(body); st.g['q'] = st.g['q'] + [body]
        return [('the cursors close in symmetrically around the marker', And(w.F <= f, f <= w.Mk, w.Mk <= l, l <= w.L, f - w.F == w.L - l)), ('exactly the outer elements are exchanged', fa)]
    def backedge(s, ex, st):
        s.checking = True
        try: LoopCut.backedge(s, ex, st)
        finally: s.checking = False
class WA:
    def __init__(w, nobj=2):
        w.ex = ex = Engine(mod()); w.st = st = State(); w.q = []
        w.A = ex.new_region(st, None, 'array', 'indexed', esize=8); w.B = ex.new_region(st, None, 'out', 'indexed', esize=8); ex.esizes = {w.A: 8, w.B: 8}
        w.a0 = z3.Const('a0', z3.ArraySort(I, BV)); w.b0 = z3.Const('b0', z3.ArraySort(I, BV)); st.mem[w.A].cells[(0, 8)] = w.a0; st.mem[w.B].cells[(0, 8)] = w.b0
        w.F, w.Mk, w.L, w.O = z3.Ints('f m l o'); st.g['q'] = []
        st.mem[w.A].meta['access'] = lambda ex, st, p, size, what: ex.check(st, And(zi(p.i) + p.o // 8 >= w.F, zi(p.i) + p.o // 8 < w.L), 'memory-safety: %s outside the range' % what)
    def mirror(w, z, f, l): return If(Or(And(w.F <= z, z < f), And(l <= z, z < w.L)), z3.Select(w.a0, w.F + w.L - 1 - z), z3.Select(w.a0, z))
    def terms(w, f, l): return [z3.Int('any_i'), f, l, l - 1, w.F + w.L - 1 - z3.Int('any_i')]
OPS = ['d_append', 'd_append_range', 'd_nodes', 'd_nodes_range', 'd_set_next', 'd_splice', 'd_skip_next', 'd_bi_splice', 'd_bi_skip_next', 'd_bi_skip', 'd_until', 'd_reverse', 'd_reverse_copy', 'd_reverse_copy_const']
def units(tier): return OPS
def run(d, **kw):
    if d in ('d_until', 'd_reverse', 'd_reverse_copy', 'd_reverse_copy_const'): return [run_arr(d)]
    w = W(); ex, st = w.ex, w.st; P = lambda t: Ptr(w.N, t, 0)
    if d.startswith('d_append') or d.startswith('d_nodes'):
        w.chain(st)
        if 'nodes' in d: st.assume(w.end == w.last)
        ex.loopspecs.append(lambda ex, st, fn, h: RevLoop(w))
        def post(ex, st, rv):
            z = fresh('any'); w.note(st, z); a = w.nxt(st)
            ex.check(st, z3.Select(a, z) == If(w.inr(z), If(w.r(z) == 0, w.end, w.at(w.r(z) - 1)), z3.Select(w.n0, z)), 'every node of the range points at its predecessor, the first at `end`; every other node is unchanged')
            r = z3.IntVal(0) if isinstance(rv, Null) else zi(rv.i)
            ex.check(st, r == If(w.m == 0, w.end, w.at(w.m - 1)), 'the result is the last node of the range (or `end` if empty)')
            ex.check(st, st.mem[w.N].cells[(8, 8)].eq(w.p0), 'frame: nothing else is written')
        args = [P(w.first), P(w.last)] + ([P(w.end)] if 'append' in d else [])
    else:
        x, f, l = z3.Ints('x f l'); n = lambda t: z3.Select(w.n0, t); p = lambda t: z3.Select(w.p0, t)
        bi = d.startswith('d_bi'); nd = lambda ts: [st.assume(t > 0, w.alive(t)) for t in ts]
        st.assume(w.m == 0)
        if 'splice' in d:
            nd([x, f, l, n(x)]); args = [P(x), P(f), P(l)]
            links = [(x, f), (l, n(x))]; st.assume(x != l, x != f, f != n(x), l != n(x))  # valid input: `location` and its successor lie outside the spliced range
        elif 'skip_next' in d: nd([x, n(x), n(n(x))]); args = [P(x)]; links = [(x, n(n(x)))]
        elif d == 'd_bi_skip': nd([x, n(x), p(x)]); args = [P(x)]; links = [(p(x), n(x))]
        else: nd([x, f]); args = [P(x), P(f)]; links = [(x, f)]
        def post(ex, st, rv):
            z = z3.Int('any_x'); wn = n(z); wp = p(z)
            for a, b in links: wn = If(z == a, b, wn); wp = If(z == b, a, wp)
            c = st.mem[w.N].cells
            ex.check(st, z3.Select(c[(0, 8)], z) == wn, 'exactly the intended forward links are set')
            ex.check(st, z3.Select(c[(8, 8)], z) == (wp if bi else p(z)), 'exactly the intended backward links are set')
    ex.verify('linked::%s' % d, st, d, args, post)
    return [ex]
def run_arr(d):
    w = WA(); ex, st = w.ex, w.st; A = lambda t: Ptr(w.A, t, 0); st.assume(w.F <= w.Mk, w.Mk <= w.L)
    if d == 'd_until':
        oa, ob = Ptr(ex.new_region(st, 8, 'out')), Ptr(ex.new_region(st, 8, 'out'))
        ex.loopspecs.append(lambda ex, st, fn, h: UntilLoop(w) if 'reverse_until' in fn.dem else None)
        def post(ex, st, rv):
            g = lambda o: (lambda v: zi(v.i) + v.o // 8)(st.mem[o.r].cells[0][1]); f, l = g(oa), g(ob)
            ex.check(st, And(w.F <= f, f <= w.Mk, w.Mk <= l, l <= w.L, f - w.F == w.L - l, Or(f == w.Mk, l == w.Mk)), 'the unreversed rest is symmetric and touches the marker')
            z = z3.Int('any_i'); 
            for q in st.g['q']: st.assume(q(z))
            ex.check(st, z3.Select(st.mem[w.A].cells[(0, 8)], z) == w.mirror(z, f, l), 'exactly the elements outside the rest are reversed')
        args = [A(w.F), A(w.Mk), A(w.L), oa, ob]
    else:
        def ix(p): return zi(p.i) + p.o // 8
        def rev(ex, st, a, ins):
            b, e = ix(a[0]), ix(a[1]); old = st.mem[w.A].cells[(0, 8)]; new = z3.Const('arr!%d' % next(C_), old.sort())
            st.reg(w.A).cells[(0, 8)] = new
            st.g['q'] = st.g['q'] + [lambda z: z3.Select(new, z) == If(And(b <= z, z < e), z3.Select(old, b + e - 1 - z), z3.Select(old, z))]; return Ret(None)
        def rcp(ex, st, a, ins):
            b, e, o = ix(a[0]), ix(a[1]), ix(a[2])
            if a[2].r != w.B or a[0].r != w.A: raise ToolLimit('reverse_copy arguments')
            src = st.mem[w.A].cells[(0, 8)]; old = st.mem[w.B].cells[(0, 8)]; new = z3.Const('arr!%d' % next(C_), old.sort()); st.reg(w.B).cells[(0, 8)] = new
            st.g['q'] = st.g['q'] + [lambda z: z3.Select(new, z) == If(And(o <= z, z < o + (e - b)), z3.Select(src, e - 1 - (z - o)), z3.Select(old, z))]
            return Ret(Ptr(w.B, o + (e - b), 0))
        ex.contract('void std::reverse<long*>(*', rev, trusted=True); ex.contract('long* std::reverse_copy<long*, long*>(*', rcp, trusted=True)
        def post(ex, st, rv):
            z = z3.Int('any_i'); [st.assume(q(z)) for q in st.g['q']]; a, b = st.mem[w.A].cells[(0, 8)], st.mem[w.B].cells[(0, 8)]
            if d == 'd_reverse': ex.check(st, z3.Select(a, z) == If(And(w.F <= z, z < w.L), z3.Select(w.a0, w.F + w.L - 1 - z), z3.Select(w.a0, z)), 'the whole range is reversed in place')
            else:
                ex.check(st, z3.Select(a, z) == z3.Select(w.a0, z), 'the source is unchanged')
                ex.check(st, z3.Select(b, z) == If(And(w.O <= z, z < w.O + w.L - w.F), z3.Select(w.a0, w.L - 1 - (z - w.O)), z3.Select(w.b0, z)), 'the output holds the reversed range')
        args = [A(w.F), A(w.L)] + ([Ptr(w.B, w.O, 0)] if 'copy' in d else [])
    ex.verify('linked::%s' % d, st, d, args, post)
    return ex
C_ = itertools.count()
