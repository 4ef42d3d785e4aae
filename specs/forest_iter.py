"""Contracts for forest traversal (C02): navigation steps, derived iterators, find_parent, edge search, filtering."""
from .forest import *
from .forest import G, g_insert, g_erase, g_move
from irv.loops import LoopCut

class IterLoop(LoopCut):
    """a loop whose state is one forest iterator (node, edge) starting at (x0,e0)"""
    def __init__(s, w): s.w = w
    def pairs(s):
        """iterator-shaped loop-carried places: (node place key, edge place key or None)"""
        out = []
        for k, (p, a) in s.widen.items():
            v = p.get(s.entry, s.depth)
            if not (isinstance(v, Ptr) and v.r == s.w.N): continue
            if p.kind == 'mem': out.append((k, ('mem', p.a[0], p.a[1] + 8)))
            else: out.append((k, None))
        return out
    def val(s, st, pr):
        k, ek = pr
        v = s.widen[k][0].get(st, s.depth)
        if ek and ek[0] == 'mem':
            c = st.mem[ek[1]].cells.get(ek[2]); e = c[1] if c else None
        else:
            e = None
            for q, (p, a) in s.widen.items():
                if p.kind == 'reg' and s.phiw.get(p.a[0]) in (8, 1): e = p.get(st, s.depth); break
        if not isinstance(v, Ptr) or e is None or isinstance(e, Undef): raise ToolLimit('%s: loop iterator not recognised' % s.name)
        return zi(v.i), (z3.BoolVal(e & 1 != 0) if isinstance(e, int) else (e if z3.is_bool(e) else e != 0)), e
    def bind(s, ex, st0):
        ps = s.pairs()
        s.it = None
        if not ps: return
        good = []
        for pr in ps:
            try: s.val(st0, pr); good.append(pr)
            except ToolLimit: pass
        if good: s.it = good[0]; s.x0, s.e0, _ = s.val(st0, s.it)
    def inv(s, ex, st, places, first):
        if s.it is None: return []
        x, e, raw = s.val(st, s.it); w = s.w; w.note(st, x); w.note(st, s.x0)
        out = [('the cursor is an edge of the forest', w.own0(x) == 1)]
        if not isinstance(raw, int) and z3.is_bv(raw): out.append(('the edge is leading or trailing', z3.ULE(raw, 1)))
        return out + s.steps(ex, st, x, e, w.pos(w.g0, s.x0, s.e0), w.pos(w.g0, x, e), first)
    def forall(s, ex, st, f, first):
        """a universally quantified invariant: assumed at every node term, checked for an arbitrary one"""
        if s.checking or first:
            z = fresh('any'); s.w.note(st, z); return f(z)
        gn = s.w.gen0
        for y in list(st.g['nodes']): st.assume(f(y))
        st.g['lq'] = st.g.get('lq', []) + [f]
        return z3.BoolVal(True)
    checking = False
    def backedge(s, ex, st):
        s.checking = True
        try: LoopCut.backedge(s, ex, st)
        finally: s.checking = False

_note0 = ForestWorld.note
def _note(w, st, x):
    x = zi(x); k = x.sexpr()
    if k in st.g['seen']: return
    _note0(w, st, x)
    for f in st.g.get('lq', []): st.assume(f(x))
ForestWorld.note = _note

class ParentLoop(IterLoop):
    name = 'find_parent loop'
    def steps(s, ex, st, x, e, p0, p, first):
        w = s.w; g = w.g0
        enc = lambda z, y: And(g.own(z) == 1, g.L(z) < g.L(y), g.T(z) > g.T(y))
        return [('the cursor node is not the root', x != w.tail[1]), ('the enclosing nodes are those of the start', s.forall(ex, st, lambda z: enc(z, x) == enc(z, s.x0), first)),
                ('the cursor does not go back', g.T(x) >= g.T(s.x0))]
class EdgeLoop(IterLoop):
    """find_edge / find_edge_reverse: nothing of the wanted kind strictly between start and cursor"""
    name = 'edge search loop'
    def __init__(s, w, lead, back): s.w = w; s.lead = lead; s.back = back
    def steps(s, ex, st, x, e, p0, p, first):
        w = s.w; g = w.g0; k = g.L if s.lead else g.T; last = 2 * g.n[1] + 1
        if not s.back: f = lambda z: Implies(g.own(z) == 1, If(p >= p0, Not(And(p0 <= k(z), k(z) < p)), And(p == 0, k(z) < p0)))
        else: f = lambda z: Implies(g.own(z) == 1, If(p <= p0, Not(And(p < k(z), k(z) <= p0)), And(p == last, k(z) > p0)))
        return [('no edge of the wanted kind was passed', s.forall(ex, st, f, first))]
class SkipLoop(IterLoop):
    name = 'filter skip loop'
    def __init__(s, w, back): s.w = w; s.back = back
    def steps(s, ex, st, x, e, p0, p, first):
        w = s.w; g = w.g0; last = 2 * g.n[1] + 1
        if not s.back:
            f = lambda z: Implies(g.own(z) == 1, And(Implies(And(p0 <= g.L(z), g.L(z) < p), And(g.T(z) < p, w.cov(z))), Implies(And(p0 <= g.T(z), g.T(z) < p), g.L(z) >= p0)))
            return [('only complete rejected subtrees are skipped', s.forall(ex, st, f, first)), ('stays in range', And(p0 <= p, p <= last))]
        f = lambda z: Implies(g.own(z) == 1, And(Implies(And(p < g.T(z), g.T(z) <= p0), And(g.L(z) > p, w.cov(z))), Implies(And(p < g.L(z), g.L(z) <= p0), g.T(z) <= p0)))
        return [('only complete rejected subtrees are skipped', s.forall(ex, st, f, first)), ('stays in range', And(p <= p0, p >= 0))]

def install_loops(w):
    ex = w.ex
    def ls(ex, st, fn, h):
        d = fn.dem
        if 'std::__advance' in d or 'std::advance' in d: return None
        k = w.loopkind
        if k is None: return None
        return k() if callable(k) else k
    ex.loopspecs.append(ls)
    w.loopkind = None
def install_pred(w):
    w.P = z3.Function('pred', I, z3.BoolSort()); w.cov = z3.Function('covered', I, z3.BoolSort()); w.cw = z3.Function('covered_by', I, I)
    def pred(ex, st, a, ins):
        p = a[0]
        if not (isinstance(p, Ptr) and p.r == w.N and p.o == VAL): raise ToolLimit('predicate argument')
        w.note(st, zi(p.i)); ex.check(st, And(w.own0(zi(p.i)) == 1, zi(p.i) != w.tail[1]), 'the predicate is applied to a node of the forest')
        return Ret(simp(w.P(zi(p.i))))
    w.ex.contract('pred', pred, trusted=True)
    g = w.g0
    # covered(z) := z lies in the subtree of some rejected node (definition, both directions, instantiated)
    def r1(z):
        c = w.cw(z); return [Implies(And(g.own(z) == 1, w.cov(z)), And(g.own(c) == 1, c != w.tail[1], Not(w.P(c)), g.L(c) <= g.L(z), g.T(z) <= g.T(c)))] + w.gen0.rng(c) + [Not(And(g.own(z) == 1, g.L(c) < g.L(z), g.L(z) < g.T(c), g.T(c) < g.T(z)))]
    def r2(x, y): return [Implies(And(g.own(x) == 1, g.own(y) == 1, y != w.tail[1], Not(w.P(y)), g.L(y) <= g.L(x), g.T(x) <= g.T(y)), w.cov(x)),
                          Implies(And(g.own(x) == 1, g.own(y) == 1, x != w.tail[1], Not(w.P(x)), g.L(x) <= g.L(y), g.T(y) <= g.T(x)), w.cov(y))]
    def r3(x): return [Implies(And(g.own(x) == 1, x != w.tail[1], Not(w.P(x))), w.cov(x))]
    w.gen0.rel += [r1, r3]; w.gen0.rel2.append(r2)

IOPS = {}
def iop(name):
    def d(fn): IOPS[name] = fn; return fn
    return d
def res(w, st, o):
    y, f = w.getiter(st, o); w.note(st, y); return y, f, w.pos(w.g0, y, f)
@iop('has_children')
def _(w, ex, st):
    p, x, e = w.iter(st, 1, 'i', root_ok=True)
    def post(ex, st, rv): ex.check(st, to_bool(rv) == (w.g0.T(x) > w.g0.L(x) + 1), 'has_children iff something nests inside'); w.unchanged(ex, st)
    yield 'd_has_children', [p], post, None
@iop('child_begin/child_end')
def _(w, ex, st):
    p, x, e = w.iter(st, 1, 'i', root_ok=True)
    for d in ('d_child_begin', 'd_child_end'):
        def post(ex, st, rv, d=d):
            y, f, q = res(w, st, p); ex.check(st, And(w.own0(y) == 1, q == (w.L0(x) + 1 if d == 'd_child_begin' else w.T0(x))), 'first child edge / closing edge of the parent'); w.unchanged(ex, st)
        yield d, [p], post, None
@iop('child_iterator step')
def _(w, ex, st):
    p, x, e = w.iter(st, 1, 'i')
    st.assume(x != w.tail[1])
    st1 = st
    for d in ('d_child_next', 'd_child_prev'):
        def post(ex, st, rv, d=d):
            y, f, q = res(w, st, p)
            if d == 'd_child_next': ex.check(st, Implies(e, And(w.own0(y) == 1, q == w.T0(x) + 1)), '++ moves to the edge right after the child (next sibling or end of the parent)')
            else:
                # -- from an edge preceded by a sibling's trailing edge lands on that sibling's leading edge
                ex.check(st, Implies(And(e, Not(f)), False), '-- on a leading edge that has a previous sibling lands on a leading edge') if False else None
                ex.check(st, And(w.own0(y) == 1, w.pos(w.g0, y, Not(f)) == w.pos(w.g0, x, e) - 1), '-- lands on the other edge of the node that precedes')
            w.unchanged(ex, st)
        yield d, [p], post, None
@iop('child_iterator -- from end')
def _(w, ex, st):
    p, x, e = w.iter(st, 1, 'i', root_ok=True); st.assume(Not(e))
    def post(ex, st, rv):
        y, f, q = res(w, st, p); ex.check(st, And(w.own0(y) == 1, w.pos(w.g0, y, Not(f)) == w.T0(x) - 1), '-- from the end lands on the last child'); w.unchanged(ex, st)
    yield 'd_child_prev', [p], post, None
@iop('deref and comparison')
def _(w, ex, st):
    p, x, e = w.iter(st, 1, 'i'); q, y, f = w.iter(st, 1, 'j', root_ok=True); o = w.out(st)
    def pd(ex, st, rv): ex.check(st, isinstance(rv, Ptr) and rv.r == w.N and rv.o == VAL and zi(rv.i) == x, 'dereference gives the value of the node')
    yield 'd_deref', [p], pd, None
    yield 'd_iter_eq', [p, q], lambda ex, st, rv: ex.check(st, to_bool(rv) == (w.pos(w.g0, x, e) == w.pos(w.g0, y, f)), 'iterators are equal iff they are the same edge'), None
    yield 'd_iter_ne', [p, q], lambda ex, st, rv: ex.check(st, to_bool(rv) == (w.pos(w.g0, x, e) != w.pos(w.g0, y, f)), 'iterators differ iff they are different edges'), None
    yield 'd_equal_node', [p, q], lambda ex, st, rv: ex.check(st, to_bool(rv) == (x == y), 'equal_node iff same node'), None
    for d, want in (('d_leading_of', True), ('d_trailing_of', False), ('d_pivot_of', None)):
        def post(ex, st, rv, want=want):
            z, ze = w.getiter(st, o); ex.check(st, And(z == x, ze == (Not(e) if want is None else want)), 'the requested edge of the same node')
        yield d, [p, o], post, None
@iop('reverse iterator')
def _(w, ex, st):
    p, x, e = w.iter(st, 1, 'i', root_ok=True); o = w.out(st); g = w.g0; M = 2 * g.n[1] + 2; P = w.pos(g, x, e)
    dec = lambda a: If(a == 0, M - 1, a - 1); inc = lambda a: If(a == M - 1, 0, a + 1)
    for d in ('d_rev_make', 'd_rev_next', 'd_rev_prev'):
        def post(ex, st, rv, d=d):
            y, f, q = res(w, st, o); want = {'d_rev_make': P, 'd_rev_next': dec(P), 'd_rev_prev': inc(P)}[d]
            ex.check(st, And(w.own0(y) == 1, q == want), 'base moves one edge in the opposite direction')
            # the visited edge is the one before base, seen from the other side
            b = dec(want); k = z3.Int('visited'); s = st.fork(); w.note(s, k); s.assume(w.own0(k) == 1)
            ex.check(s, And(Implies(g.L(k) == b, Not(to_bool(rv))), Implies(g.T(k) == b, to_bool(rv))), 'a trailing edge is visited as leading and vice versa'); w.unchanged(ex, st)
        yield d, [p, o], post, None
    for d in ('d_rev_roundtrip', 'd_rev_roundtrip2'): yield d, [p], lambda ex, st, rv: ex.check(st, to_bool(rv), 'stepping there and back returns to the same place'), None
    def pd(ex, st, rv):
        ok = isinstance(rv, Ptr) and rv.r == w.N and rv.o == VAL; z = zi(rv.i) if ok else x; w.note(st, z)
        ex.check(st, And(ok, w.own0(z) == 1, Or(g.L(z) == dec(P), g.T(z) == dec(P))), 'dereference gives the node of the edge before base')
    yield 'd_rev_deref', [p], pd, None
@iop('depth iterator')
def _(w, ex, st):
    p, x, e = w.iter(st, 1, 'i', root_ok=True); o = w.out(st); k = z3.BitVec('depth', 64); g = w.g0; P = w.pos(g, x, e)
    for d in ('d_depth_next', 'd_depth_prev'):
        def post(ex, st, rv, d=d):
            y, f, q = res(w, st, o); last = 2 * g.n[1] + 1
            want = If(P == last, 0, P + 1) if d == 'd_depth_next' else If(P == 0, last, P - 1)
            ex.check(st, And(w.own0(y) == 1, q == want), 'the depth iterator follows the full order'); s = st.fork()
            ee, ff = (e, f) if d == 'd_depth_next' else (f, e)
            delta = If(And(ee, ff), z3.BitVecVal(1, 64), If(And(Not(ee), Not(ff)), z3.BitVecVal(-1, 64), z3.BitVecVal(0, 64)))
            s.assume(P != (last if d == 'd_depth_next' else 0))
            ex.check(s, to_bv(rv, 64) == (k + delta if d == 'd_depth_next' else k - delta), 'depth grows by one between two leading edges, shrinks between two trailing edges, and is unchanged otherwise')
            w.unchanged(ex, st)
        yield d, [p, k, o], post, None
@iop('find_parent')
def _(w, ex, st):
    p, x, e = w.iter(st, 1, 'i'); st.assume(x != w.tail[1]); g = w.g0
    def post(ex, st, rv):
        y, f, q = res(w, st, p); w.note(st, y)
        ex.check(st, And(Not(f), w.own0(y) == 1, g.L(y) < g.L(x), g.T(y) > g.T(x)), 'the trailing edge of an enclosing node')
        z = fresh('any'); w.note(st, z); st.assume(g.own(z) == 1, g.L(z) < g.L(x), g.T(z) > g.T(x))
        ex.check(st, And(g.L(z) <= g.L(y), g.T(z) >= g.T(y)), 'the innermost one'); w.unchanged(ex, st)
    yield 'd_find_parent', [p], post, lambda: ParentLoop(w)
def circ_next(w, k, P, q, M, z):
    g = w.g0
    return And(g.own(z) == 1)
@iop('edge iterators')
def _(w, ex, st):
    p, x, e = w.iter(st, 1, 'i', root_ok=True); o = w.out(st); g = w.g0; P = w.pos(g, x, e); last = 2 * g.n[1] + 1
    for nm, lead in (('pre', True), ('post', False)):
        k = g.L if lead else g.T
        for d in ('from', 'next', 'prev'):
            s1 = st
            def post(ex, st, rv, d=d, lead=lead, k=k):
                y, f, q = res(w, st, o); s = st.fork(); z = fresh('any'); w.note(s, z)
                if d != 'from': s.assume(e == lead)
                start = {'from': P, 'next': If(P == last, 0, P + 1), 'prev': If(P == 0, last, P - 1)}[d]
                ex.check(s, And(w.own0(y) == 1, f == lead), 'stops on an edge of the wanted kind'); s.assume(w.own0(z) == 1)
                if d != 'prev': ex.check(s, If(q >= start, Not(And(start <= k(z), k(z) < q)), And(Not(k(z) >= start), Not(k(z) < q))), 'no wanted edge is passed over')
                else: ex.check(s, If(q <= start, Not(And(q < k(z), k(z) <= start)), And(Not(k(z) <= start), Not(k(z) > q))), 'no wanted edge is passed over')
                w.unchanged(ex, st)
            def pre(st, lead=lead, d=d):
                if d != 'from': st.assume(e == lead)
            n = 'd_%s_%s' % (nm, d)
            yield n, [p, o], post, (lambda lead=lead, d=d: EdgeByCall(w, lead, d)), pre
def EdgeByCall(w, lead, d):
    # the first search (construction) always goes forward; a decrement searches backward
    return None
@iop('filter')
def _(w, ex, st):
    p, x, e = w.iter(st, 1, 'i', root_ok=True); o = w.out(st); g = w.g0; P = w.pos(g, x, e); last = 2 * g.n[1] + 1
    def post_make(ex, st, rv):
        y, f, q = res(w, st, o); s = st.fork(); z = fresh("any"); w.note(s, z); w.note(s, w.cw(y)); s.assume(w.own0(z) == 1)
        ex.check(s, And(w.own0(y) == 1, q >= 1, q <= last), 'starts inside the range')
        ex.check(s, And(Implies(And(g.L(z) >= 1, g.L(z) < q), w.cov(z)), Implies(And(g.T(z) >= 1, g.T(z) < q), w.cov(z))), 'only edges of rejected subtrees are skipped')
        ex.check(s, Or(q == last, Not(w.cov(y))), 'does not stop inside a rejected subtree'); w.unchanged(ex, st)
    yield 'd_filter_make', [w.F[1], o], post_make, None
    def post_next(ex, st, rv):
        y, f, q = res(w, st, o); s = st.fork(); z = fresh("any"); w.note(s, z); w.note(s, w.cw(y)); s.assume(w.own0(z) == 1)
        ex.check(s, And(w.own0(y) == 1, q > P, q <= last), 'moves forward within the range')
        ex.check(s, And(Implies(And(g.L(z) > P, g.L(z) < q), w.cov(z)), Implies(And(g.T(z) > P, g.T(z) < q), w.cov(z))), 'only edges of rejected subtrees are skipped')
        ex.check(s, Or(q == last, Not(w.cov(y))), 'does not stop inside a rejected subtree'); w.unchanged(ex, st)
    yield 'd_filter_next', [w.F[1], p, o], post_next, None, lambda st: st.assume(P >= 1, P < last, Not(w.cov(x)))
    def post_prev(ex, st, rv):
        y, f, q = res(w, st, o); s = st.fork(); z = fresh("any"); w.note(s, z); w.note(s, w.cw(y)); s.assume(w.own0(z) == 1)
        ex.check(s, And(w.own0(y) == 1, q < P, q >= 1), 'moves backward within the range')
        ex.check(s, And(Implies(And(g.L(z) < P, g.L(z) > q), w.cov(z)), Implies(And(g.T(z) < P, g.T(z) > q), w.cov(z))), 'only edges of rejected subtrees are skipped')
        ex.check(s, Not(w.cov(y)), 'does not stop inside a rejected subtree'); w.unchanged(ex, st)
    def pre_prev(st):
        k = z3.Int('uncovered'); w.note(st, k)   # there is an earlier element of the filtered sequence to move to
        st.assume(P >= 1, P <= last, Or(P == last, Not(w.cov(x))), w.own0(k) == 1, Not(w.cov(k)), k != w.tail[1], Or(And(g.L(k) < P), And(g.T(k) < P)))
    yield 'd_filter_prev', [w.F[1], p, o], post_prev, None, pre_prev

def run_iop(name, k, **kw):
    w = load_world(1, **kw); ex = w.ex; install_loops(w); install_pred(w)
    it = list(itertools.islice(IOPS[name](w, ex, w.st), k, k + 1))[0]
    d, args, post, loop = it[:4]
    if len(it) > 4: it[4](w.st)
    def kind_edge(ex, st, fn, h): return None
    w.pc0 = list(w.st.pc); w.seen0 = dict(w.st.g['seen']); w.nodes0 = list(w.st.g['nodes'])
    def ls(ex, st, fn, h):
        dm = fn.dem
        if 'std::__advance' in dm: return None
        if name == 'find_parent': return ParentLoop(w)
        if name == 'edge iterators':
            lead = '_pre_' in d
            back = 'reverse' in dm or (d.endswith('_prev') and w.dirs(st, fn, h) == 'back')
            return EdgeLoop(w, lead, back)
        if name == 'filter': return SkipLoop(w, w.dirs(st, fn, h) == 'back')
        return None
    def dirs(st, fn, h):
        """direction of a search loop: which way its body steps"""
        for b in fn.loops()[h]:
            for i in fn._blocks[b]:
                if i.op in ('call', 'invoke') and i.x[0] == 'fn':
                    nm = ex.mod.funcs[i.x[1]].dem if i.x[1] in ex.mod.funcs else ''
                    if 'operator--' in nm or 'decrement' in nm or '::prev' in nm: return 'back'
        return 'fwd'
    w.dirs = dirs
    ex.loopspecs[:] = [ls]
    ex.verify('forest::%s (%s)' % (name, d), w.st, d, args, post)
    return ex
def icount(name):
    w = load_world(1); install_loops(w); install_pred(w)
    return len(list(IOPS[name](w, w.ex, w.st)))
