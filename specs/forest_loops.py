"""Loop contracts of forest mutators: range erase / clear / destruction, copy of a child range, reversal, size, equality."""
from .forest import *
from .forest import G, g_insert, g_erase, g_move
from .forest_iter import IterLoop, EdgeLoop, install_loops
from irv.loops import LoopCut
import itertools
BV64 = z3.BitVecSort(64)

def iso(ga, va, x, y):
    """order isomorphism between two (L,T) assignments on a pair of nodes"""
    return And((ga.L(x) < ga.L(y)) == (va.L(x) < va.L(y)), (ga.L(x) < ga.T(y)) == (va.L(x) < va.T(y)), (ga.T(x) < ga.L(y)) == (va.T(x) < va.L(y)), (ga.T(x) < ga.T(y)) == (va.T(x) < va.T(y)))
class GenLoop(IterLoop):
    """a loop that changes the forest: at its head the heap is some well-formed generation related to the original"""
    nforall = 1
    def curg(s, st): return st.g['cg'](st) if callable(st.g.get('cg')) else st.g['G']
    def havoc(s, ex, st):
        LoopCut.havoc(s, ex, st)
    def ghost_havoc(s, ex, st):
        if s.it is None: return
        w = s.w; s.hg = gn = w.newgen(st, w.heap(st)); st.g['gens'] = [g for g in st.g['gens'] if g is not getattr(s, 'old', None)]
        s.extra_ghost(ex, st)
        rel, rel2 = s.relations(st, gn.g, s.cursor(st))
        gn.rel = [lambda x: [c for _, c in rel(x)]]; gn.rel2 = [lambda x, y: [c for _, c in rel2(x, y)]]
        w.addgen(st, gn); st.g['G'] = gn.g; st.g['allocs'] = []; st.g['freed'] = []; st.g['tag'] = '_%d' % next(_tag)
        st.assume(*s.sizes(st, gn.g))
        w.pbase = (gn, [s.cursor(st)[0]] + s.keys(st)); w.memo = {}
    def keys(s, st): return []
    def extra_ghost(s, ex, st): pass
    def sizes(s, st, g):
        w = s.w; out = []
        for f in w.tail:
            sz = to_bv(w.ex.load(st, w.F[f], I64), 64); out.append(Or(sz == 0, sz == g.c[f]))
        return out
    def cursor(s, st):
        if s.it is None: raise ToolLimit('%s: cursor not recognised' % s.name)
        x, e, raw = s.val(st, s.it); return x, e
    def bind(s, ex, st0):
        IterLoop.bind(s, ex, st0); s.pick(ex, st0)
    def pick(s, ex, st0): pass
    def inv(s, ex, st, places, first):
        w = s.w
        if not hasattr(s, 'it') or s.it is None: return []
        x, e, raw = s.val(st, s.it); w.note(st, x); out = []
        if not isinstance(raw, int) and z3.is_bv(raw): out.append(('the edge is leading or trailing', z3.ULE(raw, 1)))
        if not (s.checking or first): return out + s.scalars(ex, st, st.g['G'], x, e, first)
        g = w.g0 if first else s.newg(ex, st)
        if first: g = st.g['G']
        out += s.scalars(ex, st, g, x, e, first)
        rel, rel2 = s.relations(st, g, (x, e)); a, b = z3.Int('any_a'), z3.Int('any_b'); w.note(st, a); w.note(st, b)
        out += rel(a)
        if first or not s.checking: out += rel2(a, b)
        else:
            for n, c in rel2(a, b): w.pure(ex, st, [a, b] + s.keys(st), z3.BoolVal(True), c, '%s: invariant preserved: %s' % (s.name, n))
        if not first: w.check_wf(ex, st, g, what=s.name + ': ')
        return out
    def newg(s, ex, st):
        """the ghost sequence after one iteration, from the allocation / deletion the body performed"""
        w = s.w; al, fr = st.g.get('allocs', []), st.g.get('freed', []); g = s.hg.g
        if not al and not fr: return g
        if len(fr) == 1 and not al: return g_erase(g, fr[0])
        if len(al) == 1 and not fr:
            linked(w, st); hx, he = s.cursor(s.head); return g_insert(g, al[0], w.pos(g, hx, he))
        raise ToolLimit('%s: more than one node per iteration' % s.name)
_tag = itertools.count()
class EraseLoop(GenLoop):
    name = 'range erase loop'
    def __init__(s, w, pa, pb, x0, e0): s.w = w; s.pa = pa; s.pb = pb; s.ax = x0; s.ae = e0
    def pick(s, ex, st0):
        w = s.w; s.it = None
        for pr in s.pairs():
            try: x, e, _ = s.val(st0, pr)
            except ToolLimit: continue
            w.note(st0, x)
            if ex.must(st0, w.pos(w.g0, x, e) == s.pa): s.it = pr; break
        s.depthp = None
        for k, (p, a) in s.widen.items():
            v = p.get(s.entry, s.depth)
            if isinstance(v, int) and v == 0 and ((p.kind == 'mem' and p.a[2] == 8 and p.a[0] not in [w.F[f].r for f in w.F]) or (p.kind == 'reg' and s.phiw.get(p.a[0]) == 64)): s.depthp = p
    def C(s, x, e): return If(e, s.w.L0(x), s.w.T0(x))
    def scalars(s, ex, st, g, x, e, first):
        w = s.w; C = s.C(x, e); last = 2 * w.n0[1] + 1
        nx = w.gen0.atn[1](C + 1)
        if not first: w.note(st, nx); st.assume(*w.gen0.at(1, C + 1))
        out = [('the cursor is an original edge of the range', And(w.own0(x) == 1, s.pa <= C, C <= s.pb))]
        if s.depthp is not None: out.append(('the counter is the number of open nodes of the range', to_bv(s.depthp.get(st, s.depth), 64) == w.cardb(C)))
        return out
    def relations(s, st, g, cur):
        w = s.w; C = s.C(*cur)
        dead = lambda x: And(w.L0(x) >= s.pa, w.T0(x) < C)
        rel = lambda x: [('exactly the completed nodes of the range are gone', And((g.own(x) == 1) == And(w.own0(x) == 1, Not(dead(x))), Implies(w.own0(x) != 1, g.own(x) == w.own0(x)), Implies(w.own0(x) > 1, And(g.L(x) == w.L0(x), g.T(x) == w.T0(x)))))]
        rel2 = lambda x, y: [('the remaining edges keep their order', Implies(And(g.own(x) == 1, g.own(y) == 1), iso(g, w.g0, x, y)))]
        return rel, rel2
    def keys(s, st): return [s.w.gen0.atn[1](s.C(*s.cursor(st)) + 1)]
def erase_lemmas(w, st, pa):
    """nesting-depth arithmetic: cardb(p) = number of nodes opened in [pa,p) and not closed before p"""
    w.cardb = z3.Function('open', I, BV64)
    def r(x):
        L, T = w.L0(x), w.T0(x); c = w.cardb
        return [Implies(w.own0(x) == 1, And(Implies(L >= pa, c(L + 1) == c(L) + 1), Implies(T >= pa, If(L >= pa, And(c(T) > 0, c(T + 1) == c(T) - 1), And(c(T) == 0, c(T + 1) == 0)))))]
    w.gen0.rel.append(r); st.assume(w.cardb(pa) == 0)
    for y in st.g['nodes']:
        st.assume(*r(y))
        for k in OFF: st.assume(*r(z3.Select(w.gen0.h[k], y)))
class CopyLoop(GenLoop):
    """insert(pos, first, last): destination forest 1 at position q, source block [pa,pb) of forest 2"""
    name = 'range copy loop'
    def __init__(s, w, q, pa, pb): s.w = w; s.q = q; s.pa = pa; s.pb = pb
    def pick(s, ex, st0):
        w = s.w; s.it = s.src = None
        for pr in s.pairs():
            try: x, e, _ = s.val(st0, pr)
            except ToolLimit: continue
            w.note(st0, x); p = w.pos(w.g0, x, e)
            if ex.must(st0, And(w.own0(x) == 2, p == s.pa)): s.src = pr
            elif ex.must(st0, And(w.own0(x) == 1, p == s.q)): s.it = pr
        if s.src is None: s.it = None
    def extra_ghost(s, ex, st):
        st.g['src'] = z3.Const('src!%d' % next(_tag), A(I, I)); st.g['img'] = z3.Const('img!%d' % next(_tag), A(I, I))
    def srccur(s, st): x, e, _ = s.val(st, s.src); return x, e
    def Fp(s, st): x, e = s.srccur(st); return If(e, s.w.L0(x), s.w.T0(x))
    def V(s, src):
        w = s.w; m = s.pb - s.pa
        f = lambda fn: (lambda x: If(w.own0(x) == 1, If(fn(x) < s.q, fn(x), fn(x) + m), s.q + fn(z3.Select(src, x)) - s.pa))
        return G(None, f(w.L0), f(w.T0), None)
    def scalars(s, ex, st, g, x, e, first):
        w = s.w; sx_, se = s.srccur(st); w.note(st, sx_)
        raw = s.val(st, s.src)[2]; out = []
        if not isinstance(raw, int) and z3.is_bv(raw): out.append(('the source edge is leading or trailing', z3.ULE(raw, 1)))
        F = s.Fp(st)
        if first or s.checking:
            if s.checking:
                al = st.g.get('allocs', [])
                if al: hx, he = s.srccur(s.head); st.g['src'] = z3.Store(st.g['src'], al[0], hx); st.g['img'] = z3.Store(st.g['img'], hx, al[0])
            elif 'src' not in st.g: st.g['src'] = z3.Const('src_init', A(I, I)); st.g['img'] = z3.Const('img_init', A(I, I))
        else:
            nx = w.gen0.atn[2](F + 1); w.note(st, nx); st.assume(*w.gen0.at(2, F + 1)); w.note(st, z3.Select(st.g['img'], sx_))
        return out + [('the source cursor stays in the source range', And(w.own0(sx_) == 2, s.pa <= F, F <= s.pb)), ('the cursor is an edge of the destination', g.own(x) == 1)]
    def relations(s, st, g, cur):
        w = s.w; src, img = st.g['src'], st.g['img']; F = s.Fp(st); V = s.V(src); P = w.pos(g, *cur); lim = s.q + F - s.pa
        vals = st.mem[w.N].cells[(VAL, 8)]
        def rel(x):
            y = z3.Select(src, x); z = z3.Select(img, x); cp = And(w.own0(x) == 2, s.pa <= w.L0(x), w.L0(x) < F)
            new = And(g.own(x) == 1, w.own0(x) == 0)
            return [('the original nodes of both forests stay', And(Implies(w.own0(x) != 0, g.own(x) == w.own0(x)), Implies(w.own0(x) > 1, And(g.L(x) == w.L0(x), g.T(x) == w.T0(x))), Implies(w.own0(x) == 0, Or(g.own(x) == 0, g.own(x) == 1)))),
                    ('every new node is the copy of a node of the source range', Implies(new, And(w.own0(y) == 2, s.pa <= w.L0(y), w.L0(y) < F, z3.Select(img, y) == x, z3.Select(vals, x) == z3.Select(w.v0, y)))),
                    ('every source node passed has its copy', Implies(cp, And(g.own(z) == 1, w.own0(z) == 0, z3.Select(src, z) == x))),
                    ('original values stay', Implies(w.own0(x) != 0, z3.Select(vals, x) == z3.Select(w.v0, x))),
                    ('the cursor is where the next source edge belongs', Implies(g.own(x) == 1, And((g.L(x) < P) == (V.L(x) < lim), (g.T(x) < P) == (V.T(x) < lim))))]
        rel2 = lambda x, y: [('edges are ordered as in the result', Implies(And(g.own(x) == 1, g.own(y) == 1), iso(g, V, x, y)))]
        return rel, rel2
    def keys(s, st):
        x, e = s.srccur(st); return [x, z3.Select(st.g['img'], x)]

def closed2(w, st, pa, pb, f): closed(w, st, pa, pb, f)
LOPS = {}
def lop(name, nf=1):
    def d(fn): LOPS[name] = (fn, nf); return fn
    return d
def post_erased(w, pa, pb):
    def post(ex, st):
        g = st.g['G']; a, b = fresh('any'), fresh('any'); w.note(st, a); w.note(st, b)
        ex.check(st, (g.own(a) == 1) == And(w.own0(a) == 1, Not(And(w.L0(a) >= pa, w.T0(a) < pb))), 'exactly the nodes lying completely in the range are erased')
        ex.check(st, Implies(And(g.own(a) == 1, g.own(b) == 1), iso(g, w.g0, a, b)), 'the remaining nodes keep their order and nesting')
        ex.check(st, Implies(g.own(a) != 0, z3.Select(st.mem[w.N].cells[(VAL, 8)], a) == z3.Select(w.v0, a)), 'the remaining nodes keep their values')
        h = w.heap(st); gn = st.g['gens'][-1]
        ex.check(st, all(h[k].eq(gn.h[k]) for k in h), 'the heap is the well-formed generation of the loop exit')
        for f in w.tail:
            sz = to_bv(ex.load(st, w.F[f], I64), 64); ex.check(st, Or(sz == 0, sz == g.c[f]), 'a cached size is the number of nodes')
    return post
@lop('erase range')
def _(w, ex, st):
    g = w.g0; i, y, f = w.iter(st, 1, 'first'); j, y2, f2 = w.iter(st, 1, 'last'); o = w.out(st); pa, pb = w.pos(g, y, f), w.pos(g, y2, f2); st.assume(pa <= pb); erase_lemmas(w, st, pa)
    P = post_erased(w, pa, pb)
    def post(ex, st, rv):
        P(ex, st); z, ze = w.getiter(st, o); ex.check(st, And(z == y2, ze == f2), 'the result is `last`')
    yield 'd_erase_range', [w.F[1], i, j, o], post, lambda: EraseLoop(w, pa, pb, y, f)
@lop('clear')
def _(w, ex, st):
    pa, pb = z3.IntVal(1), w.T0(w.tail[1]); erase_lemmas(w, st, pa); P = post_erased(w, pa, pb)
    for d in ('d_clear', 'd_dtor'):
        def post(ex, st, rv, d=d):
            P(ex, st); a = fresh('any'); w.note(st, a); ex.check(st, Implies(st.g['G'].own(a) == 1, a == w.tail[1]), 'no node is left')
        yield d, [w.F[1]], post, lambda: EraseLoop(w, pa, pb, None, None)
@lop('insert copy of a child range', 2)
def _(w, ex, st):
    g = w.g0; p, x, e = w.iter(st, 1, 'pos'); o = w.out(st); q = w.pos(g, x, e); i, y, f = w.iter(st, 2, 'first'); j, y2, f2 = w.iter(st, 2, 'last')
    pa, pb = w.pos(g, y, f), w.pos(g, y2, f2); st.assume(pa <= pb, Implies(Not(to_bool(f)), pa == pb)); closed(w, st, pa, pb, 2)
    L = CopyLoop(w, q, pa, pb)
    def post(ex, st, rv):
        g = st.g['G']; src, img = st.g['src'], st.g['img']; a, b = fresh('any'), fresh('any'); w.note(st, a); w.note(st, b); V = L.V(src); vals = st.mem[w.N].cells[(VAL, 8)]
        ex.check(st, Implies(And(g.own(a) == 1, g.own(b) == 1), iso(g, V, a, b)), 'the copies stand at the position, in the order and nesting of the source; everything else keeps its place')
        c = z3.Select(img, a); ex.check(st, Implies(And(w.own0(a) == 2, pa <= w.L0(a), w.L0(a) < pb), And(g.own(c) == 1, w.own0(c) == 0, z3.Select(src, c) == a)), 'every node of the source range is copied')
        y = z3.Select(src, a); ex.check(st, Implies(And(g.own(a) == 1, w.own0(a) == 0), And(w.own0(y) == 2, pa <= w.L0(y), w.L0(y) < pb, z3.Select(img, y) == a, z3.Select(vals, a) == z3.Select(w.v0, y))), 'every new node is the copy of exactly one of them, with its value')
        ex.check(st, Implies(w.own0(a) != 0, And(g.own(a) == w.own0(a), z3.Select(vals, a) == z3.Select(w.v0, a))), 'no original node is lost or changed')
        ex.check(st, Implies(w.own0(a) == 2, And(g.L(a) == w.L0(a), g.T(a) == w.T0(a))), 'the source is unchanged')
        h = w.heap(st); gn = st.g['gens'][-1]; ex.check(st, all(h[k].eq(gn.h[k]) for k in h), 'the heap is the well-formed generation of the loop exit')
        z, ze = w.getiter(st, o); w.note(st, z); P = w.pos(g, z, ze)
        ex.check(st, And(g.own(z) == 1, Implies(g.own(a) == 1, And((g.L(a) < P) == (V.L(a) < q + pb - pa), (g.T(a) < P) == (V.T(a) < q + pb - pa)))), 'the result is the edge after the copies')
        for fo in w.tail:
            sz = to_bv(ex.load(st, w.F[fo], I64), 64); ex.check(st, Or(sz == 0, sz == g.c[fo]), 'a cached size is the number of nodes')
    yield 'd_insert_copy', [w.F[1], p, i, j, o], post, lambda: CopyLoop(w, q, pa, pb)

def run_lop(name, k, **kw):
    fn, nf = LOPS[name]; w = load_world(nf, **kw); ex = w.ex
    d, args, post, loop = list(itertools.islice(fn(w, ex, w.st), k, k + 1))[0]
    w.pc0 = list(w.st.pc); w.seen0 = dict(w.st.g['seen']); w.nodes0 = list(w.st.g['nodes'])
    def ls(ex, st, fn, h):
        if 'std::__advance' in fn.dem: return None
        return loop()
    ex.loopspecs.append(ls)
    ex.verify('forest::%s (%s)' % (name, d), w.st, d, args, post)
    return ex
def lcount(name):
    fn, nf = LOPS[name]; w = load_world(nf); return len(list(fn(w, w.ex, w.st)))
