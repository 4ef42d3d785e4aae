"""Contracts for C04: flatten and transcribe as one-event-per-position loops over opaque iterators, unflatten on an opaque container, and
transcribe_iterator on the real forest (insert here, then step / step past the closing edge)."""
import os, z3
from .forest import *
from . import forest as SF
from irv.loops import TagLoop
from irv.std import *
from irv.build import bitcode, VERIF
from irv.llvm import Module
ASSUMPTIONS = ['iterators, outputs, projections, predicates and the container of unflatten are opaque (assumed contracts, no throw); one pass over the range, `last` reachable',
  'element type: opaque Regular type', 'the round trip follows by induction over the tokens from the per-token contracts proved here, the insert contract (C01) and the step contract (C02)', 'node counts stay below 2^61']
BATTERY = [dict(src='forest.cpp', args=['c04'], flags=['-fsanitize=address'], timeout=240, hang_is_failure=True)]
_M = None
def mod():
    global _M
    if _M is None: _M = Module(bitcode(os.path.join(VERIF, 'drivers/forest4.cpp')))
    return _M
def prepare(): mod()
SEQ = ['c4_flatten', 'c4_transcribe', 'c4_transcribe_range', 'c4_transcribe_lead', 'c4_transcribe_range_lead', 'c4_unflatten']
ITR = ['c4_assign', 'c4_assign_move', 'c4_trailing', 'c4_make']
def units(tier): return SEQ + ITR
A_ = z3.ArraySort; B64 = z3.BitVecSort(64)
def seq(fn):
    ex = Engine(mod()); s = State(); ex.cur = fn[3:]; ex.under_contract.add('forests::' + fn[3:].replace('_range', ' (range)').replace('_lead', ' (leading only)'))
    val, lead, accept = z3.Const('val', A_(I, B64)), z3.Const('lead', A_(I, z3.BoolSort())), z3.Const('accept', A_(I, z3.BoolSort())); proj = z3.Function('proj', B64, B64)
    opt = fn == 'c4_unflatten'; es = 16 if opt else 8
    toks = ex.new_region(s, None, 'elements', 'indexed', esize=es); R = s.mem[toks]; R.cells[(0, 8)] = val
    if opt: R.cells[(8, 1)] = (lambda i: z3.Lambda([i], z3.If(z3.Select(lead, i), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))))(z3.Int('i'))
    p0, pn, o0 = fresh('first'), fresh('last'), fresh('out'); s.assume(p0 <= pn); s.g.update(k=p0, phase=0, cur=fresh('begin'), cure=fresh('edge', 'bv', 8), n=0)
    rd = lambda st, p: zi(ex.load(st, p, I64))
    def wr(st, p, v): ex.put(st, p.r, p.o, 8, v)
    Q = rx(r'^QIt<.*>::')
    def q(m, h, l): ex.contract(lambda n, d: d.startswith('QIt<') and m(d.split('>::', 1)[1] if '>::' in d else ''), h, 'opaque iterator ' + l, True)
    def inrange(st, p): ex.check(st, z3.And(p >= p0, p < pn), 'only positions of the range are visited')
    def inc(ex, st, a, ins):
        if len(a) > 2 or (len(a) == 2 and isinstance(a[1], Ptr)):   # post-increment with sret
            wr(st, a[0], rd(st, a[1])); p = rd(st, a[1]); inrange(st, p); wr(st, a[1], simp(p + 1)); return Ret(None)
        p = rd(st, a[0]); inrange(st, p); wr(st, a[0], simp(p + 1)); return Ret(a[0])
    q(lambda m: m.startswith('operator++('), inc, '++')
    def deref(ex, st, a, ins): p = rd(st, a[0]); inrange(st, p); return Ret(Ptr(toks, p, 0))
    q(lambda m: m.startswith('operator*('), deref, '*')
    q(lambda m: m.startswith('edge('), lambda ex, st, a, ins: (inrange(st, rd(st, a[0])), Ret(z3.Select(lead, rd(st, a[0]))))[1], 'edge')
    q(lambda m: m.startswith('operator==('), lambda ex, st, a, ins: Ret(simp(rd(st, a[0]) == rd(st, a[1]))), '==')
    q(lambda m: m.startswith('operator!=('), lambda ex, st, a, ins: Ret(simp(rd(st, a[0]) != rd(st, a[1]))), '!=')
    for nm, v in (('begin', p0), ('end', pn)):
        ex.contract('QR::%s() const' % nm, lambda ex, st, a, ins, v=v: (wr(st, a[0], v), Ret(None))[1], 'opaque range', True)
    # element type
    ex.contract('V::V(V const&)', lambda ex, st, a, ins: (ex.store(st, a[0], ex.load(st, a[1], I64), I64), Ret(None))[1], 'V copy', True)
    def vmove(ex, st, a, ins):
        if a[1].r == toks: ex.check(st, False, 'elements of the source are not moved from')
        ex.store(st, a[0], ex.load(st, a[1], I64), I64); ex.store(st, a[1], fresh('moved', 'bv', 64), I64); return Ret(None)
    ex.contract('V::V(V&&)', vmove, 'V move', True); ex.contract('V::~V()', lambda ex, st, a, ins: Ret(None), 'V destroy', True)
    for sg in ('V const&', 'V&&'): ex.contract('V::operator=(%s)' % sg, lambda ex, st, a, ins: (ex.store(st, a[0], ex.load(st, a[1], I64), I64), Ret(a[0]))[1], 'V assign', True)
    # outputs: one event per position, in order
    def event(st, idx, kind, v=None):
        g = st.g; k = g['k']; ex.check(st, z3.And(k < pn, g['phase'] == 0), 'one output per position of the range')
        ex.check(st, idx == o0 + (k - p0), 'outputs are written in order, one place per position')
        if fn == 'c4_flatten':
            if kind == 'value': ex.check(st, z3.And(z3.Select(lead, k), v == z3.Select(val, k)), 'a leading edge is written as its value')
            else: ex.check(st, z3.Not(z3.Select(lead, k)), 'a trailing edge is written as nullopt')
        else:
            acc = z3.Select(accept, k) if '_lead' not in fn else z3.Select(lead, k)
            if kind == 'value': ex.check(st, z3.And(acc, v == proj(z3.Select(val, k))), 'an accepted position is written as the projection of its value')
            else: ex.check(st, z3.Not(acc), 'a position that is not accepted closes the node')
        g['phase'] = 1
    def step(ex, st, a, ins):
        post = len(a) > 1 and isinstance(a[1], Ptr); p = a[1] if post else a[0]; i = rd(st, p); g = st.g
        if post: wr(st, a[0], i)
        if fn != 'c4_flatten' or not post:
            pass
        wr(st, p, simp(i + 1)); g['steps'] = True; return Ret(None if post else a[0])
    def written(st, idx, kind, v=None):
        event(st, idx, kind, v); st.g['k'] = simp(st.g['k'] + 1); st.g['phase'] = 0
    ex.contract('QO::operator++()', step, 'opaque output ++', True); ex.contract('QO::operator++(int)', step, 'opaque output ++', True)
    ex.contract('QO::operator*()', lambda ex, st, a, ins: Ret(rd(st, a[0])), 'opaque output *', True)
    ex.contract('QRef::operator=(V const&)', lambda ex, st, a, ins: (written(st, rd(st, a[0]), 'value', ex.load(st, a[1], I64)), Ret(None))[1], 'opaque output =', True)
    def moved(st, p):
        if p.r == toks: ex.check(st, False, 'elements of the source are not moved from')
        return ex.load(st, p, I64)
    ex.contract('QRef::operator=(V&&)', lambda ex, st, a, ins: (written(st, rd(st, a[0]), 'value', moved(st, a[1])), Ret(None))[1], 'opaque output =', True)
    ex.contract('TO::operator=(V&&)', lambda ex, st, a, ins: (written(st, rd(st, a[0]), 'value', moved(st, a[1])), Ret(a[0]))[1], 'opaque output =', True)
    def oassign(ex, st, a, ins):
        e = to_bv(ex.load(st, a[1].add(8), I8), 8) != 0
        if ex.must(st, e): written(st, rd(st, a[0]), 'value', ex.load(st, a[1], I64)); return Ret(None)
        if ex.must(st, z3.Not(e)): written(st, rd(st, a[0]), 'null'); return Ret(None)
        s2 = st.fork(); st.assume(e); s2.assume(z3.Not(e)); written(st, rd(st, a[0]), 'value', ex.load(st, a[1], I64)); written(s2, rd(s2, a[0]), 'null'); return [(st, Ret(None)), (s2, Ret(None))]
    ex.contract(rx(r'^QRef::operator=\(std::optional<V> const&\)'), oassign, 'opaque output =', True)
    ex.contract(rx(r'^QRef::operator=\(std::nullopt_t\)'), lambda ex, st, a, ins: (written(st, rd(st, a[0]), 'null'), Ret(None))[1], 'opaque output =', True)
    ex.contract('TO::operator++()', step, 'opaque output ++', True); ex.contract('TO::operator++(int)', step, 'opaque output ++', True)
    ex.contract('TO::operator=(V const&)', lambda ex, st, a, ins: (written(st, rd(st, a[0]), 'value', ex.load(st, a[1], I64)), Ret(a[0]))[1], 'opaque output =', True)
    ex.contract('TO::trailing()', lambda ex, st, a, ins: (written(st, rd(st, a[0]), 'null'), Ret(None))[1], 'opaque output trailing()', True)
    def pj(ex, st, a, ins): ex.store(st, a[0], proj(to_bv(ex.load(st, a[2], I64), 64)), I64); return Ret(None)
    ex.contract('PJ::operator()(V const&) const', pj, 'opaque projection', True)
    ex.contract('UP::operator()(QIt<V> const&) const', lambda ex, st, a, ins: (inrange(st, rd(st, a[1])), Ret(z3.Select(accept, rd(st, a[1]))))[1], 'opaque predicate', True)
    # opaque container (unflatten)
    def cbegin(ex, st, a, ins): wr(st, a[0], st.g['cur']); ex.store(st, a[0].add(8), st.g['cure'], I8); return Ret(None)
    def cend(ex, st, a, ins): wr(st, a[0], fresh('endpos')); ex.store(st, a[0].add(8), 0, I8); return Ret(None)
    ex.contract('QC::end()', cend, 'opaque container end', True)
    ex.contract('QC::begin()', cbegin, 'opaque container begin', True)
    def cins(ex, st, a, ins):
        g = st.g; k = g['k']; ex.check(st, z3.And(k < pn, g['phase'] == 0, z3.Select(lead, k)), 'a node is inserted once for each value'); ex.check(st, rd(st, a[2]) == g['cur'], 'it is inserted at the current position'); ex.check(st, ex.load(st, a[3], I64) == z3.Select(val, k), 'it holds the value')
        g['cur'] = fresh('node'); g['cure'] = z3.BitVecVal(1, 8); g['phase'] = 1; wr(st, a[0], g['cur']); ex.store(st, a[0].add(8), 1, I8); return Ret(None)
    ex.contract('QC::insert(CI const&, V)', cins, 'opaque container insert: returns the leading edge of the new node (C01)', True)
    def cstep(ex, st, a, ins):
        post = len(a) > 1 and isinstance(a[1], Ptr); p = a[1] if post else a[0]; g = st.g; k = g['k']
        if post: wr(st, a[0], rd(st, p)); ex.store(st, a[0].add(8), ex.load(st, p.add(8), I8), I8)
        e = to_bv(ex.load(st, p.add(8), I8), 8) & 1
        ex.check(st, z3.And(k < pn, rd(st, p) == g['cur']), 'the position advances once per token')
        if g['phase'] == 1: ex.check(st, e == 1, 'after a value the position moves inside the new node')
        else: ex.check(st, z3.And(z3.Not(z3.Select(lead, k)), z3.Or(e == 0, e == g['cure'] & 1)), 'a nullopt closes the current node: the position moves past its trailing edge')   # the position is that edge already when the tokens nest
        g['cur'] = fresh('next'); g['cure'] = fresh('edge', 'bv', 8); g['phase'] = 0; g['k'] = simp(k + 1); wr(st, p, g['cur']); ex.store(st, p.add(8), g['cure'], I8); return Ret(None if post else a[0])
    ex.contract('CI::operator++()', cstep, 'opaque container iterator ++ (C02)', True); ex.contract('CI::operator++(int)', cstep, 'opaque container iterator ++ (C02)', True)
    def tie(ex, st, v):
        g = st.g
        if isinstance(v, Ptr) and v.i is not None: return None
        if z3.is_expr(v) and z3.is_bv(v) and v.size() == 8: return 'cure' if ex.must(st, (v & 1) == (g['cure'] & 1)) else None
        if not (z3.is_expr(v) and z3.is_int(v)): return None
        if v.eq(p0) and ex.must(st, g['k'] != p0): return None
        return 'k' if ex.must(st, v == g['k']) else 'o' if ex.must(st, v == o0 + (g['k'] - p0)) else 'cur' if ex.must(st, v == g['cur']) else None
    def rel(ex, st, vals): return tuple((p, tie(ex, st, vals[p])) for p in vals) + (ex.must(st, st.g['k'] == pn),)
    def gen(ex, st, vals):
        r = ex.last_rel; k = fresh('k'); st.assume(p0 <= k, k <= pn); c = fresh('cur'); ce = fresh('edge', 'bv', 8); st.g.update(k=k, cur=c, cure=ce)
        if r[-1]: st.assume(k == pn)
        m = {'k': k, 'o': simp(o0 + (k - p0)), 'cur': c, 'cure': ce}; return {p: m[t] for p, t in r[:-1] if t}
    ex.loopspecs.append(lambda ex, st, f, hd: TagLoop('loop of ' + short(f.dem), rel, gen, skip=('k', 'cur', 'cure', 'steps')) if 'stlab' in f.dem else None)
    def cell(name, v, size=8): p = Ptr(ex.new_region(s, size, name)); wr(s, p, v); return p
    a, b = cell('first', p0), cell('last', pn); o = cell('out', o0); r = Ptr(ex.new_region(s, 8, 'result')); pjp, up = cell('proj', z3.IntVal(1)), cell('pred', z3.IntVal(2)); rng = cell('range', z3.IntVal(3)); c = Ptr(ex.new_region(s, 1, 'container'))
    args = {'c4_flatten': [a, b, o, r], 'c4_transcribe': [a, b, o, pjp, up, r], 'c4_transcribe_range': [rng, o, pjp, up, r], 'c4_transcribe_lead': [a, b, o, pjp, r], 'c4_transcribe_range_lead': [rng, o, pjp, r], 'c4_unflatten': [a, b, c]}[fn]; n = 0
    for st, rv in ex.invoke_fn(s, fn, args):
        n += 1; ex.check(st, isinstance(rv, Ret), 'does not throw'); ex.check(st, z3.And(st.g['k'] == pn, st.g['phase'] == 0), 'every position of the range is processed')
        if fn != 'c4_unflatten': ex.check(st, rd(st, r) == o0 + (pn - p0), 'the result is the output past the last place written')
        ex.check(st, all(st.mem[toks].cells[k].eq(R.cells[k]) for k in R.cells), 'frame: the source is not modified')
    ex.check(s, n >= 1, 'cover: a path returns'); return ex
def itr(fn):
    ex = Engine(mod()); w = ForestWorld(ex, 1); w.install(); st = w.st; g = w.g0; o = w.out(st); ex.under_contract.add('transcribe_iterator::' + fn[3:])
    if fn == 'c4_make':
        def post(ex, st, rv): y, f = w.getiter(st, o); w.note(st, y); ex.check(st, And(g.own(y) == 1, w.pos(g, y, f) == 1), 'transcribing starts at the front of the forest'); w.unchanged(ex, st)
        args = [w.F[1], o]
    elif fn == 'c4_trailing':
        p, x, e = w.iter(st, 1, 'pos'); st.assume(x != w.tail[1], Not(e))   # a closing token only comes while a node is open: the position is its trailing edge
        def post(ex, st, rv): y, f = w.getiter(st, o); w.note(st, y); ex.check(st, And(g.own(y) == 1, w.pos(g, y, f) == g.T(x) + 1), 'closing a node moves the position past its trailing edge'); w.unchanged(ex, st)
        args = [w.F[1], p, o]
    else:
        p, x, e = w.iter(st, 1, 'pos'); v, t = w.value(st, 'newval'); q = w.pos(g, x, e)
        def post(ex, st, rv):
            z, ze = w.getiter(st, o); ex.check(st, Not(ze), 'after writing a value the position is inside the new node'); w.inserted(ex, st, z, q, t)
        args = [w.F[1], p, v, o]
    w.pc0 = list(st.pc); w.seen0 = dict(st.g['seen']); w.nodes0 = list(st.g['nodes'])
    ex.verify('transcribe_iterator ' + fn[3:], st, fn, args, post); return ex
def run(u, **kw): return [itr(u) if u in ITR else seq(u)]
