"""Abstract sequences: contracts for the parts of std::vector / std::deque that the verified code calls.

A container's elements live in one 'indexed' region (SMT arrays, one per field offset); the live elements are the
indices [lo, hi).  std::vector keeps its real representation (three pointers into that region), so size(), begin(),
front(), indexing ... are the real inlined libstdc++ code and only the operations that may reallocate are contracts."""
import re, z3
from .core import *
class Codec:
    """pointer-valued field: SMT integers standing for addresses"""
    tab = {}
    def enc(s, ex, st, v):
        if isinstance(v, Null): return z3.IntVal(0)
        if isinstance(v, Tok): return zi(v.t)
        if isinstance(v, int): return z3.IntVal(v)
        if isinstance(v, Fn): return z3.IntVal(s.tab.setdefault(v.name, 1000001 + len(s.tab)))
        if z3.is_expr(v) and z3.is_int(v): return v
        if isinstance(v, Undef): return fresh('undef')
        raise ToolLimit('cannot store %r in a sequence element' % (v,))
    def dec(s, ex, st, t): return Tok(t)
class IntCodec:
    """ghost tokens kept as mathematical integers"""
    def enc(s, ex, st, v): return zi(v) if not isinstance(v, Undef) else fresh('undef')
    def dec(s, ex, st, t): return t
def lazy(tokfields):
    def f(ex, st, rid, key, ty):
        R = st.reg(rid)
        if key[0] in tokfields: R.codec[key[0]] = IntCodec(); sort = z3.IntSort()
        elif ty is not None and ty.k == 'ptr': R.codec[key[0]] = Codec(); sort = z3.IntSort()
        else: sort = z3.BitVecSort(8 * key[1])
        R.cells[key] = z3.Array('seq%d_%d!%d' % (rid, key[0], next(_n)), z3.IntSort(), sort)
    return f
import itertools
_n = itertools.count()
class Seq:
    """one container kind: elements of esize bytes; tokfields: offsets holding ghost tokens (mathematical integers)"""
    def __init__(s, ex, esize, tokfields=(), name='sequence', bounds=True):
        s.ex = ex; s.es = esize; s.tok = tuple(tokfields); s.name = name; s.bounds = bounds
    def region(s, st):
        ex = s.ex; r = ex.new_region(st, None, s.name + ' elements', 'indexed', esize=s.es); R = st.mem[r]; R.lazy = lazy(s.tok); R.codec = {}
        for o in s.tok: R.lazy(ex, st, r, (o, 8), None)
        R.meta['lo'] = R.meta['hi'] = 0
        if s.bounds: R.meta['access'] = s.access
        if 'delete' not in ex.hooks: ex.hooks['delete'] = del_elems
        return r
    def access(s, ex, st, p, size, what):
        R = st.mem[p.r]; i = zi(p.i)
        if R.esize and (p.o < 0 or p.o >= R.esize): i = i + p.o // R.esize
        # a slot under construction is allowed while a contract builds it
        if R.meta.get('open') is not None and z3.is_true(z3.simplify(i == zi(R.meta['open']))): return
        c = z3.And(zi(R.meta['lo']) <= i, i < zi(R.meta['hi']))
        def word(t): return t.arg(0) if z3.is_expr(t) and t.decl().kind() == z3.Z3_OP_BV2INT else z3.BitVecVal(t.as_long(), 64) if z3.is_int_value(t) and 0 <= t.as_long() < 1 << 64 else None
        x, y = word(z3.simplify(i)), word(z3.simplify(zi(R.meta['hi'])))
        if x is not None and y is not None and x.size() == y.size() and z3.is_int_value(zi(R.meta['lo'])) and zi(R.meta['lo']).as_long() == 0: c = z3.ULT(x, y)
        ex.check(st, c, 'memory-safety: an element of the %s is accessed inside its bounds (%s)' % (s.name, what))
    def rng(s, st, r): m = st.mem[r].meta; return m['lo'], m['hi']
    def setrng(s, st, r, lo, hi): m = st.reg(r).meta; m['lo'] = lo; m['hi'] = hi
def del_elems(ex, st, a, ins):
    p = a[0]
    if isinstance(p, Ptr) and st.mem[p.r].kind == 'indexed' and 'lo' in st.mem[p.r].meta:
        R = st.reg(p.r); ex.check(st, R.alive, 'memory-safety: element storage is released exactly once'); R.alive = False; return Ret(None)
class Vector(Seq):
    """std::vector: begin/end/capacity pointers at offset 0/8/16.
    construct(ex, st, dst, args): builds an element in the slot dst; destroy(ex, st, p): destroys one (None: trivially)"""
    def sync(s, st, v, r):
        R = st.ro(r); lo, hi = R.meta['lo'], R.meta['hi']; ex = s.ex; cap = fresh('cap'); st.assume(cap >= zi(hi))
        for o, i in ((0, lo), (8, hi), (16, cap)): ex.put(st, v.r, v.o + o, 8, Ptr(r, i, 0))
    def init(s, st, v, n=0):
        r = s.region(st); s.setrng(st, r, 0, n); s.sync(st, v, r); return r
    def bounds_of(s, st, v):
        """the live range, read from the object (pop_back and clear are inlined)"""
        a, b = s.ex.load(st, v, PTR), s.ex.load(st, v.add(8), PTR)
        if not isinstance(a, Ptr): return None, 0, 0
        def norm(p): return simp(zi(p.i) + p.o // s.es) if p.o else p.i
        return a.r, norm(a), norm(b)
    def insert_at(s, st, v, pos):
        """opens a slot at index pos (None: end), shifting the later elements; returns the slot"""
        r, lo, hi = s.bounds_of(st, v)
        if r is None: r = s.init(st, v); lo = hi = 0
        s.setrng(st, r, lo, simp(zi(hi) + 1)); s.sync(st, v, r)
        if pos is None: return Ptr(r, hi, 0)
        R = st.reg(r); k = z3.Int('k!%d' % next(_n))
        for f, a in list(R.cells.items()): R.cells[f] = z3.Lambda([k], z3.If(k <= zi(pos), z3.Select(a, k), z3.Select(a, k - 1)))
        return Ptr(r, pos, 0)
    def remove_at(s, st, v, pos):
        r, lo, hi = s.bounds_of(st, v); R = st.reg(r); k = z3.Int('k!%d' % next(_n))
        for f, a in list(R.cells.items()): R.cells[f] = z3.Lambda([k], z3.If(k < zi(pos), z3.Select(a, k), z3.Select(a, k + 1)))
        s.setrng(st, r, lo, simp(zi(hi) - 1)); s.sync(st, v, r)
    def idx(s, p): return simp(zi(p.i) + p.o // s.es) if p.o else p.i
    def install(s, elem, construct):
        """contracts for the operations that may reallocate or shift; elem: regex of the element type"""
        ex = s.ex; P = r'(^|[ &])std::vector<%s.*>::' % elem
        def app(ex, st, a, ins): p = s.insert_at(st, a[0], None); construct(ex, st, p, a[1:]); return Ret(p)
        ex.contract(re.compile(P + r'(push_back|emplace_back)(<.*>)?\('), app, 'std::vector::push_back/emplace_back: appends one element', True)
        def ins_(ex, st, a, ins):
            p = a[1] if isinstance(a[1], Ptr) and st.mem[a[1].r].kind == 'indexed' else ex.load(st, a[1], PTR)
            pos = s.idx(p) if isinstance(p, Ptr) else None
            q = s.insert_at(st, a[0], pos); construct(ex, st, q, a[2:]); return Ret(q)
        ex.contract(re.compile(P + r'(insert|emplace)(<.*>)?\('), ins_, 'std::vector::insert: inserts one element', True)
        def er(ex, st, a, ins):
            p = a[1] if isinstance(a[1], Ptr) and st.mem[a[1].r].kind == 'indexed' else ex.load(st, a[1], PTR)
            if len(a) > 2: raise ToolLimit('vector::erase of a range')
            s.remove_at(st, a[0], s.idx(p)); return Ret(Ptr(p.r, s.idx(p), 0))
        ex.contract(re.compile(P + r'erase\('), er, 'std::vector::erase: removes one element', True)
        ex.contract(re.compile(P + r'reserve\('), lambda ex, st, a, ins: Ret(None), 'std::vector::reserve', True)
from .names import cxx, base
class Deque(Seq):
    """std::deque as an abstract sequence: the object holds [first, last) positions (offsets 0 and 8) into an element region.
    construct(ex, st, slot, args, params) builds an element; destroy(ex, st, p) ends one; move(ex, st, dst, src) relocates nothing (elements stay put)."""
    def __init__(s, ex, esize, elem, construct, destroy=None, tokfields=(0,), name='queue', on_drop=None):
        super().__init__(ex, esize, tokfields, name); s.elem = elem; s.construct = construct; s.destroy = destroy; s.created = []
        s.on_drop = on_drop
        def mine(name, dem):
            if not dem.startswith('std::') and ' std::' not in dem: return False
            sc = cxx(dem)[0]
            return bool(sc) and sc[0] == 'std' and len(sc) >= 2 and base(sc[1]) == 'deque' and s.match(sc[1])
        ex.contract(mine, s.dispatch, 'std::deque<%s>: a sequence' % elem, True)
        def inner(name, dem):
            sc = cxx(dem)[0]
            return len(sc) >= 2 and sc[0] == 'std' and base(sc[1]) in ('_Deque_base', '_Deque_iterator') and s.match(sc[1])
        def no(ex, st, a, ins): raise ToolLimit('std::deque operation outside the contracts')
        ex.contract(inner, no, 'std::deque internals', True)
    def match(s, c): return c[c.find('<') + 1:].startswith(s.elem)
    def own(s, st, d):
        r = s.region(st); st.reg(r).meta['owner'] = (d.r, d.o); return r
    def access(s, ex, st, p, size, what):
        R = st.mem[p.r]; i = zi(p.i)
        if R.esize and (p.o < 0 or p.o >= R.esize): i = i + p.o // R.esize
        if R.meta.get('open') is not None and z3.is_true(z3.simplify(i == zi(R.meta['open']))): return
        ow = R.meta.get('owner')
        if ow is None or not st.mem[ow[0]].alive: ex.check(st, False, 'memory-safety: an element of the %s is used after the queue is gone' % s.name); raise Infeasible()
        lo, hi = s.rd(st, Ptr(ow[0], None, ow[1]))
        ex.check(st, z3.And(zi(lo) <= i, i < zi(hi)), 'memory-safety: an element of the %s is accessed inside its bounds (%s)' % (s.name, what))
    def cells(s, st, d):
        R = st.mem[d.r]; a, b = R.cells.get(d.o), R.cells.get(d.o + 8)
        if a is None or not isinstance(a[1], Ptr): raise ToolLimit('%s is not initialised' % s.name)
        return a[1], b[1]
    def rd(s, st, d):
        a, b = s.cells(st, d); return a.i, b.i
    def reg_of(s, st, d): return s.cells(st, d)[0].r
    def wr(s, st, d, r, lo, hi):
        s.ex.access_ok(st, d, 16, 'write')
        s.ex.put(st, d.r, d.o, 8, Ptr(r, lo, 0)); s.ex.put(st, d.r, d.o + 8, 8, Ptr(r, hi, 0))
    def acc(s, st, d, what='read'): s.ex.access_ok(st, d, 8, what); s.ex.access_ok(st, d.add(8), 8, what)
    def make(s, st, d, n=0):
        r = s.own(st, d); s.wr(st, d, r, 0, n); return r
    def push(s, st, d, args, params, front=False):
        r = s.reg_of(st, d); lo, hi = s.rd(st, d)
        if front: i = simp(zi(lo) - 1)
        else: i = hi
        st.reg(r).meta['open'] = i; p = Ptr(r, i, 0)
        res = s.construct(s.ex, st, p, args, params)
        if isinstance(res, list): outs = res
        else: outs = [(st, res)]
        o = []
        for st2, rr in outs:
            st2.reg(r).meta['open'] = None
            if isinstance(rr, Throw): o.append((st2, rr)); continue
            if front: s.wr(st2, d, r, i, hi)
            else: s.wr(st2, d, r, lo, simp(zi(hi) + 1))
            o.append((st2, Ret(p)))
        return o
    def steal(s, st, d, src):
        """d takes src's elements, src becomes empty"""
        r = s.reg_of(st, src); lo, hi = s.rd(st, src); s.wr(st, d, r, lo, hi); st.reg(r).meta['owner'] = (d.r, d.o); s.make(st, src)
    def drop(s, st, d, lo, hi):
        if s.on_drop: s.on_drop(s.ex, st, s.reg_of(st, d), lo, hi)
    def dispatch(s, ex, st, a, ins):
        v = ex.val(st, ins.x); dem = ex.mod.funcs[v.name].dem; sc, m, par = cxx(dem); d = a[0]
        if m == 'deque':
            s.created.append((d.r, d.o))
            if par == '' or (par.startswith('std::allocator') and 'deque' not in par): ex.access_ok(st, d, 80, 'write'); s.make(st, d); return Ret(None)
            if par.endswith('&&'): s.acc(st, a[1]); s.steal(st, d, a[1]); return Ret(None)
            raise ToolLimit('deque constructor ' + par)
        if m == '~deque':
            lo, hi = s.rd(st, d); s.drop(st, d, lo, hi); st.reg(s.reg_of(st, d)).alive = False; return Ret(None)
        s.acc(st, d, 'write' if m not in ('empty', 'size', 'front', 'back', 'operator[]', 'at') else 'read')
        lo, hi = s.rd(st, d); r = s.reg_of(st, d)
        if m == 'empty': return Ret(simp(zi(lo) == zi(hi)))
        if m == 'size': return Ret(simp(zi(hi) - zi(lo)))
        if m in ('front', 'back', 'pop_front', 'pop_back'):
            ex.check(st, zi(lo) < zi(hi), '%s is called on a non-empty %s only' % (m, s.name))
            if not ex.feasible(st, zi(lo) < zi(hi)): raise Infeasible()
            st.assume(zi(lo) < zi(hi))
        if m == 'front': return Ret(Ptr(r, lo, 0))
        if m == 'back': return Ret(Ptr(r, simp(zi(hi) - 1), 0))
        if m == 'pop_front':
            if s.destroy: s.destroy(ex, st, Ptr(r, lo, 0))
            s.wr(st, d, r, simp(zi(lo) + 1), hi); return Ret(None)
        if m == 'pop_back':
            if s.destroy: s.destroy(ex, st, Ptr(r, simp(zi(hi) - 1), 0))
            s.wr(st, d, r, lo, simp(zi(hi) - 1)); return Ret(None)
        if m in ('emplace_back', 'push_back'): return s.push(st, d, a[1:], par)
        if m in ('emplace_front', 'push_front'): return s.push(st, d, a[1:], par, True)
        if m == 'operator[]':
            i = simp(zi(lo) + zi(a[1])); ex.check(st, z3.And(zi(lo) <= i, i < zi(hi)), 'an existing element of the %s is indexed' % s.name); return Ret(Ptr(r, i, 0))
        if m == 'clear': s.drop(st, d, lo, hi); s.wr(st, d, r, lo, lo); return Ret(None)
        if m == 'swap':
            s.acc(st, a[1], 'write'); r2 = s.reg_of(st, a[1]); lo2, hi2 = s.rd(st, a[1]); s.wr(st, d, r2, lo2, hi2); s.wr(st, a[1], r, lo, hi)
            st.reg(r2).meta['owner'] = (d.r, d.o); st.reg(r).meta['owner'] = (a[1].r, a[1].o); return Ret(None)
        if m == 'operator=' and par.endswith('&&'):
            s.acc(st, a[1], 'write'); s.drop(st, d, lo, hi); s.steal(st, d, a[1]); return Ret(d)
        raise ToolLimit('std::deque::%s(%s) has no contract' % (m, par[:60]))
def split_args(s):
    out = []; d = 0; cur = ''
    for c in s:
        if c in '<({[': d += 1
        elif c in '>)}]': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    return out + [cur.strip()]
class Heap:
    """assumed contracts of std::push_heap / std::pop_heap on a Vector's element region (meta 'heap' = length of the heap prefix,
    'base' = element arrays as of the last heap operation); the comparator is the real code, evaluated symbolically."""
    def __init__(s, ex, vec):
        s.ex = ex; s.vec = vec
        f = lambda m: (lambda name, dem: m in dem and cxx(dem)[:2] == (('std',), m))
        ex.contract(f('push_heap'), s.push, 'std::push_heap', True); ex.contract(f('pop_heap'), s.pop, 'std::pop_heap', True)
    def cmps(s):
        c = set()
        for n, f in s.ex.mod.funcs.items():
            if '_heap' in f.dem and cxx(f.dem)[0] == ('std',) and cxx(f.dem)[1] in ('push_heap', 'pop_heap'): c.add(split_args(cxx(f.dem)[2])[-1])
        return c
    def lt(s, st, cmp, r, i, j):
        """comparator(element i, element j) as a formula"""
        fs = [n for n, f in s.ex.mod.funcs.items() if cmp + '::operator()' in f.dem and cxx(f.dem)[1] == 'opcall' and '::'.join(cxx(f.dem)[0]) == cmp.replace('operator()', 'opcall')]
        if len(fs) != 1: raise ToolLimit('comparator %s is not a known function object' % cmp)
        s2 = st.fork(); R = s2.reg(r); R.meta['access'] = None; n0 = len(s2.pc); this = Ptr(s.ex.new_region(s2, 8, 'comparator'))
        fr = s2.frames; s2.frames = []; out = []
        for o, v in s.ex.invoke_fn(s2, fs[0], [this, Ptr(r, i, 0), Ptr(r, j, 0)]):
            if not isinstance(v, Ret): raise ToolLimit('comparator throws')
            out.append(z3.And(*(o.pc[n0:] + [to_bool(v.v)])))
        return z3.Or(*out)
    def set(s, st, r, m):
        R = st.reg(r); R.meta['heap'] = m; R.meta['base'] = dict(R.cells)
    def same(s, st, r, lo, hi, what):
        R = st.mem[r]; j = fresh('any')
        for k, b in R.meta['base'].items():
            s.ex.check(st, z3.Implies(z3.And(zi(lo) <= j, j < zi(hi)), z3.Select(R.cells[k], j) == z3.Select(b, j)), what)
    def unbase(s, st, r):
        """fields touched for the first time since the base was taken keep their own value"""
        R = st.reg(r); b = dict(R.meta['base'])
        for k, a in R.cells.items(): b.setdefault(k, a)
        R.meta['base'] = b
    def shuffle(s, st, r):
        R = st.reg(r)
        for k, a in list(R.cells.items()): R.cells[k] = z3.Const('arr!%d' % next(_n), a.sort())
    def args(s, ex, st, a, ins):
        v = ex.val(st, ins.x); cmp = split_args(cxx(ex.mod.funcs[v.name].dem)[2])[-1]
        p = [x if isinstance(x, Ptr) and st.mem[x.r].kind == 'indexed' else ex.load(st, x, PTR) for x in a[:2]]
        if not isinstance(p[0], Ptr) or 'heap' not in st.mem[p[0].r].meta: raise ToolLimit('heap operation outside the contracts')
        return cmp, p[0].r, s.vec.idx(p[0]), s.vec.idx(p[1])
    def push(s, ex, st, a, ins):
        cmp, r, f, l = s.args(ex, st, a, ins); s.unbase(st, r); m = st.mem[r].meta['heap']
        ex.check(st, z3.And(zi(f) == 0, zi(m) == zi(l) - 1), 'push_heap is given a heap followed by the one new element'); s.same(st, r, 0, simp(zi(l) - 1), 'elements of the heap are changed only through heap operations')
        R = st.mem[r]; ev = ('push', cmp, {k: z3.Select(x, zi(l) - 1) for k, x in R.cells.items()}); st.g['heap_ev'] = st.g.get('heap_ev', ()) + (ev,)
        s.shuffle(st, r); s.set(st, r, l); return Ret(None)
    def pop(s, ex, st, a, ins):
        cmp, r, f, l = s.args(ex, st, a, ins); s.unbase(st, r); m = st.mem[r].meta['heap']
        ex.check(st, z3.And(zi(f) == 0, zi(m) == zi(l), zi(l) > 0), 'pop_heap is given a non-empty heap')
        if not ex.feasible(st, zi(l) > 0): raise Infeasible()
        st.assume(zi(l) > 0); s.same(st, r, 1, l, 'elements of the heap are changed only through heap operations')
        R = st.mem[r]; old = {k: z3.Select(x, 0) for k, x in R.cells.items()}; st.g['heap_ev'] = st.g.get('heap_ev', ()) + (('pop', cmp, old),)
        s.shuffle(st, r); R = st.reg(r)
        for k, x in list(R.cells.items()): R.cells[k] = z3.Store(x, zi(l) - 1, old[k])
        s.set(st, r, simp(zi(l) - 1)); return Ret(None)
