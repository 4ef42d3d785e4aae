"""Path-based symbolic executor / contract verifier over LLVM IR.

Every function under verification is executed once for ALL inputs that satisfy its precondition (symbolic
state), calls are replaced by the callee's contract when one is registered (and inlined otherwise), loops are
cut by invariants; every contract clause becomes an obligation "path condition => clause" that z3 must prove.
"""
import z3, time, itertools, os, subprocess, sys
sys.setrecursionlimit(20000)

class ToolLimit(Exception): pass          # construct outside the verifier's reach: never a violation
class Infeasible(Exception): pass

MASK = {w: (1 << w) - 1 for w in range(1, 129)}

class Null:
    def __repr__(s): return 'null'
NULL = Null()
class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()

class Fn:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __eq__(s, o): return isinstance(o, Fn) and o.name == s.name
    def __hash__(s): return hash(s.name)
    def __repr__(s): return '&' + s.name

class Ptr:
    """(region, idx, off): idx is None for scalar regions, else python int / z3 Int."""
    __slots__ = ('r', 'i', 'o')
    def __init__(s, r, i=None, o=0): s.r = r; s.i = i; s.o = o
    def add(s, k): return Ptr(s.r, s.i, s.o + k)
    def at(s, i): return Ptr(s.r, i, s.o)
    def __repr__(s): return 'Ptr(%s%s+%d)' % (s.r, '' if s.i is None else '[%s]' % s.i, s.o)
    def key(s): return (s.r, s.i if not z3.is_expr(s.i) else s.i.get_id(), s.o)

class Tok:
    """opaque pointer-sized token (identity of an abstract thing); equality by z3 Int term or python int"""
    __slots__ = ('t',)
    def __init__(s, t): s.t = t
    def __repr__(s): return 'Tok(%s)' % (s.t,)

def is_sym(v): return z3.is_expr(v)

def zi(v):  # to z3 Int
    return v if z3.is_expr(v) else z3.IntVal(v)

def to_bv(v, w):
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if z3.is_int(v): return z3.Int2BV(v, w)
    return v

def to_bool(v):
    if isinstance(v, (bool, int)): return z3.BoolVal(bool(v & 1))
    if z3.is_bool(v): return v
    return v == 1

def simp(v):
    if not z3.is_expr(v): return v
    v = z3.simplify(v)
    if z3.is_bv_value(v): return v.as_long()
    if z3.is_true(v): return 1
    if z3.is_false(v): return 0
    if z3.is_int_value(v): return v.as_long()
    return v

class Region:
    __slots__ = ('id', 'kind', 'size', 'label', 'alive', 'cells', 'heap', 'esize', 'codec', 'meta', 'lazy')
    def __init__(s, id, kind, size, label, heap=False, esize=None):
        s.id = id; s.kind = kind; s.size = size; s.label = label; s.alive = True
        s.cells = {}; s.heap = heap; s.esize = esize; s.codec = {}; s.meta = {}; s.lazy = None
    def copy(s):
        n = Region(s.id, s.kind, s.size, s.label, s.heap, s.esize)
        n.alive = s.alive; n.cells = dict(s.cells); n.codec = s.codec; n.meta = dict(s.meta); n.lazy = s.lazy
        return n

class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'prev', 'regs', 'call', 'allocas', 'loops', 'onret')
    def __init__(s, fn):
        s.fn = fn; s.blk = None; s.ip = 0; s.prev = None; s.regs = {}; s.call = None; s.allocas = []; s.loops = {}; s.onret = None
    def copy(s):
        n = Frame(s.fn); n.blk = s.blk; n.ip = s.ip; n.prev = s.prev; n.regs = dict(s.regs); n.call = s.call
        n.allocas = list(s.allocas); n.loops = dict(s.loops); n.onret = s.onret
        return n

class State:
    def __init__(s):
        s.pc = []; s.frames = []; s.mem = {}; s.g = {}; s.trace = []; s.exc = None; s.caught = []; s.path = []; s.owned = set()
        s.model = None
    def fork(s):
        n = State(); n.pc = list(s.pc); n.frames = [f.copy() for f in s.frames]
        n.mem = dict(s.mem); s.owned = set(); n.owned = set()
        n.g = {k: (v.copy() if isinstance(v, (dict, list, set)) else v) for k, v in s.g.items()}
        n.trace = list(s.trace); n.exc = s.exc; n.caught = list(s.caught); n.path = list(s.path)
        return n
    def reg(s, r):  # writable region
        R = s.mem[r]
        if r not in s.owned:
            R = R.copy(); s.mem[r] = R; s.owned.add(r)
        return R
    def ro(s, r): return s.mem[r]
    @property
    def fr(s): return s.frames[-1]
    def assume(s, *cs):
        for c in cs:
            if isinstance(c, (bool, int)):
                if not c: s.pc.append(z3.BoolVal(False))
                continue
            s.pc.append(c)
    def ev(s, *e): s.trace.append(e)

class Ret:
    __slots__ = ('v',)
    def __init__(s, v=None): s.v = v
class Throw:
    __slots__ = ('e',)
    def __init__(s, e): s.e = e
class Exc:
    """exception in flight: type = typeinfo symbol name or None when unknown; tok = identity"""
    def __init__(s, tok, ti=None, obj=None): s.tok = tok; s.ti = ti; s.obj = obj
    def __repr__(s): return 'Exc(%s,%s)' % (s.tok, s.ti)

class Outcome:
    def __init__(s, st, kind, val): s.st = st; s.kind = kind; s.val = val

class Obligation:
    __slots__ = ('name', 'result', 'n', 'time', 'backend')

class Violation:
    def __init__(s, name, detail, model, path, fn): s.name = name; s.detail = detail; s.model = model; s.path = path; s.fn = fn

_fresh = itertools.count()
def fresh(name, sort='int', w=64):
    n = '%s!%d' % (name, next(_fresh))
    if sort == 'bv': return z3.BitVec(n, w)
    if sort == 'bool': return z3.Bool(n)
    if sort == 'int': return z3.Int(n)
    if sort == 'real': return z3.Real(n)
    return z3.Const(n, sort)

def urem(a, b): w = a.size(); return z3.Function('urem%d' % w, z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))(z3.simplify(a), z3.simplify(b))
def bv_index(i):
    """a 64-bit index as an integer; zero-extended values stay unsigned"""
    t = z3.simplify(i)
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0: t = t.arg(1) if t.num_args() == 2 else z3.Concat(*[t.arg(k) for k in range(1, t.num_args())])
    low = z3.is_app(t) and (t.decl().kind() in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) or t.decl().name().startswith('urem')) and small(t.arg(1)) is not t.arg(1)     # x % (zero-extended y)
    return z3.BV2Int(t, t.size() == i.size() and not low)
def index_bv(e):
    """the machine word behind an integer index made by bv_index, or None"""
    if z3.is_expr(e) and e.decl().kind() == z3.Z3_OP_ITE: e = e.arg(1)
    return e.arg(0) if z3.is_expr(e) and e.decl().kind() == z3.Z3_OP_BV2INT else None
class Engine:
    def __init__(self, mod, unroll=24, timeout=20000, maxpaths=20000):
        self.mod = mod; self.unroll = unroll; self.timeout = timeout
        self.contracts = []       # (matcher, handler, label)
        self.cc = {}
        self.loopspecs = []       # callables (ex, st, fn, header) -> LoopSpec | None
        self.obl = {}; self.violations = []; self.limits = []
        self.rid = itertools.count(1)
        self.solver_time = 0.0; self.queries = 0
        self.hooks = {}           # 'access','lock',...
        self.inlined = set(); self.under_contract = set(); self.trusted = set()
        self.cur = ''
        self.maxpaths = maxpaths; self.deadline = None
        self.typeids = {}
        self.axioms = []          # global axioms added to every query
        self.xcheck = False
        self.stepcount = 0
        self.globals_init = {}

    # ---------------------------------------------------------------- solver
    def solver(self, st):
        s = z3.Solver(); s.set('timeout', self.timeout)
        for a in self.axioms: s.add(a)
        s.add(st.pc)
        return s
    def feasible(self, st, *extra):
        t = time.time(); self.queries += 1
        s = self.solver(st)
        for e in extra: s.add(e)
        r = s.check(); self.solver_time += time.time() - t
        if r == z3.unknown: return True
        return r == z3.sat
    def must(self, st, c):
        c = z3.simplify(to_bool(c)) if not isinstance(c, (bool, int)) else c
        if isinstance(c, (bool, int)): return bool(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return not self.feasible(st)
        t = time.time(); self.queries += 1
        s = self.solver(st); s.add(z3.Not(c))
        r = s.check(); self.solver_time += time.time() - t
        return r == z3.unsat
    def check(self, st, cond, name, detail=''):
        """obligation: pc => cond"""
        full = self.cur + ' :: ' + name
        o = self.obl.get(full)
        if o is None:
            o = self.obl[full] = Obligation(); o.name = full; o.result = 'discharged'; o.n = 0; o.time = 0.0; o.backend = {}
        o.n += 1
        if isinstance(cond, (bool, int)): cond = z3.BoolVal(bool(cond))
        t = time.time(); self.queries += 1
        s = self.solver(st); s.add(z3.Not(cond))
        r = s.check(); be = 'z3'
        if r == z3.unknown:
            r2 = self.external(s)
            if r2: r, be = r2
        dt = time.time() - t; self.solver_time += dt; o.time += dt
        o.backend[be] = o.backend.get(be, 0) + 1
        if r == z3.unsat or r == 'unsat':
            if self.xcheck:
                x = self.external(s, only='cvc5')
                if x and x[0] == 'unsat': o.backend['cvc5-xcheck'] = o.backend.get('cvc5-xcheck', 0) + 1
                elif x and x[0] == z3.sat: raise ToolLimit('solver disagreement on ' + full)
            return True
        if r == z3.sat:
            m = None
            try: m = s.model()
            except Exception: pass
            o.result = 'failed'
            self.violations.append(Violation(full, detail, m, list(st.path), self.cur))
            return False
        o.result = 'unknown' if o.result == 'discharged' else o.result
        self.limits.append('solver gave no answer: ' + full)
        return None
    def external(self, s, only=None):
        smt = s.to_smt2()
        import tempfile
        f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False); f.write('(set-logic ALL)\n' + smt); f.close()
        try:
            cmds = [('cvc5', ['cvc5', '--tlimit=%d' % self.timeout, f.name]), ('z3-new', ['z3-new', '-T:%d' % (self.timeout // 1000), f.name])]
            for n, c in cmds:
                if only and n != only: continue
                try: out = subprocess.run(c, capture_output=True, text=True, timeout=self.timeout / 1000 + 5).stdout
                except Exception: continue
                l = out.strip().split('\n')[0] if out.strip() else ''
                if l == 'unsat': return ('unsat', n)
                if l == 'sat': return (z3.sat, n)
        finally: os.unlink(f.name)
        return None
    def choose(self, st, cond):
        """fork on boolean; returns list of (state, bool). Mutates st for one of them."""
        cond = simp(cond)
        if isinstance(cond, int): return [(st, bool(cond))]
        cond = to_bool(cond)
        t = self.feasible(st, cond); f = self.feasible(st, z3.Not(cond))
        out = []
        if t and f:
            s2 = st.fork(); s2.pc.append(z3.Not(cond)); st.pc.append(cond)
            return [(st, True), (s2, False)]
        if t: st.pc.append(cond); return [(st, True)]
        if f: st.pc.append(z3.Not(cond)); return [(st, False)]
        return []
    def concretize(self, st, v, limit=16):
        """fork on all feasible values of int term v: list of (state, int)"""
        v = simp(v)
        if isinstance(v, int): return [(st, v)]
        if z3.is_bool(v): return [(s, int(b)) for s, b in self.choose(st, v)]
        out = []; s = self.solver(st); vals = []
        while True:
            r = s.check()
            if r == z3.unsat: break
            if r == z3.unknown: raise ToolLimit('concretize unknown')
            val = s.model().eval(v, model_completion=True); vals.append(val); s.add(v != val)
            if len(vals) > limit: raise ToolLimit('symbolic offset/index with too many values: %s' % v)
        for k, val in enumerate(vals):
            s2 = st if k == len(vals) - 1 else st.fork()
            s2.pc.append(v == val); out.append((s2, val.as_long()))
        return out

    # ---------------------------------------------------------------- memory
    def new_region(self, st, size, label, kind='scalar', heap=False, esize=None):
        r = next(self.rid); R = Region(r, kind, size, label, heap, esize)
        st.mem[r] = R; st.owned.add(r)
        return r
    def alloc(self, st, size, label='obj', heap=False):
        return Ptr(self.new_region(st, size, label, heap=heap))
    def access_ok(self, st, p, size, what):
        if not isinstance(p, Ptr):
            if isinstance(p, Null): self.check(st, False, 'memory-safety: %s through null pointer' % what); raise Infeasible()
            raise ToolLimit('%s through %r' % (what, p))
        R = st.mem.get(p.r)
        if R is None: raise ToolLimit('unknown region')
        if not R.alive:
            self.check(st, False, 'memory-safety: %s of destroyed object (%s)' % (what, R.label)); raise Infeasible()
        if R.kind == 'scalar' and R.size is not None and (p.o < 0 or p.o + size > R.size):
            self.check(st, False, 'memory-safety: %s out of bounds (%s)' % (what, R.label)); raise Infeasible()
        h = R.meta.get('access')
        if h: h(self, st, p, size, what)
        return R
    def load(self, st, p, ty):
        size = ty.store or ty.size
        if ty.k in ('struct', 'array'): return self.load_agg(st, p, ty)
        R = self.access_ok(st, p, size, 'read')
        if R.kind == 'indexed':
            o = p.o
            if R.esize and (o < 0 or o >= R.esize):
                p = Ptr(p.r, simp(zi(p.i) + o // R.esize), o % R.esize); o = p.o
            return self.iload(st, R, p, size, ty)
        c = R.cells.get(p.o)
        if c and c[0] == size: v = c[1]
        else: v = self.load_mixed(st, R, p.o, size, ty)
        return self.as_type(v, ty)
    def as_type(self, v, ty):
        if ty.k == 'int':
            if isinstance(v, int): return v & MASK[ty.w]
            if ty.w == 1 and z3.is_expr(v) and z3.is_bv(v): return v == 1 if v.size() == 1 else simp(z3.Extract(0, 0, v) == 1)
            if z3.is_expr(v) and z3.is_bool(v): return v if ty.w == 1 else to_bv(v, ty.w)
            if z3.is_expr(v) and z3.is_bv(v) and v.size() != ty.w:
                return simp(z3.Extract(ty.w - 1, 0, v)) if v.size() > ty.w else simp(z3.ZeroExt(ty.w - v.size(), v))
            return v
        if ty.k == 'ptr' and isinstance(v, int):
            return NULL if v == 0 else Tok(v)
        return v
    def load_mixed(self, st, R, o, size, ty):
        # assemble from smaller int cells / extract from larger
        for b, (n, v) in list(R.cells.items()):
            if b <= o and o + size <= b + n:
                if isinstance(v, int): return (v >> (8 * (o - b))) & MASK[8 * size]
                if isinstance(v, Undef): return UNDEF
                if isinstance(v, Null): return 0
                if z3.is_expr(v) and z3.is_bv(v):
                    lo = 8 * (o - b); return simp(z3.Extract(lo + 8 * size - 1, lo, to_bv(v, 8 * n) if v.size() >= 8 * n else z3.ZeroExt(8 * n - v.size(), v)))
                if z3.is_expr(v) and z3.is_bool(v) and b == o: return v
                raise ToolLimit('partial read of %r in %s+%d' % (v, R.label, o))
        parts = sorted((b, n, v) for b, (n, v) in [(k, x) for k, x in R.cells.items()] if b < o + size and b + n > o) if False else sorted([(b, c[0]) for b, c in R.cells.items() if b < o + size and b + c[0] > o])
        if not parts:
            if R.lazy:
                v = R.lazy(self, st, R, o, size, ty)
                if v is not None:
                    st.reg(R.id).cells[o] = (size, v); return v
            return UNDEF
        acc = None; pos = o
        for b, n in parts:
            v = R.cells[b][1]
            if b < pos: raise ToolLimit('overlapping read')
            if b > pos: v0 = UNDEF; return UNDEF if ty.k != 'int' else self._pad(R, parts, o, size)
            if isinstance(v, Undef): return UNDEF
            if not (isinstance(v, int) or z3.is_expr(v)): raise ToolLimit('mixed read over %r' % v)
            bv = to_bv(v, 8 * n)
            if bv.size() < 8 * n: bv = z3.ZeroExt(8 * n - bv.size(), bv)
            acc = bv if acc is None else z3.Concat(bv, acc); pos += n
        if pos < o + size: acc = z3.ZeroExt(8 * (o + size - pos), acc)  # padding bytes
        return simp(acc)
    def _pad(self, R, parts, o, size):
        acc = None; pos = o
        for b, n in parts:
            v = R.cells[b][1]
            if isinstance(v, Undef) or not (isinstance(v, int) or z3.is_expr(v)): return UNDEF
            if b > pos:
                z = z3.BitVecVal(0, 8 * (b - pos)); acc = z if acc is None else z3.Concat(z, acc); pos = b
            bv = to_bv(v, 8 * n)
            if bv.size() < 8 * n: bv = z3.ZeroExt(8 * n - bv.size(), bv)
            acc = bv if acc is None else z3.Concat(bv, acc); pos += n
        if pos < o + size: acc = z3.ZeroExt(8 * (o + size - pos), acc)
        return simp(acc)
    def load_agg(self, st, p, ty):
        if ty.k == 'struct': return [self.load(st, p.add(ty.offs[i]), t) for i, t in enumerate(ty.elems)]
        return [self.load(st, p.add(i * ty.elem.size), ty.elem) for i in range(ty.n)]
    def store(self, st, p, v, ty):
        if ty.k == 'struct':
            for i, t in enumerate(ty.elems): self.store(st, p.add(ty.offs[i]), v[i] if isinstance(v, list) else (UNDEF if isinstance(v, Undef) else self.zero(t)), t)
            return
        if ty.k == 'array':
            for i in range(ty.n): self.store(st, p.add(i * ty.elem.size), v[i] if isinstance(v, list) else UNDEF, ty.elem)
            return
        size = ty.store or ty.size
        R = self.access_ok(st, p, size, 'write')
        h = R.meta.get('onwrite')
        if h: h(self, st, p, size, v)
        if R.kind == 'indexed':
            o = p.o
            if R.esize and (o < 0 or o >= R.esize): p = Ptr(p.r, simp(zi(p.i) + o // R.esize), o % R.esize)
            self.istore(st, R, p, size, v, ty); return
        self.put(st, p.r, p.o, size, v)
    def put(self, st, r, o, size, v):
        R = st.reg(r)
        ov = [b for b, c in R.cells.items() if b < o + size and b + c[0] > o and not (b == o and c[0] == size)]
        for b in ov:
            n, old = R.cells.pop(b)
            if b < o:
                if isinstance(old, int): R.cells[b] = (o - b, old & MASK[8 * (o - b)])
                elif z3.is_expr(old) and z3.is_bv(old): R.cells[b] = (o - b, simp(z3.Extract(8 * (o - b) - 1, 0, old)))
            if b + n > o + size:
                sh = o + size - b
                if isinstance(old, int): R.cells[o + size] = (n - sh, old >> (8 * sh))
                elif isinstance(old, Null): R.cells[o + size] = (n - sh, 0)
                elif z3.is_expr(old) and z3.is_bv(old): R.cells[o + size] = (n - sh, simp(z3.Extract(8 * n - 1, 8 * sh, old)))
        R.cells[o] = (size, v)
    def zero(self, ty):
        if ty.k == 'ptr': return NULL
        if ty.k == 'struct': return [self.zero(t) for t in ty.elems]
        if ty.k == 'array': return [self.zero(ty.elem) for _ in range(ty.n)]
        return 0
    # indexed regions
    def iload(self, st, R, p, size, ty):
        key = (p.o, size)
        cod = R.codec.get(p.o)
        if key not in R.cells:
            lz = R.lazy
            if lz: lz(self, st, R.id, key, ty); R = st.ro(R.id)
            if key not in R.cells: raise ToolLimit('no field %s in indexed region %s' % (key, R.label))
        a = R.cells[key]
        t = simp(z3.Select(a, zi(p.i)))
        return cod.dec(self, st, t) if cod else t
    def istore(self, st, R, p, size, v, ty):
        key = (p.o, size); cod = R.codec.get(p.o)
        W = st.reg(R.id)
        if key not in W.cells:
            if W.lazy: W.lazy(self, st, R.id, key, ty); W = st.reg(R.id)
            if key not in W.cells: raise ToolLimit('no field %s in indexed region %s' % (key, R.label))
        a = W.cells[key]
        t = cod.enc(self, st, v) if cod else v
        if not cod:
            s = a.sort().range()
            if z3.is_bv_sort(s): t = to_bv(t, s.size())
            elif s == z3.BoolSort(): t = to_bool(t)
            elif s == z3.IntSort(): t = zi(t)
        W.cells[key] = z3.Store(a, zi(p.i), t)
    def memcpy(self, st, d, s, n):
        if n == 0: return
        RS = self.access_ok(st, s, n, 'read'); RD = self.access_ok(st, d, n, 'write')
        if RS.kind == 'scalar' and RD.kind == 'scalar':
            items = [(b, c) for b, c in RS.cells.items() if b < s.o + n and b + c[0] > s.o]
            out = []
            for b, (k, v) in items:
                lo = max(b, s.o); hi = min(b + k, s.o + n)
                if lo != b or hi != b + k:
                    v = self.load_mixed(st, RS, lo, hi - lo, _Int(8 * (hi - lo)))
                out.append((d.o + lo - s.o, hi - lo, v))
            W = st.reg(d.r)
            if RS.lazy and not items: raise ToolLimit('memcpy from lazy region')
            self.put(st, d.r, d.o, n, UNDEF); W = st.reg(d.r); del W.cells[d.o]
            for o, k, v in out: W.cells[o] = (k, v)
            return
        f = self.hooks.get('memcpy')
        if f and f(self, st, d, s, n): return
        # field-wise between indexed and scalar
        if RS.kind == 'indexed':
            for (o, k) in [x for x in RS.cells if s.o <= x[0] and x[0] + x[1] <= s.o + n]:
                v = self.iload(st, RS, Ptr(s.r, s.i, o), k, None)
                if RD.kind == 'indexed': self.istore(st, st.ro(d.r), Ptr(d.r, d.i, d.o + o - s.o), k, v, None)
                else: self.put(st, d.r, d.o + o - s.o, k, v)
            return
        for (o, k) in [x for x in RD.cells if d.o <= x[0] and x[0] + x[1] <= d.o + n]:
            v = RS.cells.get(s.o + o - d.o)
            if v is None or v[0] != k: raise ToolLimit('memcpy into indexed region: layout')
            self.istore(st, st.ro(d.r), Ptr(d.r, d.i, o), k, v[1], None)

    # ---------------------------------------------------------------- values
    def val(self, st, o):
        k = o[0]
        if k == 'r': return st.fr.regs[o[1]]
        if k == 'int': return o[1]
        if k == 'null': return NULL
        if k == 'fn': return Fn(o[1])
        if k == 'gv': return self.global_ptr(st, o[1])
        if k == 'undef': return UNDEF
        if k == 'zero': return self.zero(o[1])
        if k == 'cegep':
            base = self.val(st, o[2][0]); idx = [self.val(st, x) for x in o[2][1:]]
            return self.gep(st, base, o[1], idx)
        if k == 'ce':
            if o[1] == 'ptrtoint' : return self.val(st, o[2][0])
            if o[1] == 'inttoptr': return Tok(self.val(st, o[2][0]))
            raise ToolLimit('constant expr ' + str(o[1]))
        if k == 'agg': return [self.val(st, x) for x in o[2]]
        if k == 'fp': return ('fp', o[1])
        raise ToolLimit('operand %s' % (o,))
    def global_ptr(self, st, name):
        g = st.g.setdefault('$globals', {})
        if name in g: return Ptr(g[name])
        ty, init, const = self.mod.global_init(name)
        r = self.new_region(st, ty.size, '@' + name); g[name] = r
        R = st.mem[r]; R.meta['global'] = name
        if init is not None:
            self.store(st, Ptr(r), self.val(st, init), ty)
        else:
            h = self.hooks.get('extern_global')
            if h: h(self, st, name, r)
        return Ptr(r)
    def gep(self, st, base, ty, idx):
        """all-constant-index gep; idx python ints (signed)"""
        if isinstance(base, Null):
            off = self.gep_off(ty, idx)
            if off == 0: return NULL
            return Tok(off)
        off = self.gep_off(ty, idx)
        if isinstance(base, Ptr):
            p = base.add(off); R = st.mem[base.r]
            if R.kind == 'indexed' and R.meta.get('norm') and not 0 <= p.o < R.esize: p = Ptr(p.r, simp(zi(p.i) + p.o // R.esize), p.o % R.esize)
            sub = st.mem[base.r].meta.get('subobj')
            if sub:
                for (lo, hi), (r, i) in sub.items():
                    if lo <= p.o < hi: return Ptr(r, i, p.o - lo)
            return p
        if isinstance(base, Tok):
            if off == 0: return base
            if isinstance(base.t, int): return Tok(base.t + off)
            raise ToolLimit('gep on token')
        if isinstance(base, Undef): return UNDEF
        raise ToolLimit('gep on %r' % (base,))
    def gep_off(self, ty, idx):
        off = sx(idx[0], 64) * (ty.size or 0)
        t = ty
        for i in idx[1:]:
            if t.k == 'struct': off += t.offs[i]; t = t.elems[i]
            elif t.k == 'array': off += sx(i, 64) * t.elem.size; t = t.elem
            else: raise ToolLimit('gep into ' + t.k)
        return off

    # ---------------------------------------------------------------- run
    def contract(self, match, handler, label=None, trusted=False):
        self.contracts.append((match, handler, label, trusted))
        self.cc.clear()
    def find_contract(self, name):
        if name in self.cc: return self.cc[name]
        f = self.mod.funcs.get(name); dem = f.dem if f else name
        r = None
        for m, h, l, tr in reversed(self.contracts):
            ok = (m == name or m == dem or (m[-1:] == '*' and not m.endswith('operator*') and dem.startswith(m[:-1]))) if isinstance(m, str) else (m.search(dem) or m.search(name)) if hasattr(m, 'search') else m(name, dem)
            if ok: r = (h, l or dem, tr); break
        self.cc[name] = r
        return r
    def start(self, st, fn, args):
        f = self.mod.funcs[fn] if isinstance(fn, str) else fn
        f.body()
        fr = Frame(f); fr.blk = f.entry
        for p, a in zip(f.params, args): fr.regs[p] = a
        st.frames.append(fr)
    def verify(self, name, st, fn, args, post, throws=None, cover=True):
        """run fn from st; post(ex, st, retval) issues checks at normal exits; throws(ex, st, exc) at exceptional
        exits (None = must not throw)."""
        self.cur = name
        f = self.mod.funcs[fn] if isinstance(fn, str) else fn
        self.under_contract.add(name)
        if not self.feasible(st): raise ToolLimit('vacuous precondition: ' + name)
        self.start(st, f, args)
        nout = 0; covered = False
        try:
            for oc in self.run([st]):
                nout += 1
                if oc.kind == 'ret':
                    self.cur = name
                    if not covered and self.feasible(oc.st): covered = True
                    post(self, oc.st, oc.val)
                elif oc.kind == 'throw':
                    self.cur = name
                    if throws: covered = covered or self.feasible(oc.st); throws(self, oc.st, oc.val)
                    else: self.check(oc.st, False, 'no exception may escape (%r)' % (oc.val,))
        except ToolLimit as e:
            self.limits.append(name + ' :: ' + str(e)); return
        if cover and not covered and not any(v.fn == name for v in self.violations):
            self.limits.append(name + ' :: vacuous: no feasible exit')
        self.obl.setdefault(name + ' :: cover: a feasible execution reaches an exit', _cov(name))
    def run(self, work):
        """generator of Outcomes"""
        n = 0
        while work:
            st = work.pop()
            try:
                r = self.advance(st)
            except Infeasible:
                continue
            for x in r:
                if isinstance(x, Outcome):
                    n += 1
                    if n > self.maxpaths: raise ToolLimit('too many paths')
                    yield x
                else: work.append(x)
            if self.deadline and time.time() > self.deadline: raise ToolLimit('time budget exhausted')
    def advance(self, st):
        while True:
            fr = st.fr
            ins = fr.fn._blocks[fr.blk][fr.ip]
            r = self.step(st, fr, ins)
            self.stepcount += 1
            if r is not None: return r
    def setr(self, st, ins, v): st.fr.regs[ins.id] = v; st.fr.ip += 1
    def goto(self, st, fr, b):
        """transfer within frame, handles phis and loops. returns None or list"""
        prev = fr.blk
        fr.prev = prev; fr.blk = b; fr.ip = 0
        blk = fr.fn._blocks[b]
        vals = []
        for i in blk:
            if i.op != 'phi': break
            vals.append((i, self.val(st, i.x[prev])))
        for i, v in vals: fr.regs[i.id] = v
        fr.ip = len(vals)
        loops = fr.fn.loops()
        # leaving loops
        for h in list(fr.loops):
            if b not in loops[h]:
                if getattr(fr.loops[h], 'disc', False): return []
                del fr.loops[h]
        if b in loops:
            if prev in loops[b] and b in fr.loops:
                L = fr.loops[b]
                if isinstance(L, int):
                    if L >= self.unroll: raise ToolLimit('loop without invariant in %s' % fr.fn.dem)
                    fr.loops[b] = L + 1
                else:
                    return None if L.backedge(self, st) == 'continue' else []
            else:
                for ls in self.loopspecs:
                    L = ls(self, st, fr.fn, b)
                    if L is not None:
                        fr.loops[b] = L
                        return L.enter(self, st)
                fr.loops[b] = 0
        return None
    def do_return(self, st, v):
        fr = st.frames.pop()
        if any(getattr(x, 'disc', False) for x in fr.loops.values()): return []
        for r in fr.allocas:
            R = st.reg(r); R.alive = False
        if fr.onret:
            q = fr.onret(self, st, v)
            if q is not None: v = q[0]
        if not st.frames: return [Outcome(st, 'ret', v)]
        ins = fr.call; c = st.fr
        if ins == 'stop': return [Outcome(st, 'ret', v)]
        c.regs[ins.id] = v
        if ins.op == 'invoke': return self.goto(st, c, ins.succs[0])
        c.ip += 1
        return None
    def do_throw(self, st, e):
        """unwind from current frame's current instruction (a call/invoke or resume)"""
        while st.frames:
            fr = st.fr
            ins = fr.fn._blocks[fr.blk][fr.ip]
            if ins.op == 'invoke':
                st.exc = e
                return self.goto(st, fr, ins.succs[1])
            fr = st.frames.pop()
            if any(getattr(x, 'disc', False) for x in fr.loops.values()): return []
            for r in fr.allocas: st.reg(r).alive = False
            if fr.call == 'stop': break
        return [Outcome(st, 'throw', e)]
    def apply(self, st, ins, res):
        """res: Ret/Throw or list of (state, Ret/Throw)"""
        if isinstance(res, (Ret, Throw)): res = [(st, res)]
        out = []; cont = False
        for s, r in res:
            if isinstance(r, Ret):
                s.fr.regs[ins.id] = r.v
                if ins.op == 'invoke': x = self.goto(s, s.fr, ins.succs[0])
                else: s.fr.ip += 1; x = None
            elif isinstance(r, Throw): x = self.do_throw(s, r.e)
            elif r == 'inlined': x = None
            if x is None:
                if s is st and len(res) == 1: return None
                out.append(s)
            else: out.extend(x)
        return out
    def call(self, st, fr, ins):
        callee = self.val(st, ins.x) if ins.x[0] != 'other' else None
        args = [self.val(st, o) if o[0] not in ('md',) else None for o in ins.ops]
        if isinstance(callee, Fn): return self.call_fn(st, ins, callee.name, args)
        h = self.hooks.get('indirect')
        if h:
            r = h(self, st, callee, args, ins)
            if r is not None:
                if isinstance(r, Fn): return self.call_fn(st, ins, r.name, args)
                return self.apply(st, ins, r)
        if isinstance(callee, Null):
            self.check(st, False, 'memory-safety: call through null function pointer'); raise Infeasible()
        raise ToolLimit('indirect call through %r' % (callee,))
    def call_fn(self, st, ins, name, args):
        c = self.find_contract(name)
        if c:
            r = c[0](self, st, args, ins)
            if r is not NotImplemented:
                if c[2]: self.trusted.add(c[1])
                return self.apply(st, ins, r)
        b = BUILTIN.get(name)
        if b is None and name.startswith('llvm.'):
            for k, v in BUILTIN.items():
                if k.endswith('.*') and name.startswith(k[:-2]): b = v; break
        if b:
            return self.apply(st, ins, b(self, st, args, ins))
        f = self.mod.funcs.get(name)
        if f is None or f.decl:
            h = self.hooks.get('undefined')
            if h:
                r = h(self, st, f.dem if f else name, args, ins)
                if r is not None: return self.apply(st, ins, r)
            raise ToolLimit('no contract and no body: %s' % (f.dem if f else name))
        if len(st.frames) > 200: raise ToolLimit('recursion: ' + f.dem)
        self.inlined.add(f.dem)
        f.body()
        n = Frame(f); n.blk = f.entry; n.call = ins
        for p, a in zip(f.params, args): n.regs[p] = a
        st.frames.append(n)
        return None
    def invoke_fn(self, st, name, args):
        """run an IR function to completion from a contract handler; list of (state, Ret|Throw)"""
        f = self.mod.funcs[name]; f.body()
        n = Frame(f); n.blk = f.entry; n.call = 'stop'
        for p, a in zip(f.params, args): n.regs[p] = a
        st.frames.append(n)
        out = []
        for oc in self.run([st]):
            out.append((oc.st, Ret(oc.val) if oc.kind == 'ret' else Throw(oc.val)))
        return out

    def step(self, st, fr, ins):
        op = ins.op; self.cur_state = st
        if op == 'load':
            p = self.val(st, ins.ops[0])
            h = self.hooks.get('load')
            if h:
                r = h(self, st, p, ins.ty, ins)
                if r is not None: return self.apply(st, ins, r)
            self.setr(st, ins, self.load(st, p, ins.ty)); return None
        if op == 'store':
            v = self.val(st, ins.ops[0]); p = self.val(st, ins.ops[1])
            self.store(st, p, v, ins.extra); fr.ip += 1; return None
        if op == 'alloca':
            n = simp(self.val(st, ins.ops[0]))
            if not isinstance(n, int): raise ToolLimit('variable alloca')
            r = self.new_region(st, ins.x.size * n, 'local'); fr.allocas.append(r)
            self.setr(st, ins, Ptr(r)); return None
        if op in ('call', 'invoke'): return self.call(st, fr, ins)
        if op == 'gep':
            base = self.val(st, ins.ops[0]); idx = [(sx(o[1], o[2]) & MASK[64]) if o[0] == 'int' else simp(self.val(st, o)) for o in ins.ops[1:]]
            for k, i in enumerate(idx):
                if not isinstance(i, int):
                    if isinstance(i, Undef): raise ToolLimit('gep undef index')
                    # symbolic index on an indexed region with matching stride
                    if k == 0 and len(idx) == 1 and isinstance(base, Ptr) and st.mem[base.r].kind == 'indexed' and st.mem[base.r].esize == ins.x.size:
                        self.setr(st, ins, Ptr(base.r, simp(zi(base.i) + (i if z3.is_int(i) else self.hooks['index'](self, st, i) if 'index' in self.hooks else bv_index(i))), base.o)); return None
                    h = self.hooks.get('gep')
                    if h:
                        r = h(self, st, base, ins, idx)
                        if r is not None: self.setr(st, ins, r); return None
                    alts = self.concretize(st, i); out = []
                    if len(alts) == 1 and alts[0][0] is st:
                        idx[k] = alts[0][1]; continue
                    # re-execute this instruction in each fork: replace operand register
                    for s, v in alts:
                        if ins.ops[1 + k][0] == 'r': s.fr.regs[ins.ops[1 + k][1]] = v
                        out.append(s)
                    return out
            self.setr(st, ins, self.gep(st, base, ins.x, idx)); return None
        if op == 'br':
            if len(ins.succs) == 1: return self.goto(st, fr, ins.succs[0])
            c = self.val(st, ins.ops[0])
            if isinstance(c, Undef): raise ToolLimit('branch on undef in ' + fr.fn.dem)
            alts = self.choose(st, c); 
            if not alts: raise Infeasible()
            if len(alts) == 1: return self.goto(alts[0][0], fr, ins.succs[0 if alts[0][1] else 1])
            out = []
            for s, b in alts:
                try: x = self.goto(s, s.fr, ins.succs[0 if b else 1])
                except Infeasible: continue
                if x is None: out.append(s)
                else: out.extend(x)
            return out
        if op == 'switch':
            v = simp(self.val(st, ins.ops[0]))
            if isinstance(v, int):
                for k, b in ins.x:
                    if k == v: return self.goto(st, fr, b)
                return self.goto(st, fr, ins.extra)
            if isinstance(v, Undef): raise ToolLimit('switch on undef')
            out = []
            cases = [(v == k, b) for k, b in ins.x] + [(z3.And([v != k for k, _ in ins.x]), ins.extra)]
            for c, b in cases:
                if self.feasible(st, c):
                    s = st.fork(); s.pc.append(c); x = self.goto(s, s.fr, b)
                    if x is None: out.append(s)
                    else: out.extend(x)
            return out
        if op == 'ret':
            v = self.val(st, ins.ops[0]) if ins.ops else None
            return self.do_return(st, v)
        if op == 'icmp':
            a = self.val(st, ins.ops[0]); b = self.val(st, ins.ops[1])
            self.setr(st, ins, self.icmp(st, ins.x, a, b, ins.extra)); return None
        if op in BINOPS:
            a = self.val(st, ins.ops[0]); b = self.val(st, ins.ops[1])
            self.setr(st, ins, self.binop(op, a, b, ins.ty.w)); return None
        if op in ('zext', 'sext', 'trunc'):
            self.setr(st, ins, conv(op, self.val(st, ins.ops[0]), ins.extra.w, ins.ty.w)); return None
        if op == 'select':
            c = self.val(st, ins.ops[0]); a = self.val(st, ins.ops[1]); b = self.val(st, ins.ops[2])
            c = simp(c)
            if isinstance(c, int): self.setr(st, ins, a if c & 1 else b); return None
            if isinstance(c, Undef): raise ToolLimit('select undef')
            if ins.ty.k == 'int' and all(isinstance(x, int) or z3.is_expr(x) for x in (a, b)):
                w = ins.ty.w
                self.setr(st, ins, simp(z3.If(to_bool(c), to_bool(a), to_bool(b)) if w == 1 else z3.If(to_bool(c), to_bv(a, w), to_bv(b, w)))); return None
            out = []
            for s, t in self.choose(st, c):
                s.fr.regs[ins.id] = a if t else b; s.fr.ip += 1; out.append(s)
            if len(out) == 1 and out[0] is st: return None
            return out
        if op == 'extractvalue':
            v = self.val(st, ins.ops[0])
            for i in ins.x: v = v[i] if isinstance(v, list) else v
            self.setr(st, ins, v); return None
        if op == 'insertvalue':
            a = self.val(st, ins.ops[0]); v = self.val(st, ins.ops[1])
            self.setr(st, ins, insval(a, v, ins.x, ins.ty)); return None
        if op == 'landingpad': return self.landingpad(st, fr, ins)
        if op == 'resume':
            e = st.exc; return self.do_throw_resume(st, e)
        if op == 'unreachable':
            h = self.hooks.get('unreachable')
            if h: return h(self, st)
            self.check(st, False, 'undefined behaviour: unreachable code reached in ' + short(fr.fn.dem)); raise Infeasible()
        if op == 'atomicrmw':
            p = self.val(st, ins.ops[0]); v = self.val(st, ins.ops[1])
            h = self.hooks.get('atomic')
            if h:
                r = h(self, st, 'rmw-' + ins.x, p, [v], ins.extra, ins)
                if r is not None: return self.apply(st, ins, r)
            old = self.load(st, p, ins.extra)
            new = v if ins.x == 'xchg' else self.binop(ins.x, old, v, ins.extra.w)
            self.store(st, p, new, ins.extra); self.setr(st, ins, old); return None
        if op == 'cmpxchg':
            p, e, n = [self.val(st, o) for o in ins.ops[:3]]
            ty = self.mod.ty if False else None
            t = ins.ty.elems[0]
            h = self.hooks.get('atomic')
            if h:
                r = h(self, st, 'cas', p, [e, n], t, ins)
                if r is not None: return self.apply(st, ins, r)
            old = self.load(st, p, t)
            eq = self.icmp(st, 'eq', old, e, t); out = []
            for s, b in self.choose(st, eq):
                if b: self.store(s, p, n, t)
                s.fr.regs[ins.id] = [old, int(b)]; s.fr.ip += 1; out.append(s)
            return out
        if op == 'fence': fr.ip += 1; return None
        if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            v = self.val(st, ins.ops[0])
            if op == 'inttoptr' and isinstance(v, int): v = NULL if v == 0 else Tok(v)
            self.setr(st, ins, v); return None
        if op in ('sitofp','uitofp','fptosi','fptoui','fadd','fsub','fmul','fdiv','fpext','fptrunc','fcmp','fneg'):
            h = self.hooks.get('float')
            if h:
                r = h(self, st, ins, [self.val(st, o) for o in ins.ops])
                if r is not None: self.setr(st, ins, r); return None
        raise ToolLimit('instruction %s in %s' % (ins.text(), fr.fn.dem))

    def do_throw_resume(self, st, e):
        fr = st.frames.pop()
        if any(getattr(x, 'disc', False) for x in fr.loops.values()): return []
        for r in fr.allocas: st.reg(r).alive = False
        if fr.call == 'stop': return [Outcome(st, 'throw', e)]
        if not st.frames: return [Outcome(st, 'throw', e)]
        return self.do_throw(st, e)
    def typeid(self, name):
        if name not in self.typeids: self.typeids[name] = len(self.typeids) + 1
        return self.typeids[name]
    def landingpad(self, st, fr, ins):
        e = st.exc; out = []
        def fin(s, sel):
            s.fr.regs[ins.id] = [('exc', e), sel]; s.fr.ip += 1
        cur = st
        for c in ins.x:
            if c[0] == 'null':
                fin(cur, 900); out.append(cur); cur = None; break
            if c[0] == 'gv':
                ti = c[1]
                m = self.exc_match(e, ti)
                if m is True: fin(cur, self.typeid(ti)); out.append(cur); cur = None; break
                if m is None:
                    s2 = cur.fork(); s2.path.append('exception matches ' + ti)
                    fin(s2, self.typeid(ti)); out.append(s2)
            elif c[0] in ('agg', 'zero', 'undef'):   # filter
                raise ToolLimit('exception filter')
        if cur is not None:
            if ins.extra: fin(cur, 0); out.append(cur)
            else:
                # not caught here: continue unwinding
                f2 = cur.frames.pop()
                for r in f2.allocas: cur.reg(r).alive = False
                if not cur.frames or f2.call == 'stop': out.append(Outcome(cur, 'throw', e))
                else:
                    x = self.do_throw(cur, e)
                    if x is None: out.append(cur)
                    else: out.extend(x)
        if len(out) == 1 and out[0] is st: return None
        return out
    def exc_match(self, e, ti):
        if e.ti is None: return None
        if e.ti == ti: return True
        h = self.hooks.get('exc_match')
        if h: return h(e, ti)
        return False

    def ptr_eq(self, st, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): raise ToolLimit('compare undef pointer')
        if isinstance(a, Null) and isinstance(b, Null): return True
        if isinstance(a, int) and isinstance(b, int): return a == b
        if isinstance(a, int): a = NULL if a == 0 else Tok(a)
        if isinstance(b, int): b = NULL if b == 0 else Tok(b)
        if isinstance(a, Tok) or isinstance(b, Tok):
            if isinstance(a, Tok) and isinstance(b, Tok): 
                if isinstance(a.t, int) and isinstance(b.t, int): return a.t == b.t
                return zi(a.t) == zi(b.t)
            t, o = (a, b) if isinstance(a, Tok) else (b, a)
            if isinstance(o, Null): return zi(t.t) == 0
            return False
        if isinstance(a, Fn) or isinstance(b, Fn): return a == b if isinstance(a, Fn) else False
        if isinstance(a, Null): a, b = b, a
        if isinstance(b, Null):
            R = st.mem[a.r]
            if a.o == 0 and R.meta.get('nullable'): return zi(a.i) == 0
            return False
        if a.r != b.r: return False
        if a.o != b.o:
            R = st.mem[a.r]
            if R.kind == 'scalar': return False
            if R.esize is None: return False
            # normalise
            da, ma = divmod(a.o, R.esize); db, mb = divmod(b.o, R.esize)
            if ma != mb: return False
            return simp(zi(a.i) + da == zi(b.i) + db)
        if a.i is None and b.i is None: return True
        return simp(zi(a.i) == zi(b.i))
    def icmp(self, st, pred, a, b, ty):
        isp = lambda x: isinstance(x, (Ptr, Null, Tok, Fn)) or (isinstance(x, tuple) and x[0] == 'exc')
        if ty.k == 'ptr' or isp(a) or isp(b):
            if isinstance(a, tuple) or isinstance(b, tuple):
                eq = False
            elif pred in ('eq', 'ne'): eq = self.ptr_eq(st, a, b)
            else:
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                    if a.i is None: return int({'ult': a.o < b.o, 'ule': a.o <= b.o, 'ugt': a.o > b.o, 'uge': a.o >= b.o}[pred])
                raise ToolLimit('pointer ordering')
            if pred == 'ne': return int(not eq) if isinstance(eq, (bool, int)) else simp(z3.Not(eq))
            return int(eq) if isinstance(eq, (bool, int)) else eq
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        w = ty.w
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's': a, b = sx(a, w), sx(b, w)
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred if len(pred) == 2 else pred[1:]])
        if w == 1:
            x, y = to_bool(a), to_bool(b)
            if pred == 'eq': return simp(x == y)
            if pred == 'ne': return simp(x != y)
        if isint(a) or isint(b):   # word known to hold a small mathematical integer (container sizes)
            r = icmp_int(pred, a, b, w)
            if r is not None: return simp(r)
        a, b = to_bv(a, w), to_bv(b, w)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
             'sgt': lambda: a > b, 'sge': lambda: a >= b, 'slt': lambda: a < b, 'sle': lambda: a <= b}[pred]()
        return simp(r)
    def binop(self, op, a, b, w):
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        if isinstance(a, Null): a = 0
        if isinstance(b, Null): b = 0
        if isinstance(a, Ptr) and isinstance(b, int) and b == 0 and op in ('sub', 'add'): return a
        if isinstance(a, int) and isinstance(b, int):
            m = MASK[w]
            if op in ('sdiv', 'srem'):
                x, y = sx(a, w), sx(b, w)
                if y == 0: raise ToolLimit('division by zero')
                q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
                return (q if op == 'sdiv' else x - q * y) & m
            if op in ('udiv', 'urem') and b == 0: raise ToolLimit('division by zero')
            r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                 'shl': lambda: a << b, 'lshr': lambda: (a & m) >> b, 'ashr': lambda: sx(a, w) >> b, 'udiv': lambda: a // b, 'urem': lambda: a % b}[op]()
            return r & m
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == 'sub':
            if a.r == b.r:
                if a.i is None: return (a.o - b.o) & MASK[64]
                es = 1
                es = self.esizes.get(a.r) or self.cur_state.mem[a.r].esize or 1
                return simp((zi(a.i) - zi(b.i)) * es + (a.o - b.o))
            raise ToolLimit('pointer difference')
        if isinstance(a, Ptr) and isinstance(b, int) and op in ('add', 'sub'):
            return a.add(sx(b, 64) if op == 'add' else -sx(b, 64))
        if isinstance(a, Ptr) and isinstance(b, int) and op == 'and':
            # alignment masks
            return 0 if b < 8 else a
        if op == 'and' and isinstance(a, Fn) and isinstance(b, int) and b in (1, 0): return 0     # functions are at least 2-aligned (Itanium member pointers)
        if not all(isinstance(x, int) or z3.is_expr(x) for x in (a, b)): raise ToolLimit('%s on %r,%r' % (op, a, b))
        if isint(a) or isint(b):
            r = binop_int(op, a, b, w)
            if r is not None: return simp(r)
        if w == 1:
            x, y = to_bool(a), to_bool(b)
            if op == 'and': return simp(z3.And(x, y))
            if op == 'or': return simp(z3.Or(x, y))
            if op in ('xor', 'add', 'sub'): return simp(z3.Xor(x, y))
        a, b = to_bv(a, w), to_bv(b, w)
        if op == 'urem' and self.abstract_urem and not z3.is_bv_value(z3.simplify(b)):     # abstracted to: some value below the divisor
            t = urem(a, b); self.cur_state.assume(z3.Or(b == 0, z3.ULT(t, b))); return t
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
             'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b, 'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b), 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]()
        return simp(r)
    def _esz(self, r): return self.esizes.get(r, 1)
    esizes = {}
    abstract_urem = False

def small(x):
    """a zero-extended machine value as a mathematical integer (exact, signed or unsigned)"""
    t = z3.simplify(x)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0: return bv_index(x)
    return x
def isint(v): return z3.is_expr(v) and z3.is_int(v)
def icmp_int(pred, a, b, w):
    def c(x): return z3.IntVal(sx(x, w) if pred in ('eq', 'ne') or pred[0] == 's' else x) if isinstance(x, int) else small(x) if z3.is_expr(x) and z3.is_bv(x) else x
    a, b = c(a), c(b)
    if not (isint(a) and isint(b)): return None
    return {'eq': lambda: a == b, 'ne': lambda: a != b, 'ugt': lambda: a > b, 'uge': lambda: a >= b, 'ult': lambda: a < b, 'ule': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b, 'slt': lambda: a < b, 'sle': lambda: a <= b}[pred]()
def exact_div(e, k):
    """e / k for a sum of terms each with a coefficient divisible by k"""
    e = z3.simplify(e, som=True)
    def d(t):
        if z3.is_int_value(t): return z3.IntVal(t.as_long() // k) if t.as_long() % k == 0 else None
        if z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % k == 0:
            r = t.arg(1) if t.num_args() == 2 else z3.Product([t.arg(i) for i in range(1, t.num_args())]); return z3.IntVal(t.arg(0).as_long() // k) * r
        return None
    ts = [e.arg(i) for i in range(e.num_args())] if z3.is_add(e) else [e]
    q = [d(t) for t in ts]
    return None if any(x is None for x in q) else z3.Sum(q)
def binop_int(op, a, b, w):
    def c(x): return z3.IntVal(sx(x, w)) if isinstance(x, int) else small(x) if z3.is_expr(x) and z3.is_bv(x) else x
    k = b if isinstance(b, int) else None
    if k is not None and op in ('ashr', 'lshr', 'sdiv', 'udiv'):
        k = sx(k, w) if op[1] == 'd' else 1 << k
        return exact_div(a, k) if k > 1 else a if k == 1 else None
    if op == 'shl' and k is not None: return a * (1 << k)
    a, b = c(a), c(b)
    if not (isint(a) and isint(b)): return None
    if op == 'add': return a + b
    if op == 'sub': return a - b
    if op == 'mul' and (z3.is_int_value(a) or z3.is_int_value(b)): return a * b
    return None
class _Int:
    def __init__(s, w): s.k = 'int'; s.w = w; s.size = s.store = w // 8
I8, I16, I32, I64 = _Int(8), _Int(16), _Int(32), _Int(64)
class _PtrT:
    k = 'ptr'; w = 64; size = store = 8
PTR = _PtrT()

def _cov(n):
    o = Obligation(); o.name = n + ' :: cover: a feasible execution reaches an exit'; o.result = 'discharged'; o.n = 1; o.time = 0.0; o.backend = {'z3': 1}
    return o

BINOPS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}
def sx(v, w):
    v &= MASK[w]
    return v - (1 << w) if v >> (w - 1) else v
def conv(op, v, w0, w1):
    if isinstance(v, Undef): return v
    if isinstance(v, int):
        if op == 'trunc': return v & MASK[w1]
        if op == 'zext': return v & MASK[w0]
        return sx(v, w0) & MASK[w1]
    if not z3.is_expr(v): return v   # pointers
    if w0 == 1:
        b = to_bool(v)
        return z3.If(b, z3.BitVecVal(1 if op == 'zext' else MASK[w1], w1), z3.BitVecVal(0, w1))
    if op == 'trunc': 
        e = z3.Extract(w1 - 1, 0, v)
        return simp(e == 1) if w1 == 1 else simp(e)
    return simp(z3.ZeroExt(w1 - w0, v) if op == 'zext' else z3.SignExt(w1 - w0, v))
def insval(a, v, path, ty):
    if isinstance(a, Undef): a = [UNDEF] * (len(ty.elems) if ty.k == 'struct' else ty.n)
    a = list(a)
    if len(path) == 1: a[path[0]] = v
    else: a[path[0]] = insval(a[path[0]], v, path[1:], ty.elems[path[0]] if ty.k == 'struct' else ty.elem)
    return a
def short(d):
    import re
    return re.sub(r'stlab::v[0-9_]+::', '', d)[:140]

# ---------------------------------------------------------------- builtins (compiler / runtime intrinsics)
def b_memcpy(ex, st, a, ins):
    n = simp(a[2])
    if not isinstance(n, int): raise ToolLimit('memcpy of symbolic size')
    ex.memcpy(st, a[0], a[1], n); return Ret(a[0])
def b_memset(ex, st, a, ins):
    n = simp(a[2]); v = simp(a[1])
    if not isinstance(n, int) or not isinstance(v, int): raise ToolLimit('memset')
    if n == 0: return Ret(a[0])
    ex.access_ok(st, a[0], n, 'write')
    p = a[0]
    if st.mem[p.r].kind != 'scalar': raise ToolLimit('memset indexed')
    o = p.o
    if v: 
        ex.put(st, p.r, o, n, int.from_bytes(bytes([v & 255]) * n, 'little'))
    else:
        ex.put(st, p.r, o, n, UNDEF); R = st.reg(p.r); del R.cells[o]
        k = 0
        while k < n:
            c = 8 if n - k >= 8 else 4 if n - k >= 4 else 1
            R.cells[o + k] = (c, 0); k += c
    return Ret(a[0])
def b_nop(ex, st, a, ins): return Ret(None)
def b_new(ex, st, a, ins):
    h = ex.hooks.get('new')
    if h:
        r = h(ex, st, a, ins)
        if r is not None: return r
    n = simp(a[0])
    if not isinstance(n, int): raise ToolLimit('operator new of symbolic size')
    p = ex.alloc(st, n, 'heap', heap=True)
    return Ret(p)
def b_delete(ex, st, a, ins):
    p = a[0]
    if isinstance(p, Null): return Ret(None)
    h = ex.hooks.get('delete')
    if h:
        r = h(ex, st, a, ins)
        if r is not None: return r
    if not isinstance(p, Ptr): raise ToolLimit('delete %r' % (p,))
    R = st.reg(p.r)
    ok = R.alive and R.heap and p.o == 0
    ex.check(st, ok, 'memory-safety: delete of a live heap object exactly once')
    R.alive = False
    return Ret(None)
def b_terminate(ex, st, a, ins):
    h = ex.hooks.get('terminate')
    if h: return h(ex, st, a, ins)
    ex.check(st, False, 'std::terminate / abort must not be reached'); raise Infeasible()
def b_begin_catch(ex, st, a, ins):
    e = a[0][1]; st.caught.append(e)
    return Ret(e.obj if e.obj is not None else Tok(0xdead))
def b_end_catch(ex, st, a, ins):
    if st.caught: st.caught.pop()
    return Ret(None)
def b_rethrow(ex, st, a, ins):
    e = st.caught[-1]; return Throw(e)
def b_alloc_exc(ex, st, a, ins):
    n = simp(a[0]); return Ret(ex.alloc(st, n, 'exception'))
def b_throw(ex, st, a, ins):
    ti = None
    if isinstance(a[1], Ptr): ti = st.mem[a[1].r].meta.get('global')
    return Throw(Exc(('thrown', ti), ti, a[0]))
def b_typeid(ex, st, a, ins):
    p = a[0]; return Ret(ex.typeid(st.mem[p.r].meta['global']))
def b_expect(ex, st, a, ins): return Ret(a[0])
def b_assume(ex, st, a, ins): return Ret(None)
def b_umax(f):
    def g(ex, st, a, ins):
        w = ins.ty.w; x, y = a
        if isinstance(x, int) and isinstance(y, int):
            if f[0] == 's': x2, y2 = sx(x, w), sx(y, w)
            else: x2, y2 = x, y
            return Ret((max if f.endswith('max') else min)(x2, y2) & MASK[w])
        x, y = to_bv(x, w), to_bv(y, w)
        c = {'umax': lambda: z3.UGT(x, y), 'umin': lambda: z3.ULT(x, y), 'smax': lambda: x > y, 'smin': lambda: x < y}[f]()
        return Ret(simp(z3.If(c, x, y)))
    return g
BUILTIN = {
    'llvm.memcpy.*': b_memcpy, 'llvm.memmove.*': b_memcpy, 'memcpy': b_memcpy, 'memmove': b_memcpy, 'llvm.memset.*': b_memset, 'memset': b_memset,
    'llvm.lifetime.*': b_nop, 'llvm.dbg.*': b_nop, 'llvm.assume': b_assume, 'llvm.experimental.noalias.*': b_nop, 'llvm.stacksave.*': b_nop,'llvm.stackrestore.*': b_nop,
    'llvm.expect.*': b_expect, 'llvm.umax.*': b_umax('umax'), 'llvm.umin.*': b_umax('umin'), 'llvm.smax.*': b_umax('smax'), 'llvm.smin.*': b_umax('smin'),
    '_Znwm': b_new, '_Znam': b_new, '_ZdlPv': b_delete, '_ZdlPvm': b_delete, '_ZdaPv': b_delete, '_ZdaPvm': b_delete,
    '_ZSt9terminatev': b_terminate, '__clang_call_terminate': b_terminate, 'abort': b_terminate, '__assert_fail': b_terminate, '_ZSt21__glibcxx_assert_failPKciS0_S0_': b_terminate, 'llvm.trap': b_terminate,
    '__cxa_begin_catch': b_begin_catch, '__cxa_end_catch': b_end_catch, '__cxa_rethrow': b_rethrow,
    '__cxa_allocate_exception': b_alloc_exc, '__cxa_throw': b_throw, '__cxa_free_exception': b_nop, 'llvm.eh.typeid.for': b_typeid, 'llvm.eh.typeid.for.*': b_typeid,
    '__cxa_pure_virtual': b_terminate,
}
