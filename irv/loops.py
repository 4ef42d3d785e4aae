"""Loop cutting: automatic discovery of the loop's frame (what an iteration may modify), havoc, invariant."""
import copy
import z3
from .core import *

class Place:
    """a loop-carried location: ('reg', phi id) or ('mem', region, off, size) or ('arr', region, key)"""
    def __init__(s, kind, *a): s.kind = kind; s.a = a
    def key(s): return (s.kind,) + s.a
    def __repr__(s): return '%s%r' % (s.kind, s.a)
    def get(s, st, fdepth):
        if s.kind == 'reg': return st.frames[fdepth].regs.get(s.a[0])
        R = st.mem[s.a[0]]
        if s.kind == 'mem':
            c = R.cells.get(s.a[1]); return c[1] if c else UNDEF
        return R.cells[s.a[1]]
    def set(s, st, fdepth, v):
        if s.kind == 'reg': st.frames[fdepth].regs[s.a[0]] = v; return
        R = st.reg(s.a[0])
        if s.kind == 'mem': R.cells[s.a[1]] = (s.a[2], v)
        else: R.cells[s.a[1]] = v

def same(a, b):
    if a is b: return True
    if isinstance(a, (Ptr,)) and isinstance(b, Ptr):
        return a.r == b.r and a.o == b.o and same(a.i, b.i)
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, Null) and isinstance(b, Null): return True
    if isinstance(a, Undef) and isinstance(b, Undef): return True
    if isinstance(a, Fn) and isinstance(b, Fn): return a == b
    if isinstance(a, Tok) and isinstance(b, Tok): return same(a.t, b.t)
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b if type(a) == type(b) and isinstance(a, (tuple, str)) else False

class LoopCut:
    """Base: subclass and override inv(ex, st, L) -> list of (name, formula); optionally ghost_havoc, unify."""
    name = 'loop'
    def inv(self, ex, st): return []
    def ghost_havoc(self, ex, st): pass
    def assume_extra(self, ex, st): pass
    def ghost_same(self, ex, st): return True
    def havoc_value(self, ex, st, place, v, alts):
        """generic widening of a value"""
        if place.kind == 'arr':
            return z3.Const('arr!%d' % next(_fr), v.sort())
        vals = [v] + alts
        if isinstance(v, Undef): return UNDEF   # dead on entry: reading it before it is written is reported
        real = [x for x in vals if not isinstance(x, Undef)]
        if all(isinstance(x, int) or z3.is_expr(x) for x in real):
            w = None
            for x in real:
                if z3.is_expr(x) and z3.is_bv(x): w = x.size()
                elif z3.is_expr(x) and z3.is_bool(x) and place.kind == 'reg': w = w or 1
            if w == 1: return fresh('h', 'bool')
            if w is None:
                w = place.a[2] * 8 if place.kind == 'mem' else self.phiw.get(place.a[0], 64)
            if w == 1: return fresh('h', 'bool')
            return fresh('h', 'bv', w)
        ptrs = [x for x in real if isinstance(x, Ptr)]
        if ptrs and all(isinstance(x, (Ptr, Null)) for x in real):
            p = ptrs[0]
            if all(x.r == p.r for x in ptrs):
                R = st.mem[p.r]
                if p.i is not None and all(x.o == p.o for x in ptrs) and (len(ptrs) == len(real) or R.meta.get('nullable')):
                    return Ptr(p.r, fresh('h'), p.o)
                if R.esize and all((x.o - p.o) % R.esize == 0 for x in ptrs) and len(ptrs) == len(real):
                    return Ptr(p.r, fresh('h'), p.o % R.esize)
        if real and all(isinstance(x, Tok) for x in real): return Tok(fresh('tok'))
        raise ToolLimit('%s: cannot generalise loop-carried %r: %r' % (self.name, place, vals[:3]))
    # ---- protocol
    def enter(self, ex, st):
        self.depth = len(st.frames) - 1
        fr = st.fr; self.header = fr.blk; self.fn = fr.fn
        self.phiw = {i.id: (i.ty.w or 64) for i in fr.fn._blocks[fr.blk] if i.op == 'phi'}
        self.phis = [Place('reg', i.id) for i in fr.fn._blocks[fr.blk] if i.op == 'phi']
        self.entry = st.fork()
        self.widen = {}   # key -> (place, alts)
        # discovery
        for rnd in range(12):
            ch = self.discover(ex)
            if not ch: break
        else: raise ToolLimit(self.name + ': loop frame does not stabilise')
        self.bind(ex, self.entry)
        for n, c in self.inv(ex, st, self.places_of(st), first=True):
            ex.check(st, c, '%s: invariant holds on entry: %s' % (self.name, n))
        self.havoc(ex, st)
        self.hv = {k: p.get(st, self.depth) for k, (p, a) in self.widen.items()}
        for n, c in self.inv(ex, st, self.places_of(st), first=False): st.assume(c)
        self.assume_extra(ex, st)
        self.head = st.fork()
        st.fr.loops[self.header] = self
        return None
    def bind(self, ex, st): pass
    def places_of(self, st): return {k: p.get(st, self.depth) for k, (p, a) in self.widen.items()}
    def havoc(self, ex, st):
        for k, (p, alts) in self.widen.items():
            p.set(st, self.depth, self.havoc_value(ex, self.entry, p, p.get(self.entry, self.depth), alts))
        self.ghost_havoc(ex, st)
    def discover(self, ex):
        st = self.entry.fork(); self.bind(ex, self.entry); self.havoc(ex, st)
        # optional: restrict by invariants is not needed for an over-approximation
        snap = st.fork()
        D = _Disc(self); st.fr.loops[self.header] = D
        save = (ex.obl, ex.violations, ex.limits, ex.hooks.get('muted'))
        ex.obl, ex.violations, ex.limits = {k: copy.copy(o) for k, o in ex.obl.items()}, [], []
        rid0 = max(snap.mem) if snap.mem else 0
        try:
            try:
                for n, c in self.inv(ex, st, self.places_of(st), first=False): st.assume(c)
            except KeyError: pass
            self.assume_extra(ex, st)
            for oc in ex.run([st]): pass
        finally:
            ex.obl, ex.violations, ex.limits = save[:3]
        changed = False
        for e in D.ends:
            for p in self.phis:
                changed |= self.note(p, p.get(snap, self.depth), p.get(e, self.depth))
            for rid, R0 in snap.mem.items():
                R1 = e.mem[rid]
                if R1 is R0: continue
                if R1.alive != R0.alive and R0.alive:
                    raise ToolLimit(self.name + ': loop body destroys an outer object')
                keys = set(R0.cells) | set(R1.cells)
                for k in keys:
                    if R0.kind == 'indexed':
                        a, b = R0.cells.get(k), R1.cells.get(k)
                        if a is None: 
                            continue
                        if not same(a, b):
                            changed |= self.note(Place('arr', rid, k), a, b)
                    else:
                        a, b = R0.cells.get(k), R1.cells.get(k)
                        if a is None and b is not None: a = (b[0], UNDEF)
                        if b is None: b = (a[0], UNDEF)
                        if a[0] != b[0]: raise ToolLimit(self.name + ': loop changes field layout')
                        if not same(a[1], b[1]): changed |= self.note(Place('mem', rid, k, a[0]), a[1], b[1])
        return changed
    def note(self, p, a, b):
        if same(a, b): return False
        k = p.key()
        if k in self.widen:
            pl, alts = self.widen[k]
            # already widened: is b of same shape as the havoc value?
            if self.shape(a) == self.shape(b) or isinstance(a, Undef): return False
            if isinstance(b, Null) and isinstance(a, Ptr) : return False
            if isinstance(b, Undef): self.widen[k] = (pl, [UNDEF]); return False
            alts = alts + [b]
            if len(alts) > 6: raise ToolLimit(self.name + ': widening diverges')
            self.widen[k] = (pl, alts); return True
        self.widen[k] = (p, [b]); return True
    def shape(self, v):
        if isinstance(v, Ptr): return ('p', v.r, v.o % (_ES(self.entry, v) or 1 << 60))
        if isinstance(v, int) or z3.is_expr(v): return 'i'
        return type(v).__name__
    def backedge(self, ex, st):
        # frame: everything not widened is unchanged (guaranteed by discovery; re-checked)
        for n, c in self.inv(ex, st, self.places_of(st), first=False):
            ex.check(st, c, '%s: invariant preserved: %s' % (self.name, n))
        for rid, R0 in self.head.mem.items():
            R1 = st.mem[rid]
            if R1 is R0: continue
            for k in set(R0.cells) | set(R1.cells):
                if R0.kind == 'indexed':
                    if k in R0.cells and not same(R0.cells[k], R1.cells[k]) and ('arr', rid, k) not in self.widen: raise ToolLimit(self.name + ': unstable loop frame')
                else:
                    a, b = R0.cells.get(k), R1.cells.get(k)
                    if (a is None) != (b is None) or (a and not same(a[1], b[1])):
                        if ('mem', rid, k, (a or b)[0]) not in self.widen: raise ToolLimit(self.name + ': unstable loop frame (%s+%s)' % (R0.label, k))
        self.on_backedge(ex, st)
    def on_backedge(self, ex, st): pass

def _ES(st, v):
    R = st.mem.get(v.r); return R.esize if R else None

class _Disc:
    disc = True
    def __init__(s, L): s.L = L; s.ends = []
    def enter(s, ex, st): raise ToolLimit('re-entered loop in discovery')
    def backedge(s, ex, st): s.ends.append(st)
import itertools
_fr = itertools.count()

class TagLoop:
    """Loop invariant as a finite disjunction: every header state is mapped to a tag (its ghost state and how loop-carried values
    relate to it) and generalised to the most general state with that tag; each tag is explored once from that general state.
      rel(ex, st, vals): hashable description of how the loop-carried values relate to the ghost state (vals: place -> value)
      gen(ex, st, vals): replaces ghost terms by fresh ones and returns {place: value} for the places it ties to them
    Memory and phis that an iteration changes are found by exploration and widened to fresh values unless gen ties them."""
    disc = False
    def __init__(s, name='loop', rel=None, gen=None, skip=(), reset=None): s.reset = reset; s.name = name; s.rel = rel or (lambda ex, st, v: None); s.gen = gen or (lambda ex, st, v: {}); s.skip = set(skip)
    def enter(s, ex, st):
        fr = st.fr; s.header = fr.blk; s.depth = len(st.frames) - 1
        s.phis = [('phi', i.id) for i in fr.fn._blocks[fr.blk] if i.op == 'phi']; s.w = {i.id: i.ty for i in fr.fn._blocks[fr.blk] if i.op == 'phi'}
        if not hasattr(ex, '_mutable_globals'):
            ex._mutable_globals = []
            for n in ex.mod.globals:
                try:
                    if not ex.mod.global_init(n)[2]: ex._mutable_globals.append(n)
                except Exception: pass
        for n in ex._mutable_globals: ex.global_ptr(st, n)     # so that writes to them inside the loop are seen
        entry = st.fork(); s.widen = set(); s.base = set(st.mem)
        s.head0 = entry
        for rnd in range(10):
            s.seen = {}; s.new = set(); s.disc = True
            d = entry.fork(); save = (ex.obl, ex.violations, ex.limits); ex.obl, ex.violations, ex.limits = {k: copy.copy(o) for k, o in ex.obl.items()}, [], []
            try:
                if s.arrive(ex, d) == 'continue':
                    d.fr.loops[s.header] = s
                    for oc in ex.run([d]): pass
            finally: ex.obl, ex.violations, ex.limits = save
            if not s.new - s.widen: break
            s.widen |= s.new
        else: raise ToolLimit(s.name + ': loop frame does not stabilise')
        s.seen = {}; s.new = set(); s.disc = False
        if s.arrive(ex, st) != 'continue': return []
        st.fr.loops[s.header] = s; return None
    def get(s, st, p):
        if p[0] == 'phi': return st.frames[s.depth].regs.get(p[1])
        c = st.mem[p[1]].cells.get(p[2])
        if st.mem[p[1]].kind == 'indexed': return c
        return c[1] if c else UNDEF
    def put(s, st, p, v):
        if p[0] == 'phi': st.frames[s.depth].regs[p[1]] = v; return
        R = st.reg(p[1])
        if R.kind == 'indexed': R.cells[p[2]] = v
        else: R.cells[p[2]] = (p[3], v)
    def kind(s, v, st=None):
        if isinstance(v, Null): return 'null'
        if isinstance(v, Undef): return 'undef'
        if isinstance(v, Ptr): es = st.mem[v.r].esize if st is not None and v.i is not None and v.r in st.mem else None; return ('ptr', v.r if v.r in s.base else None, v.o % es if es else v.o, 'i' if v.i is not None else None)
        if isinstance(v, Tok): return 'tok'
        if isinstance(v, Fn): return ('fn', v.name)
        return 'val'
    def fresh(s, ex, p, v):
        if isinstance(v, Tok): return Tok(fresh('tok'))
        if isinstance(v, Ptr) and v.i is not None: return Ptr(v.r, fresh('idx'), v.o)
        if isinstance(v, (Null, Undef, Fn, Ptr, list, tuple)): return v
        if p[0] == 'arr': return z3.Const('arr!%d' % next(_fr), v.sort())
        if z3.is_expr(v) and z3.is_bool(v): return fresh('h', 'bool')
        if z3.is_expr(v) and z3.is_int(v): return fresh('h')
        w = s.w[p[1]].w if p[0] == 'phi' else p[3] * 8
        return fresh('h', 'bool') if w == 1 else fresh('h', 'bv', w)
    def ghost(s, st):
        def plain(v): return isinstance(v, (bool, int, str, type(None))) or isinstance(v, (tuple, list)) and all(plain(x) for x in v)
        return tuple(sorted((k, repr(v)) for k, v in st.g.items() if k not in s.skip and plain(v)))
    def arrive(s, ex, st):
        if s.reset: s.reset(ex, st)
        pl = sorted(s.widen | set(s.phis), key=repr); vals = {p: s.get(st, p) for p in pl}
        ex.in_disc = s.disc; t = (s.ghost(st), tuple(s.kind(vals[p], st) for p in pl), s.rel(ex, st, vals))
        if t in s.seen:
            head = s.seen[t]; s.cover(ex, head, st, pl); return 'stop'
        if len(s.seen) > 40: raise ToolLimit(s.name + ': too many loop states %s' % (list(s.seen)[-2:],))
        st.pc = list(s.head0.pc); ex.last_rel = t[2]; ex.last_loop = s; tied = s.gen(ex, st, vals) or {}
        for p in pl:
            if p in tied: s.put(st, p, tied[p])
            elif p in s.widen: s.put(st, p, s.fresh(ex, p, vals[p]))
        s.seen[t] = st.fork(); st.fr.loops = dict(st.fr.loops)
        return 'continue'
    def cover(s, ex, head, st, pl):
        """everything not generalised must be as in the head state of the tag"""
        def diff(p):
            if p in s.widen: return
            if s.disc: s.new.add(p)
            else: raise ToolLimit(s.name + ': unstable loop frame %r' % (p,))
        for p in s.phis:
            if not same(s.get(head, p), s.get(st, p)): diff(p)
        for rid in head.mem:
            if rid not in s.base: continue
            R0, R1 = head.mem[rid], st.mem[rid]
            if R0 is R1 or not R1.alive: continue
            for k in set(R0.cells) | set(R1.cells):
                a, b = R0.cells.get(k), R1.cells.get(k)
                if R0.kind == 'indexed':
                    if a is not None and b is not None and not same(a, b): diff(('arr', rid, k))
                else:
                    if a is None or b is None: continue
                    if a[0] != b[0]: raise ToolLimit(s.name + ': loop changes field layout')
                    if not same(a[1], b[1]): diff(('mem', rid, k, a[0]))
    def backedge(s, ex, st):
        r = s.arrive(ex, st)
        return r
