"""Contracts of stlab::task_ (proved in C05) on abstract tasks: an abstract task's first word is a ghost token (a mathematical
integer, > 0 iff it holds that callable).  Tasks built from real closures keep the real representation and run the real code."""
import z3
from .core import *
from .names import *
def first(st, p):
    if not isinstance(p, Ptr): return None
    R = st.mem.get(p.r)
    if R is None or not R.alive: return None
    if R.kind == 'indexed': return 'idx'
    c = R.cells.get(p.o)
    return c[1] if c else None
def is_tok(v): return z3.is_expr(v) and z3.is_int(v)
class Tasks:
    callables = True        # a callable whose first word is a token is an abstract callable too
    def __init__(s, ex, run, ns='stlab'):
        """run(ex, st, tok, p): the contract of invoking an abstract task (issues the property's checks)"""
        s.ex = ex; s.run = run
        def mine(f): return lambda name, dem: dem.find('task_<') >= 0 and f(cxx(dem))
        T = lambda sc: bool(sc[0]) and base(sc[0][-1]) == 'task_'
        C = lambda m, h, l: ex.contract(mine(lambda sc: T(sc) and m(sc)), h, 'task: ' + l)
        C(lambda sc: sc[1] == 'task_' and sc[2] != '', s.ctor, 'construction from a task or callable')
        C(lambda sc: sc[1] == '~task_', s.dtor, 'destruction')
        C(lambda sc: sc[1] == 'operator=', s.assign, 'assignment')
        C(lambda sc: sc[1] == 'opcall', s.call, 'invocation')
        C(lambda sc: sc[1] == 'operator bool', s.boolean, 'operator bool')
    def abstract(s, st, p):
        v = first(st, p); return v == 'idx' if isinstance(v, str) else is_tok(v)
    def tok(s, st, p): return s.ex.load(st, p, I64)
    def set(s, st, p, t):
        R = st.mem[p.r]
        if R.kind == 'indexed': s.ex.store(st, p, t, I64)
        else: s.ex.put(st, p.r, p.o, 8, zi(t))
    def gone(s, st):
        m = fresh('moved'); st.assume(m <= 0); return m
    def take(s, st, p): t = s.tok(st, p); s.set(st, p, s.gone(st)); return t
    def ctor(s, ex, st, a, ins):
        if len(a) < 2 or not isinstance(a[1], Ptr) or not s.abstract(st, a[1]): return s.ctor_mixed(ex, st, a)
        if not s.callables and 'task_<' not in cxx(s.name(ex, ins))[2].split('(')[0].split('<lambda')[0][:60]: return s.ctor_mixed(ex, st, a)
        par = cxx(s.name(ex, ins))[2]; t = s.take(st, a[1]) if par.endswith('&&') else s.tok(st, a[1])
        s.set(st, a[0], t); return Ret(None)
    def ctor_mixed(s, ex, st, a): return NotImplemented
    def name(s, ex, ins):
        n = ins.x[1] if isinstance(ins.x, tuple) else None
        v = ex.val(ex.cur_state, ins.x); f = ex.mod.funcs.get(v.name); return f.dem
    def dtor(s, ex, st, a, ins): return Ret(None) if s.abstract(st, a[0]) else NotImplemented
    def assign(s, ex, st, a, ins):
        sa = isinstance(a[1], Ptr) and s.abstract(st, a[1]); da = s.abstract(st, a[0])
        par = cxx(s.name(ex, ins))[2]
        if not sa and not da: return NotImplemented
        if isinstance(a[1], Null) or 'nullptr' in par: s.set(st, a[0], z3.IntVal(0)); return Ret(a[0])
        if not sa:
            if s.is_empty(st, a[1]): s.set(st, a[0], z3.IntVal(0)); return Ret(a[0])
            raise ToolLimit('assignment of a concrete task to an abstract one')
        if not da and not s.is_empty(st, a[0]) and first(st, a[0]) is not None: raise ToolLimit('assignment of an abstract task to a concrete one')
        if par.endswith('&&'): t = s.take(st, a[1])
        else: t = s.tok(st, a[1])
        s.set(st, a[0], t); return Ret(a[0])
    def is_empty(s, st, p):
        v = first(st, p)
        return isinstance(v, Ptr) and '_vtable' in st.mem[v.r].label and 'model' not in st.mem[v.r].label
    def call(s, ex, st, a, ins):
        if not s.abstract(st, a[0]): return NotImplemented
        t = s.tok(st, a[0]); return s.run(ex, st, t, a) or Ret(None)
    def boolean(s, ex, st, a, ins):
        if not s.abstract(st, a[0]): return NotImplemented
        return Ret(s.tok(st, a[0]) > 0)
