"""Contracts for the tuple algorithms and utilities."""
import os, z3
from irv.core import *
from irv.build import bitcode, VERIF
from irv.llvm import Module
ASSUMPTIONS = ['each template is instantiated with tuples of 0, 1, 2, 3, 5 and 8 opaque elements (the recursion is over the tuple length; contents, predicate results and indices are symbolic)', 'element copy/move/destroy and the callables are assumed contracts']
BATTERY = [dict(src='tuple.cpp', args=[], flags=['-fsanitize=address,undefined'], timeout=100)]
_M = None
def mod():
    global _M
    if _M is None: _M = Module(bitcode(os.path.join(VERIF, 'drivers/tuple.cpp')))
    return _M
def prepare(): mod()
NS = [0, 1, 2, 3, 5, 8]
def units(tier): return [(k, n) for k in ('find', 'each', 'geti', 'voidi') for n in NS] + [('apply', 0), ('misc', 0)]
def run(u, **kw):
    k, n = u; ex = Engine(mod()); s = State(); s.g['log'] = []
    nm = {'find': 'tuple_find', 'each': 'tuple_for_each', 'geti': 'get_i', 'voidi': 'void_i', 'apply': 'apply_indexed', 'misc': 'for_each_argument/move_if/copy'}[k]
    ex.cur = nm + (' (%d elements)' % n if k not in ('apply', 'misc') else ''); ex.under_contract.add(nm)
    def log(kind, res):
        def h(ex, st, a, ins):
            st.g['log'] = st.g['log'] + [(kind, a)]; i = len(st.g['log'])
            return Ret(res(i))
        return h
    P = lambda i: z3.Bool('pred%d' % i); R = lambda i: z3.BitVec('res%d' % i, 64)
    ex.contract('o_pred', log('pred', P), trusted=True); ex.contract('o_each', log('each', lambda i: None), trusted=True); ex.contract('o_get', log('get', R), trusted=True)
    ex.contract('o_args', log('args', R), trusted=True); ex.contract('o_vals', log('vals', R), trusted=True); ex.contract('o_arg', log('arg', lambda i: None), trusted=True)
    ex.hooks['extern_global'] = lambda ex, st, n, r: None
    def run1(st, fn, args):
        for s2, r in ex.invoke_fn(st, fn, args):
            if isinstance(r, Throw): ex.check(s2, False, 'no exception'); continue
            yield s2, r.v
    def at(n, i, t):
        (s2, v), = list(run1(s.fork(), 'at_%d_%d' % (n, i), [t])); return v
    eq = lambda a, b: isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r and a.o == b.o
    cov = 0
    if k in ('find', 'each', 'geti', 'voidi'):
        t = Ptr(ex.new_region(s, max(8 * n, 1), 'tuple')); s.mem[t.r].cells.update({8 * i: (8, z3.BitVec('e%d' % i, 64)) for i in range(n)}); pos = [at(n, i, t) for i in range(n)]
        img = dict(s.mem[t.r].cells); idx = z3.BitVec('index', 64); d = z3.BitVec('default', 64)
        for st, v in run1(s.fork(), '%s_%d' % (k, n), {'find': [t], 'each': [t], 'geti': [t, idx, d], 'voidi': [t, idx]}[k]):
            cov += 1; L = st.g['log']
            ex.check(st, st.mem[t.r].cells == img, 'the tuple is not modified')
            if k == 'find':
                ex.check(st, all(x[0] == 'pred' and eq(x[1][0], pos[i]) for i, x in enumerate(L)) and len(L) <= n, 'the predicate is applied once per element, in index order')
                m = len(L)
                ex.check(st, z3.And([z3.Not(P(i)) for i in range(1, m)]), 'the search goes on only while the predicate rejects')
                v = to_bv(v, 64)
                if m: ex.check(st, z3.If(P(m), v == m - 1, z3.And(m == n, v == n)), 'the index of the first accepted element, or the tuple size')
                else: ex.check(st, z3.And(n == 0, z3.UGE(v, n)), 'an index beyond the last element for an empty tuple')
            elif k == 'each': ex.check(st, len(L) == n and all(x[0] == 'each' and eq(x[1][0], pos[i]) for i, x in enumerate(L)), 'the function is applied once per element, in index order')
            else:
                ex.check(st, len(L) <= 1, 'the function is applied at most once')
                if L:
                    j = next((i for i in range(n) if eq(L[0][1][0], pos[i])), None); ex.check(st, idx == j if j is not None else False, 'it is applied to the element at the index')
                    if k == 'geti': ex.check(st, v == R(1), 'its result is returned')
                else:
                    ex.check(st, z3.UGE(idx, n), 'no call only when the index is out of range')
                    if k == 'geti': ex.check(st, v == d, 'the default is returned')
    elif k == 'apply':
        for fn, n2, order in (('app_all', 3, [0, 1, 2]), ('app_idx', 5, [3, 0, 4]), ('app_idx_none', 5, [])):
            t = Ptr(ex.new_region(s, 8 * n2, 'tuple')); pos = [at(n2, i, t) for i in range(n2)]
            for st, v in run1(s.fork(), fn, [t]):
                cov += 1; L = st.g['log']; ex.check(st, len(L) == 1 and v == R(1), '%s: the function is called once and its result returned' % fn)
                ex.check(st, all(eq(L[0][1][j], pos[i]) for j, i in enumerate(order)), '%s: the arguments are the selected elements in sequence order' % fn)
        (s2, sz), = list(run1(s.fork(), 'opt_size', [])); t = Ptr(ex.new_region(s, sz, 'optionals')); a, b, c = [z3.BitVec('o%d' % i, 64) for i in range(3)]
        (s2, _), = list(run1(s.fork(), 'opt_init', [t]))
        for st0, _ in run1(s2, 'opt_set', [t, a, b, c]):
            for st, v in run1(st0, 'app_opt', [t]):
                cov += 1; L = st.g['log']; ex.check(st, z3.And(len(L) == 1, v == R(1), to_bv(L[0][1][0], 64) == a, to_bv(L[0][1][1], 64) == b, to_bv(L[0][1][2], 64) == c), 'apply_optional_indexed passes the value of every non-placeholder optional in order')
    else:
        es = [Ptr(ex.new_region(s, 8, 'arg%d' % i)) for i in range(3)]
        for st, v in run1(s.fork(), 'each_arg', es): cov += 1; L = st.g['log']; ex.check(st, len(L) == 3 and all(eq(L[i][1][0], es[i]) for i in range(3)), 'for_each_argument calls the function once per argument, in order')
        for st, v in run1(s.fork(), 'each_arg0', []): ex.check(st, not st.g['log'], 'no argument, no call')
        for fn in ('mv_if_t', 'mv_if_f', 'mv'):
            for st, v in run1(s.fork(), fn, [es[0]]): ex.check(st, eq(v, es[0]), '%s yields a reference to its argument' % fn)
        o = Ptr(ex.new_region(s, 8, 'out'))
        def cpc(ex, st, a, ins): st.g['log'] = st.g['log'] + [('copy', a[1])]; ex.store(st, a[0], ex.load(st, a[1], I64), I64); return Ret(None)
        ex.contract('E<0>::E(E<0> const&)', cpc, trusted=True); x = z3.BitVec('x', 64); s.mem[es[0].r].cells[0] = (8, x)
        for st, v in run1(s.fork(), 'cp', [o, es[0]]): L = st.g['log']; ex.check(st, z3.And(len(L) == 1, eq(L[0][1], es[0]), to_bv(ex.load(st, o, I64), 64) == x), 'copy copies its argument once'); ex.check(st, st.mem[es[0].r].cells[0][1].eq(x), 'copy leaves its argument unchanged')
    ex.check(s, cov > 0, 'cover: a feasible execution reaches an exit')
    return [ex]
