"""Assumed contracts on the standard library / runtime shared by several properties."""
import re, z3
from .core import *
def rx(p): return re.compile(p)
def install_refcount(ex):
    """the atomic primitives below std::shared_ptr: sequentially consistent read-modify-write"""
    def xadd(ex, st, a, ins):
        old = ex.load(st, a[0], I32); ex.store(st, a[0], ex.binop('add', old, a[1], 32), I32); return Ret(old)
    ex.contract(rx(r'^__gnu_cxx::__exchange_and_add(_dispatch)?\(int\*, int\)'), xadd, '__exchange_and_add', True)
    def add(ex, st, a, ins): xadd(ex, st, a, ins); return Ret(None)
    ex.contract(rx(r'^__gnu_cxx::__atomic_add(_dispatch)?\(int\*, int\)'), add, '__atomic_add', True)
    ex.contract(rx(r'^__gthread_active_p\(\)'), lambda ex, st, a, ins: Ret(1), '__gthread_active_p', True)
    ex.contract('_ZL18__gthread_active_pv', lambda ex, st, a, ins: Ret(1), '__gthread_active_p', True)
    ex.contract(rx(r'__is_single_threaded\(\)'), lambda ex, st, a, ins: Ret(0), '__is_single_threaded', True)
def install_typeinfo(ex):
    ex.contract(re.compile(r'^std::type_info::operator==\(std::type_info const&\) const'), lambda ex, st, a, ins: Ret(simp(ex.ptr_eq(st, a[0], a[1]))), 'std::type_info ==', True)
    ex.contract(re.compile(r'^std::type_info::operator!=\(std::type_info const&\) const'), lambda ex, st, a, ins: Ret(simp(z3.Not(to_bool(ex.ptr_eq(st, a[0], a[1]))))), 'std::type_info !=', True)
def extern_global(ex, st, n, r):
    if n == '__libc_single_threaded': st.reg(r).cells[0] = (1, 0)
class Monitor:
    """mutual exclusion: which mutexes the thread under verification holds; on_lock / on_unlock carry the monitor invariant"""
    def __init__(m, ex, on_lock=None, on_unlock=None):
        m.ex = ex; m.on_lock = on_lock or (lambda ex, st, k: None); m.on_unlock = on_unlock or (lambda ex, st, k: None)
        ex.contract(rx(r'^(__gthread_mutex_lock|pthread_mutex_lock)\b'), m.lock, 'pthread_mutex_lock', True)
        ex.contract(rx(r'^(__gthread_mutex_unlock|pthread_mutex_unlock)\b'), m.unlock, 'pthread_mutex_unlock', True)
        ex.contract(rx(r'^(__gthread_mutex_trylock|pthread_mutex_trylock)\b'), m.trylock, 'pthread_mutex_trylock', True)
        ex.contract(rx(r'^_ZL\d+__gthread_mutex_lock'), m.lock, 'pthread_mutex_lock', True); ex.contract(rx(r'^_ZL\d+__gthread_mutex_unlock'), m.unlock, 'pthread_mutex_unlock', True); ex.contract(rx(r'^_ZL\d+__gthread_mutex_trylock'), m.trylock, 'pthread_mutex_trylock', True)
    def key(m, st, p):
        if not isinstance(p, Ptr): raise ToolLimit('mutex address %r' % (p,))
        return (p.r, p.o)
    def held(m, st): return st.g.get('held', ())
    def lock(m, ex, st, a, ins):
        k = m.key(st, a[0]); ex.access_ok(st, a[0], 8, 'lock')
        ex.check(st, k not in m.held(st), 'locking: a thread does not lock a mutex it already holds')
        st.g['held'] = m.held(st) + (k,); st.g['locks'] = st.g.get('locks', 0) + 1
        m.on_lock(ex, st, k); return Ret(0)
    def trylock(m, ex, st, a, ins):
        k = m.key(st, a[0]); ex.access_ok(st, a[0], 8, 'lock'); ex.check(st, k not in m.held(st), 'locking: a thread does not lock a mutex it already holds')
        s2 = st.fork(); s2.path.append('try_lock fails'); st.g['held'] = m.held(st) + (k,); st.g['locks'] = st.g.get('locks', 0) + 1; m.on_lock(ex, st, k)
        return [(st, Ret(0)), (s2, Ret(16))]
    def unlock(m, ex, st, a, ins):
        k = m.key(st, a[0]); ex.access_ok(st, a[0], 8, 'unlock')
        ex.check(st, k in m.held(st), 'locking: only a held mutex is unlocked')
        if k not in m.held(st): raise Infeasible()
        m.on_unlock(ex, st, k); st.g['held'] = tuple(x for x in m.held(st) if x != k); return Ret(0)
class CutLoop:
    """a loop whose whole carried state is ghost/monitor state (plus phis and locals declared by the caller):
    havoc(ex, st) makes the state arbitrary, inv(ex, st) -> [(name, formula)] is checked on entry and at every back edge"""
    def __init__(s, inv, havoc=None, name='loop'): s.inv = inv; s.hv = havoc or (lambda ex, st: None); s.name = name
    def enter(s, ex, st):
        h = st.fr.blk
        for n, c in s.inv(ex, st): ex.check(st, c, '%s: invariant holds on entry: %s' % (s.name, n))
        s.hv(ex, st)
        for n, c in s.inv(ex, st): st.assume(c)
        st.fr.loops[h] = s; return None
    def backedge(s, ex, st):
        for n, c in s.inv(ex, st): ex.check(st, c, '%s: invariant preserved: %s' % (s.name, n))
def install_guard(ex, first):
    """function-local statics: acquire tells whether this thread runs the initialiser"""
    ex.contract('__cxa_guard_acquire', lambda ex, st, a, ins: Ret(1 if first(st) else 0), '__cxa_guard_acquire', True)
    ex.contract('__cxa_guard_release', lambda ex, st, a, ins: Ret(None), '__cxa_guard_release', True)
    ex.contract('__cxa_atexit', lambda ex, st, a, ins: (st.g.__setitem__('atexit', st.g.get('atexit', []) + [(a[0].name if isinstance(a[0], Fn) else None, a[1])]), Ret(0))[1], '__cxa_atexit', True)
