"""Splits demangled C++ function names: cxx(dem) -> (scope components, method, parameter text)."""
import functools
_OPS = [('operator()', 'opcall'), ('operator->*', 'oparrowstar'), ('operator->', 'oparrow'), ('operator<=>', 'opspace'), ('operator<<', 'opshl'), ('operator>>', 'opshr'), ('operator<=', 'ople'), ('operator>=', 'opge'), ('operator<', 'oplt'), ('operator>', 'opgt')]
def _split(s):
    out = []; d = 0; cur = ''; i = 0
    while i < len(s):
        c = s[i]
        if c in '<({[': d += 1
        elif c in '>)}]': d -= 1
        if d == 0 and s.startswith('::', i): out.append(cur); cur = ''; i += 2; continue
        cur += c; i += 1
    return out + [cur]
@functools.lru_cache(maxsize=None)
def cxx(dem):
    for a, b in _OPS: dem = dem.replace(a, b)
    # the parameter list: the last top-level (...) group
    e = dem.rfind(')')
    if e < 0: return ((), dem, '')
    d = 0; i = e
    while i >= 0:
        if dem[i] in ')>}]': d += 1
        elif dem[i] in '(<{[':
            d -= 1
            if d == 0: break
        i -= 1
    params = dem[i + 1:e]; head = dem[:i]
    d = 0; j = len(head) - 1; st = 0
    while j >= 0:
        c = head[j]
        if c in ')>}]': d += 1
        elif c in '(<{[': d -= 1
        elif c == ' ' and d == 0:
            if head[:j].endswith('operator'): j -= 1; continue
            st = j + 1; break
        j -= 1
    parts = _split(head[st:]); m = parts[-1]; k = m.find('<')
    if k > 0 and not m.startswith('operator'): targs = m[k:]; m = m[:k]
    return (tuple(parts[:-1]), m, params)
def base(c):
    k = c.find('<'); return c[:k] if k > 0 else c
def scope_is(dem, cls, targ=None):
    """is dem a member of a class (template) called cls (last scope component), optionally with targ in its arguments"""
    s, m, p = cxx(dem)
    return bool(s) and base(s[-1]) == cls and (targ is None or targ in s[-1])
def member(cls, meth, targ=None, ns=None):
    ms = (meth,) if isinstance(meth, str) else meth
    def f(name, dem):
        s, m, p = cxx(dem)
        return bool(s) and base(s[-1]) == cls and (ms is None or m in ms) and (targ is None or targ in s[-1]) and (ns is None or s[0] == ns)
    return f
