"""Compiles a driver TU against /repo's current headers into bitcode (mechanical extraction)."""
import os, subprocess, tempfile, hashlib, atexit, shutil
from .core import ToolLimit
REPO = os.environ.get('VERIF_REPO', '/repo'); VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='irv-'); atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp
PASSES = 'sroa,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp>,sroa'
def cflags(vstd=False):
    f = ['-std=c++20', '-I' + REPO + '/include', '-I' + VERIF + '/cfg', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-threadsafe-statics' if False else '-fno-access-control', '-DNDEBUG', '-Wno-everything']
    if vstd: f = ['-isystem', VERIF + '/vstd'] + f
    return f
def bitcode(src, vstd=False, extra=()):
    d = tmpdir(); base = os.path.join(d, os.path.basename(src).replace('.cpp', ''))
    r = subprocess.run(['clang++'] + (['-I' + VERIF + '/vstd'] if vstd else []) + cflags() + list(extra) + ['-emit-llvm', '-c', src, '-o', base + '.bc'], capture_output=True, text=True)
    if r.returncode: raise ToolLimit('driver does not compile:\n' + r.stderr[-3000:])
    r = subprocess.run(['opt', '-passes=' + PASSES, base + '.bc', '-o', base + '.o.bc'], capture_output=True, text=True)
    if r.returncode: raise ToolLimit('opt: ' + r.stderr[-2000:])
    return base + '.o.bc'
