from . import forest as SF, forest_iter as FI
from .c01 import ASSUMPTIONS
BATTERY = [dict(src='forest.cpp', args=['c02'], flags=['-fsanitize=address'], timeout=200, hang_is_failure=True)]
def prepare(): SF.load_world(1)
def units(tier):
    for n in ('next', 'prev', 'begin/end/root/empty'):
        for k in range(SF.count(n)): yield ('op', n, k)
    for n in FI.IOPS:
        for k in range(FI.icount(n)): yield ('iop', n, k)
def run(u, **kw): return [SF.run_one(u[1], u[2]) if u[0] == 'op' else FI.run_iop(u[1], u[2])]
