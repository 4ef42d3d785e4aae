from . import forest as SF
import irv.core as C
ASSUMPTIONS = [
 'element type: opaque Regular type; copy/move/destroy are assumed contracts (no throw)',
 'operator new for a node returns a fresh node and does not throw',
 'ghost positions are mathematical integers; size_t counters are 64-bit and node counts stay below 2^61',
 'iterator/node field offsets (node pointer at 0, edge at 8; links at 0..24) are read off the current layout',
]
BOUNDED = ["forest::erase(first, last), forest::clear, forest reverse and the copy constructor loop: harness battery/forest.cpp c01, all forests up to the size it prints (bounded)"]
BATTERY = [dict(src='forest.cpp', args=['c01'], flags=['-fsanitize=address'], timeout=200, hang_is_failure=True)]
def prepare(): SF.load_world(1)
NAMES = ['insert', 'push_front/push_back', 'child_adaptor push', 'erase', 'pop_front/pop_back', 'child_adaptor pop', 'insert_parent', 'construct'] + [n for n in SF.OPS if n.startswith('splice')]
def units(tier):
    SF.load_world(1)
    for n in NAMES:
        for k in range(SF.count(n)): yield (n, k)
def run(u, **kw): return [SF.run_one(*u)]
