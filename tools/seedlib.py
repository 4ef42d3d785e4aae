"""plants a bug: seed(id, prop, [(file, old, new)...], demo_cpp, needs, what)"""
import os, subprocess, json
R='/repo'; S='/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def seed(i, prop, edits, demo, needs, what, flags='', lib=False):
    assert not sh('git -C /repo status --short').stdout.strip(), 'dirty /repo'
    try:
        for f, o, n in edits:
            p = R + '/' + f; s = open(p).read(); assert s.count(o) == 1, (f, s.count(o), o); open(p, 'w').write(s.replace(o, n))
        d = sh('git -C /repo diff').stdout
    finally: sh('git -C /repo checkout -- .')
    os.makedirs(S + '/' + i, exist_ok=True)
    w = lambda n, t: open('%s/%s/%s' % (S, i, n), 'w').write(t)
    w('patch.diff', d); w('demo.cpp', demo)
    w('demo.sh', '#!/bin/bash\n# run with cwd = the stlab source tree, after the build\nD=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\nclang++ -std=c++20 -O1 -Wno-everything -Iinclude -I_build/include %s "$D/demo.cpp" %s -o "$T/demo" -lpthread || exit 3\ntimeout -k 5 120 "$T/demo"\n' % (flags, '_build/libstlab.a' if lib else ''))
    os.chmod('%s/%s/demo.sh' % (S, i), 0o755)
    w('meta.json', json.dumps(dict(property=prop, needs=needs, what_it_breaks=what), indent=1))
    print('planted', i)
