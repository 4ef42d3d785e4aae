#!/usr/bin/env python3
"""seedtest.py [--nobuild] id...: confirm a planted bug (demo, build, stable tests) and run the check against it"""
import sys, json, subprocess, time
def sh(c, t=1200): return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t)
nob = '--nobuild' in sys.argv; ids = [a for a in sys.argv[1:] if not a.startswith('--')]
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for i in ids:
    d = '/verif/seeded/' + i; p = json.load(open(d + '/meta.json'))['property']
    assert not sh('git -C /repo status --short').stdout.strip(), 'dirty'
    r0 = sh('cd /repo && %s/demo.sh' % d)
    try:
        a = sh('git -C /repo apply %s/patch.diff' % d); assert a.returncode == 0, a.stderr
        b = t = 'skipped'
        if not nob:
            t0=time.time(); x = sh('bash /opt/vp/build.sh'); b = x.returncode
            if b: print(x.stdout[-2000:], x.stderr[-1000:])
            sh('bash /opt/vp/test.sh /tmp/st.json'); o = json.load(open('/tmp/st.json')); t = sorted(stable - set(o['passed']))[:5]
        r1 = sh('cd /repo && %s/demo.sh' % d)
        t0 = time.time(); c = sh('cd /verif && ./check ' + p); dt = time.time() - t0
    finally: sh('git -C /repo checkout -- .')
    out = c.stdout.strip().split('\n')
    print('%s [%s]: demo clean=%d patched=%d build=%s tests_broken=%s check=%d (%.0fs) %s' % (i, p, r0.returncode, r1.returncode, b, t, c.returncode, dt, 'CAUGHT' if c.returncode == 1 else 'MISSED'))
    print('    demo:', (r1.stdout + r1.stderr).strip()[-200:].replace('\n', ' | ')); print('    check:', '\n           '.join(l[:180] for l in out[-6:]))
    if r0.returncode: print(r0.stdout[-500:], r0.stderr[-1500:])
