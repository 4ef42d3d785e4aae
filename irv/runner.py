"""Runs all contract units of one property, replays failures on the real code, writes evidence."""
import os, sys, json, time, importlib, subprocess, hashlib, re, traceback, multiprocessing as mp
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

def run_unit(args):
    mod, unit, opts = args
    t = time.time()
    out = dict(unit=unit, obl=[], viol=[], limits=[], inlined=[], trusted=[], queries=0, solver=0.0, contracts=[])
    try:
        m = importlib.import_module(mod)
        exs = m.run(unit, **opts)
        for ex in exs:
            for o in ex.obl.values(): out['obl'].append((o.name, o.result, o.n, o.time, o.backend))
            for v in ex.violations[:20]:
                md = ''
                try:
                    if v.model is not None:
                        md = '; '.join('%s=%s' % (d, v.model[d]) for d in v.model.decls()[:60])[:3000]
                except Exception: pass
                out['viol'].append((v.name, str(v.detail), md, v.path[-20:]))
            out['limits'] += ex.limits; out['inlined'] += sorted(ex.inlined); out['trusted'] += sorted(ex.trusted)
            out['queries'] += ex.queries; out['solver'] += ex.solver_time; out['contracts'] += sorted(ex.under_contract)
    except BaseException as e:
        from .core import ToolLimit
        if isinstance(e, ToolLimit): out['limits'].append('%s :: %s' % (unit, e))
        else: out['limits'].append('%s :: internal: %s' % (unit, traceback.format_exc()[-1500:]))
    out['wall'] = time.time() - t
    return out

def _child(a, q):
    q.put(run_unit(a))

def pool(jobs, ncpu, budget):
    """one process per unit with an overall wall budget"""
    t0 = time.time(); pend = list(jobs); run = []; res = []
    ctx = mp.get_context('fork')
    while pend or run:
        while pend and len(run) < ncpu:
            a = pend.pop(0); q = ctx.SimpleQueue(); p = ctx.Process(target=_child, args=(a, q)); p.start(); run.append((a, q, p, time.time()))
        n = []
        for a, q, p, ts in run:
            if not q.empty(): res.append(q.get()); p.join(5); continue
            if not p.is_alive():
                if not q.empty(): res.append(q.get())
                else: res.append(dict(unit=a[1], obl=[], viol=[], limits=['%s :: verifier process died' % a[1]], inlined=[], trusted=[], queries=0, solver=0, contracts=[], wall=0))
                continue
            if time.time() - t0 > budget:
                p.kill(); res.append(dict(unit=a[1], obl=[], viol=[], limits=['%s :: time budget exhausted' % a[1]], inlined=[], trusted=[], queries=0, solver=0, contracts=[], wall=0)); continue
            n.append((a, q, p, ts))
        run = n; time.sleep(0.02)
    return res

def battery_start(spec, tier, seed):
    """compile and run the native replay / bounded harness against /repo in the background"""
    bs = getattr(spec, 'BATTERY', None)
    if not bs: return None
    import threading
    box = {}
    def go():
        import tempfile, shutil
        d = tempfile.mkdtemp(prefix='irv-bat-')
        try:
            outs = []
            def one(b, k):
                exe = os.path.join(d, 'b%d' % k)
                src = os.path.join(VERIF, 'battery', b['src'])
                cmd = [b.get('cxx', 'clang++'), '-std=c++20', '-O1', '-g0', '-DNDEBUG' if not b.get('asserts') else '-UNDEBUG', '-I' + REPO + '/include', '-I' + VERIF + '/cfg', '-Wno-everything'] + b.get('flags', []) + [src] + [os.path.join(REPO, x) for x in b.get('repo_src', [])] + ['-o', exe, '-lpthread']
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode: outs.append((b, 'compile', r.stderr[-4000:])); return
                env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='halt_on_error=1:exitcode=78', TSAN_OPTIONS='halt_on_error=1:exitcode=79')
                p = subprocess.Popen([exe] + b.get('args', []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=d, errors='replace')
                try: o, _ = p.communicate(timeout=b.get('timeout', 240) * (1 if tier == 'quick' else 3)); outs.append((b, p.returncode, o))
                except subprocess.TimeoutExpired:
                    p.kill(); o, _ = p.communicate(); outs.append((b, 'timeout', o or ''))
            ths = [threading.Thread(target=one, args=(b, k)) for k, b in enumerate(bs)]
            [t.start() for t in ths]; [t.join() for t in ths]
            box['outs'] = outs
        finally: shutil.rmtree(d, ignore_errors=True)
    th = threading.Thread(target=go); th.start(); box['th'] = th
    return box

def known(pid):
    p = os.path.join(VERIF, 'known-findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) match="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, VERIF)
    spec = importlib.import_module('specs.' + pid.lower())
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    bat = battery_start(spec, tier, seed)
    opts = dict(spec.OPTS.get(tier, {})) if hasattr(spec, 'OPTS') else {}
    if hasattr(spec, 'prepare'):
        try: spec.prepare()
        except Exception as e: pass
    try: units = list(spec.units(tier))
    except Exception as e: units = []; prep_err = str(e)
    res = pool([('specs.' + pid.lower(), u, opts) for u in units], int(os.environ.get('VERIF_JOBS', '8')), 640 if tier == 'quick' else 3000)
    kn = known(pid)
    obl = [o for r in res for o in r['obl']]; viol = [v for r in res for v in r['viol']]; limits = [l for r in res for l in r['limits']]
    if not units: limits.append('no contract units could be generated')
    if units and not obl: limits.append('no obligations were generated')
    bres = []
    if bat:
        bat['th'].join(); bres = bat.get('outs', [])
    bfail = []; berr = []; bok = []
    for b, rc, o in bres:
        tail = (o or '')[-4000:]
        fails = re.findall(r'^FAIL (.*)$', o or '', re.M)
        if rc == 0: bok.append((b, re.findall(r'^COVER (.*)$', o or '', re.M)))
        elif rc == 'compile': berr.append('replay harness %s does not compile against this tree: %s' % (b['src'], o[-800:]))
        elif rc == 'timeout':
            if b.get('hang_is_failure'): bfail.append((b, 'did not terminate (bound %ss)' % b.get('timeout', 240), tail))
            else: berr.append('replay harness %s timed out' % b['src'])
        else: bfail.append((b, fails[0] if fails else 'abnormal termination (%s): %s' % (rc, (re.findall(r'(ERROR: \S+ \S+|runtime error: .*|WARNING: ThreadSanitizer.*)', o or '') or [''])[0]), tail))
    # known findings
    shown = set(); v2 = []
    for v in viol:
        k = next((x for x in kn if x[0] and x[0] in v[0]), None)
        if k:
            if k[0] not in shown: print('KNOWN-FINDING: property=%s %s' % (pid, k[1])); shown.add(k[0])
        else: v2.append(v)
    viol = v2
    b2 = []
    for b in bfail:
        k = next((x for x in kn if x[0] and x[0] in b[1]), None)
        if k:
            if k[0] not in shown: print('KNOWN-FINDING: property=%s %s' % (pid, k[1])); shown.add(k[0])
        else: b2.append(b)
    bfail = b2
    code = 0
    rp = None
    if viol or bfail:
        code = 1
        names = sorted({v[0] for v in viol})
        rp = os.path.join('evidence', 'replay', '%s-%s.txt' % (pid, hashlib.sha1((';'.join(names) + ';'.join(b[1] for b in bfail)).encode()).hexdigest()[:10]))
        with open(os.path.join(VERIF, rp), 'w') as f:
            f.write('property %s: violated obligations on the current tree of %s\n\n' % (pid, REPO))
            for v in viol: f.write('FAILED OBLIGATION: %s\n  %s\n  solver counterexample: %s\n  path: %s\n\n' % (v[0], v[1], v[2], v[3]))
            if bfail:
                for b, d, o in bfail:
                    f.write('REPLAY AGAINST THE REAL CODE FAILS: harness battery/%s %s\n  failing input: %s\n  reproduce: clang++ -std=c++20 -I%s/include -I%s/cfg %s %s/battery/%s -lpthread && ./a.out %s\n%s\n' % (b['src'], ' '.join(b.get('args', [])), d, REPO, VERIF, ' '.join(b.get('flags', [])), VERIF, b['src'], ' '.join(b.get('args', [])), o))
            else: f.write('no failing input was found by the replay harnesses: %s\n' % [b['src'] for b, _ in bok])
        for n in names[:20]: print('failed obligation: ' + n)
        for b in bfail: print('failing input: ' + b[1])
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if bfail else ' no-failing-input-found'))
    standin = False
    if code and limits and os.environ.get("VERIF_VERBOSE"):
        for l in limits: print("limit: " + l[:1500])
    if not code and limits:
        for l in limits[:30]: print('not proved (tool limit): ' + l[:600])
        if bok and not berr: print('bounded stand-in: the harness %s passed for the functions above (bounded, not proved)' % [b['src'] for b, _ in bok]); standin = True
        else: code = 2
    if not code and berr:
        # the harness serves bounded functions too
        if getattr(spec, 'BOUNDED', None) or limits:
            for l in berr: print(l)
            code = 2
        else:
            for l in berr: print('note: ' + l)
    dis = sum(1 for o in obl if o[1] == 'discharged')
    be = {}
    for o in obl:
        for k, n in o[4].items(): be[k] = be.get(k, 0) + n
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2), violations=len(viol) + len(bfail),
        coverage=dict(obligations=len(obl), discharged=dis, queries=sum(r['queries'] for r in res), proof_instances=sum(o[2] for o in obl), backends=be,
            solver_time_s=round(sum(r['solver'] for r in res), 2), checker_cmd='./check %s' % pid,
            trusted_base=sorted(set(t for r in res for t in r['trusted'])) + ['clang 18 front end (C++ -> LLVM IR, -O0 + sroa/simplifycfg)', 'irv symbolic executor (/verif/irv)', 'z3 5 / cvc5'],
            functions_under_contract=sorted(set(c for r in res for c in r['contracts'])),
            functions_inlined=len(set(c for r in res for c in r['inlined'])),
            obligation_names=sorted(o[0] for o in obl)[:400],
            bounded_not_proved=list(getattr(spec, 'BOUNDED', [])) + (['tool limit this run: ' + l[:300] for l in limits] if limits else []),
            bounded_harnesses=[dict(harness=b['src'], covered=c) for b, c in bok]),
        assumptions=list(getattr(spec, 'ASSUMPTIONS', [])))
    if not obl: ev['coverage']['obligations'] = 0
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d limits, %d units, %.1fs (solver %.1fs)%s' % (pid, len(obl), dis, len(limits), len(units), time.time() - t0, ev['coverage']['solver_time_s'], ' [bounded stand-in used]' if standin else ''))
    slow = sorted(res, key=lambda r: -r['wall'])[:3]
    if os.environ.get('VERIF_VERBOSE'):
        for r in sorted(res, key=lambda r: -r['wall']): print('   %.1fs %s' % (r['wall'], r['unit']))
    return code
