#!/usr/bin/env python3
"""run.py <property> <quick|thorough>: decides one property on /repo's working tree."""
import sys, os, time, json, subprocess, tempfile, shutil, threading, concurrent.futures
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, FORM_BOUND
import front

EV = os.path.join(ROOT, 'evidence')
HARD = {'quick': 840, 'thorough': 3600}
TRUSTED = ['z3 (SMT solver)', 'clang 18 front end (AST of the working tree)', 'verifier in /verif/tool (translation of the AST, symbolic execution, contract application)',
           'models of the C++ standard library in tool/stdmodel.py', 'float arithmetic treated as real arithmetic, expf as an uninterpreted positive function',
           'memory allocation does not fail, containers hold at most 2^60 elements, joint domain sizes fit in size_t']


def build_harness(out, env=None):
    t = time.time()
    r = subprocess.run(['bash', os.path.join(ROOT, 'replay', 'build.sh'), out], capture_output=True, text=True, env=env)
    return r.returncode == 0 and os.path.exists(os.path.join(out, 'harness')), r.stdout[-1500:] + r.stderr[-500:], time.time() - t


def run_harness(h, prop, seed, tier, out, budget, timeout):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1', TSAN_OPTIONS='halt_on_error=1:exitcode=66')
    t = time.time()
    try:
        r = subprocess.run([h, prop, str(seed), tier, out, '-1', str(budget)], capture_output=True, text=True, env=env, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired as e:
        return dict(status='hang', log='no answer within %d s' % timeout, secs=time.time() - t)
    s = r.stdout + r.stderr
    if r.returncode == 0:
        n = [l for l in r.stdout.splitlines() if l.startswith('OK cases=')]
        return dict(status='ok', cases=int(n[0].split('=')[1]) if n else 0, secs=time.time() - t)
    if r.returncode == 3: return dict(status='fail', log=r.stdout[-3000:], secs=time.time() - t)
    if r.returncode in (-9, -15): return dict(status='killed', log=s[-500:], secs=time.time() - t)
    return dict(status='crash', log='exit %d\n' % r.returncode + s[:6000], secs=time.time() - t)


def main():
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[prop]
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    work = tempfile.mkdtemp(prefix='efgverif-%s-' % prop)
    try: code = decide(prop, tier, seed, P, t0, work)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def decide(prop, tier, seed, P, t0, work):
    hb = {}

    def hbuild():
        hb['r'] = build_harness(os.path.join(work, 'h'))
        if P.get('races') and hb['r'][0]: hb['t'] = build_harness(os.path.join(work, 't'), dict(os.environ, SAN='thread'))
    th = threading.Thread(target=hbuild)
    th.start()
    # ---- deductive part
    import engine
    undecided, failed, results, lem = [], [], [], []
    ferr = None
    prog = None
    missing = []
    try:
        prog = front.load()
    except Exception as e:
        ferr = 'extraction: ' + str(e)[:1500]
    names = list(dict.fromkeys(P['contracts']))
    if prog is not None and names:
        try:
            results, missing = engine.run(prog, names, *((400, 8, 560) if tier == 'quick' else (900, 8, 2400)))
            lem = engine.lemmas()
        except Exception as e:
            ferr = 'engine: %s: %s' % (type(e).__name__, str(e)[:1000])
    nob = ndis = 0
    byback = {}
    search = False
    for r in results:
        if r['error']: undecided.append((r['fn'], r['sig'], r['error']))
        for nm, line, st, secs, be, det in r['obls']:
            nob += 1
            if st == 'proved':
                ndis += 1
                byback[be] = byback.get(be, 0) + 1
            elif st in ('refuted', 'unknown') and r['contract'] in FORM_BOUND:
                undecided.append((r['fn'], nm, 'solver ' + st))
                search = True
            elif st in ('refuted', 'unknown'): failed.append((r, nm, line, st, det))
            else: undecided.append((r['fn'], nm, 'solver ' + st))
    for n, st, secs in lem:
        nob += 1
        if st == 'proved':
            ndis += 1
            byback['z3'] = byback.get('z3', 0) + 1
        else: undecided.append(('lemma', n, st))
    for n, keys in missing: undecided.append((', '.join(keys), n, 'function not found in the working tree'))
    if ferr: undecided.append(('front end', '', ferr))
    th.join()
    # ---- bounded stand-in / search for a failing input
    ok, blog, bsecs = hb['r']
    bounded = dict(rule=P['bounded'], seed=seed, built=ok)
    viol = None
    if not ok:
        bounded['error'] = blog
        print('note: the bounded stand-in does not build against this tree: %s' % blog.strip().splitlines()[0] if blog.strip() else 'note: stand-in not built')
    else:
        h = os.path.join(work, 'h', 'harness')
        budget = 60 if tier == 'quick' else 900
        runs = [(seed, tier)]
        if tier == 'thorough': runs += [(seed + i, tier) for i in range(1, 6)]
        if (failed or search) and tier == 'quick': runs += [(seed + 100 + i, 'thorough') for i in range(6)]
        with concurrent.futures.ThreadPoolExecutor(7) as ex:
            fs = []
            for i, (sd, ti) in enumerate(runs):
                o = os.path.join(work, 'case.%d' % i)
                fs.append((sd, ti, o, ex.submit(run_harness, h, prop, sd, ti, o, budget if i == 0 or tier == 'thorough' else 150, 420 if tier == 'quick' else 2400)))
            tot = 0
            for sd, ti, o, fu in fs:
                r = fu.result()
                tot += r.get('cases', 0)
                if r['status'] in ('fail', 'crash', 'hang') and viol is None: viol = (sd, ti, o, r)
                if r['status'] == 'killed': bounded['error'] = 'a run was killed'
        if P.get('races') and viol is None:
            bounded['races'] = 'the same cases under ThreadSanitizer: not built'
            if hb.get('t', (False,))[0]:
                for sd, ti in runs[:1] + ([(seed + 50 + i, tier) for i in range(3)] if tier == 'thorough' else []):
                    o = os.path.join(work, 'tcase')
                    r = run_harness(os.path.join(work, 't', 'harness'), prop, sd, ti, o, budget, 300 if tier == 'quick' else 1200)
                    if r['status'] == 'ok':
                        tot += r['cases']
                        bounded['races'] = 'the same cases under ThreadSanitizer: no data race'
                    elif 'ThreadSanitizer: data race' in r.get('log', ''):
                        viol = (sd, ti, o, dict(r, status='data race (build with SAN=thread)'))
                        break
                    else: bounded['races'] = 'ThreadSanitizer gave no answer (%s)' % r['status']
        # listed findings: replayed, reported as known; they excuse no other violation
        kf = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
        for l in (open(kf) if os.path.exists(kf) else []):
            w = l.strip().split(None, 3)
            if len(w) == 4 and w[0] == 'open:' and w[1] == 'property=' + prop:
                r = run_harness(h, w[2].split('=')[1], seed, 'quick', os.path.join(work, 'kcase'), 30, 60)
                if r['status'] == 'fail': print('KNOWN-FINDING: property=%s %s' % (prop, w[3]))
        bounded['cases'] = tot
        bounded['runs'] = [dict(seed=s, tier=t) for s, t in runs]
    # ---- verdict
    rp = os.path.join(EV, 'replay-%s.txt' % prop)
    code = 0
    nv = 0
    if os.path.exists(rp): os.remove(rp)
    if viol or failed:
        nv = 1
        with open(rp, 'w') as f:
            f.write('property %s\n' % prop)
            if failed:
                f.write('failed obligations:\n')
                for r, nm, line, st, det in failed:
                    f.write('  %s (%s) contract %s, line %s: "%s": %s\n' % (r['fn'], r['sig'], r['contract'], line, nm, st))
            if viol:
                sd, ti, o, r = viol
                f.write('\nfailing input (real code built from the working tree): %s\n' % r['status'])
                f.write(r['log'] + '\n')
                if os.path.exists(o): f.write(open(o, errors='replace').read())
                f.write('\nre-run: %sbash /verif/replay/build.sh /tmp/h && /tmp/h/harness %s %d %s /tmp/case\n' % ('SAN=thread ' if 'race' in r['status'] else '', prop, sd, ti))
            for r, nm, line, st, det in failed:
                f.write('\n---- %s: "%s"\nverifier output: %s\n' % (r['fn'], nm, det))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if viol else ' no-failing-input-found'))
        for r, nm, line, st, det in failed[:6]: print('  failed obligation: %s: %s (line %s, %s)' % (r['fn'], nm, line, st))
        if viol: print('  failing input: ' + next((l for l in viol[3]['log'].splitlines() if 'data race' in l), viol[3]['log'].strip().splitlines()[0])[:300])
        code = 1
    for u in undecided[:20]: print('undecided (bounded stand-in only): %s | %s | %s' % u)
    allproved = nob > 0 and ndis == nob and not undecided
    level = P.get('level', 'proof')
    fns = [dict(function=r['fn'], contract=r['contract'], obligations=len(r['obls']), discharged=sum(1 for o in r['obls'] if o[2] == 'proved'), seconds=r['secs'],
                solver_seconds=r['solver_secs'], assumes_contracts=r['used'], inlined=r['inlined'], error=r['error']) for r in results]
    std = sorted({x for r in results for x in r['std']})
    cov = dict(obligations=nob, discharged=ndis, checker_cmd='python3-vt tool/run.py %s %s' % (prop, tier), trusted_base=TRUSTED,
               explanation=('' if level == 'proof' else 'Partly proved: the functions listed under functions_under_contract; those under outside_reach are decided by the bounded stand-in only. ') + 'contracts on the functions extracted from the working tree on this run, discharged by z3; functions outside the verifier\'s reach are exercised by the bounded stand-in (never counted as proved)',
               functions_under_contract=fns, lemmas=dict(total=len(lem), proved=sum(1 for l in lem if l[1] == 'proved')), back_ends=byback,
               solver_seconds=round(sum(r['solver_secs'] for r in results) + sum(l[2] for l in lem), 2),
               undecided=[' | '.join(u) for u in undecided], bounded_standin=bounded, library_models_used=std,
               outside_reach=P.get('outside', []))
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
                   assumptions=TRUSTED[3:] + P.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=nv),
              open(os.path.join(EV, prop + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged over %d functions (%s), bounded stand-in: %s cases, %.0f s' %
          (prop, ndis, nob, len(results), 'all' if allproved else 'not all', bounded.get('cases', 'not run'), time.time() - t0))
    return code


if __name__ == '__main__': main()
