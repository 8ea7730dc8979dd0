import concurrent.futures as cf
import json, os, shutil, sys, time
from vc import runner
from vc.units import UNITS, PROPS, TRUSTED

INV = ('loop invariant', 'Check invariant', 'loop_invariant', 'decreases', 'is assignable', 'assigns',
       'loop contract', 'step_case', 'base_case', 'invariant before', 'invariant after', 'freeable',
       'instrumented loop', 'enclosing loop', 'variant')


def annotation_failure(p):
    t = p['property'] + ' ' + p['description']
    return any(s in t for s in INV)


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    only = [argv[i + 1] for i, a in enumerate(argv) if a == '--unit']
    verbose = '-v' in argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = PROPS[prop]
    work = os.path.join(runner.VERIF, 'build', 'work', '%s-%d' % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    outdir = os.path.join(runner.VERIF, 'build', 'replay', prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    try:
        return run(prop, spec, tier, only, verbose, seed, t0, work, outdir)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, spec, tier, only, verbose, seed, t0, work, outdir):
    env = runner.Env(work)
    names = list(spec['units'])
    if tier == 'thorough':
        names += [n for n in spec.get('thorough', []) if n not in names]
    if only:
        names = only
    results = {}

    deadline = t0 + (560 if tier == 'quick' else 3000)

    def go(n):
        u = UNITS[n]
        left = deadline - time.time()
        if tier == 'quick':
            u.timeout = min(u.timeout, 200)
        u.timeout = min(u.timeout, left)
        if left < 5:
            r = runner.blank(u, 'no time left')
        else:
            r = u.run(env)
            if r['status'] == 'undecided' and u.native and time.time() < deadline + 100:
                u.search(env, r, outdir)
        if verbose:
            print('%-28s %-9s %-10s obl=%d/%d %.1fs %s' % (n, r['kind'], r['status'], r['discharged'],
                                                          r['obligations'], r['solver_s'], r['why'][:400]))
            for p in r['failed'][:12]:
                print('      ', p['property'], p['description'], p['status'], p['where'])
        return n, r
    violations, notes, known = [], [], []
    with cf.ThreadPoolExecutor(8) as ex:
        for n, r in ex.map(go, names):
            results[n] = r
        # bounded stand-ins for contract proofs that did not go through
        need = []
        for n in names:
            if results[n]['status'] != 'ok':
                need += [f for f in UNITS[n].fallback if f not in results and f not in need]
        for n, r in ex.map(go, need):
            results[n] = r
    deferred = []
    for n, r in results.items():
        u = UNITS[n]
        if r['status'] == 'ok':
            continue
        if r.get('found'):
            violations.append((n, True, r['found']))
            continue
        fb = [results[f] for f in u.fallback if f in results]
        if r['status'] == 'fail' and u.kind != 'contract':
            deferred.append((n, r))
        elif fb and all(f['status'] == 'ok' for f in fb):
            stale = r['status'] != 'fail' or any(annotation_failure(p) for p in r['failed'])
            if stale:
                r['status'] = 'stand-in'
                notes.append('%s: the annotated proof does not apply to this text (%s); the bounded stand-in %s '
                             'passed: bounded, not proved'
                             % (n, r['why'][:300] or r['failed'][0]['description'], ', '.join(u.fallback)))
            else:
                deferred.append((n, r))
        elif r['status'] == 'fail' and not any(f['status'] == 'fail' for f in fb):
            if any(annotation_failure(p) for p in r['failed']) and not fb:
                notes.append('%s: undecided, its loop contract does not fit this text' % n)
                r['status'] = 'undecided'
            else:
                deferred.append((n, r))
        elif r['status'] != 'fail':
            notes.append('%s: undecided: %s' % (n, r['why'][:300]))
    for n, r in [] if violations else sorted(deferred, key=lambda x: x[1]['kind'] == 'contract')[:4]:
        ok, path = UNITS[n].replay(env, r, outdir)
        violations.append((n, ok, path))
        if ok:
            break
    if any(v[1] for v in violations):
        violations = [v for v in violations if v[1]]
    for k in spec.get('known', []):
        msg = k(env)
        if msg:
            known.append(msg)
            print('KNOWN-FINDING: property=%s %s' % (prop, msg))
    for m in notes:
        print('note:', m)
    write_evidence(prop, spec, tier, seed, results, violations, notes, known, time.time() - t0)
    decided = [r for r in results.values() if r['status'] in ('ok', 'fail', 'stand-in')]
    if violations:
        n, ok, path = violations[0]
        rel = os.path.relpath(path, runner.VERIF)
        print('VIOLATION property=%s replay=%s%s' % (prop, rel, '' if ok else ' no-failing-input-found'))
        return 1
    if not decided:
        print('ERROR: nothing could be decided for %s' % prop)
        return 2
    print('OK %s: %d obligations discharged, %d of them without a bound' %
          (prop, sum(r['discharged'] for r in results.values()),
           sum(r['discharged'] for r in results.values() if r['kind'] != 'bounded' and r['status'] == 'ok')))
    return 0


def write_evidence(prop, spec, tier, seed, results, violations, notes, known, wall):
    proved = [r for r in results.values() if r['kind'] != 'bounded' and r['status'] in ('ok', 'fail')]
    bounded = [r for r in results.values() if r['kind'] == 'bounded' and r['status'] in ('ok', 'fail')]
    fn = sorted({f for r in proved for f in r['functions']})
    fb = sorted({f for r in bounded for f in r['functions']} - set(fn))
    cmd = next((r['cmd'] for r in proved + bounded if 'cmd' in r), 'cbmc')
    cov = dict(
        obligations=sum(r['obligations'] for r in proved),
        discharged=sum(r['discharged'] for r in proved),
        checker_cmd=cmd,
        trusted_base=TRUSTED + spec.get('trusted', []),
        functions_proved=fn,
        functions_bounded_only=fb,
        bounded_obligations=sum(r['obligations'] for r in bounded),
        bounded_discharged=sum(r['discharged'] for r in bounded),
        anti_vacuity_reached=sum(r.get('reach', 0) for r in results.values()),
        solver_time_s=round(sum(r['solver_s'] for r in results.values()), 2),
        units=[dict(unit=r['unit'], kind=r['kind'], status=r['status'], obligations=r['obligations'],
                    discharged=r['discharged'], postconditions=r.get('posts', 0), bound=r['bound'],
                    back_end=r['solver'], solver_s=r['solver_s'], functions=r['functions'],
                    assumes=list(UNITS[r['unit']].assumes), undecided=r['why'][:400]) for r in results.values()],
        notes=notes, known_findings=known)
    level = spec['level']
    if level == 'other':
        cov['explanation'] = spec['explanation']
    assum = list(spec.get('assumptions', []))
    for r in results.values():
        for a in UNITS[r['unit']].assumes:
            if a not in assum:
                assum.append(a)
    os.makedirs(os.path.join(runner.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(runner.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assum,
                       wall_s=round(wall, 2), violations=len(violations)), f, indent=1)
        f.write('\n')
