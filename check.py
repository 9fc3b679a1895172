#!/usr/bin/env python3
"""check.py PROPERTY: runs the monitored workloads of one property on /repo's working tree.

exit 0: held on everything observed; exit 1 with a VIOLATION line: broken; exit 2: the check could not decide.
The tier is VERIF_TIER (or --tier), the seed VERIF_SEED. --case N replays one case.
"""
import argparse, json, os, subprocess, sys, tempfile, time, shutil, signal

HERE = os.path.dirname(os.path.abspath(__file__))
ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
ap.add_argument('--case', type=int)
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
ap.add_argument('-v', action='store_true')
args = ap.parse_args()
prop, tier, seed = args.prop, args.tier, args.seed
t0 = time.time()

conf = json.load(open(os.path.join(HERE, 'harness', 'checks.json')))
cfg = dict(conf['default'])
cfg.update(conf.get(prop, {}))
nsh = cfg['shards'][tier]
budget = cfg['budget_s'][tier]
deadline = t0 + cfg['deadline_s'][tier]

known = {}
fixed = []
kf = os.path.join(HERE, 'known_findings.json')
if os.path.exists(kf):
    for e in json.load(open(kf))['known']:
        if e['property'] == prop:
            known[e['key']] = e['what']

JAVA = ['/usr/bin/java', '-Xss4m', '-Xmx1500m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=%s' % cfg.get('jit', 4),
        '-cp', '/usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar',
        '-Dpython.home=/usr/share/jython', '-Dpython.cachedir.skip=true',
        '-Dpython.path=' + ':'.join([HERE + '/harness', HERE + '/harness/shim', '/repo', '/opt/vp/pyogp/site']),
        'org.python.util.jython', '-B', '-u']
env = {k: v for k, v in os.environ.items() if k not in ('JYTHONPATH', 'PYTHONPATH', 'CLASSPATH', 'JYTHON_HOME', 'http_proxy', 'HTTP_PROXY')}
env.update(LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_KNOWN=','.join(known),
           PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', no_proxy='*')

work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
procs = []


def cleanup():
    for p in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    shutil.rmtree(work, ignore_errors=True)


def run(jobs):
    """jobs: list of argument tails; returns the results"""
    mine = []
    for k, tail in enumerate(jobs):
        out = os.path.join(work, 'out-%d-%d' % (len(procs), k))
        log = open(out + '.log', 'wb')
        p = subprocess.Popen(JAVA + [HERE + '/harness/worker.py', prop, str(seed), tier] + tail[:2] + [out, str(budget)] + tail[2:],
                             stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=work, start_new_session=True)
        procs.append(p)
        mine.append((p, out))
    res = []
    until = deadline
    while [1 for p, out in mine if p.poll() is None] and time.time() < until:
        time.sleep(0.2)
        if until == deadline:
            for p, out in mine:
                # one violation decides; the others get a little time to tell of theirs
                if p.poll() is not None and os.path.exists(out) and json.load(open(out))['status'] == 'violation':
                    until = min(deadline, time.time() + 15)
    for p, out in mine:
        if p.poll() is None:
            res.append({'status': 'error', 'message': 'worker did not end in time'})
            continue
        if os.path.exists(out):
            res.append(json.load(open(out)))
        else:
            tail = open(out + '.log', 'rb').read()[-1500:].decode('latin1')
            res.append({'status': 'error', 'message': 'worker ended with %s and no result: %s' % (p.returncode, tail)})
        if args.v:
            sys.stderr.write(open(out + '.log', 'rb').read()[-20000:].decode('latin1'))
    return res


def main():
    if args.case is not None:
        results = run([['0', '1', str(args.case)]])
    else:
        results = run([[str(s), str(nsh)] for s in range(nsh)])
    # a case that seems to hang is decided by counting the steps it executes
    for r in list(results):
        if r['status'] == 'hang' and not [1 for x in results if x['status'] == 'violation']:
            if isinstance(r.get('case'), int):
                rr = run([['0', '1', str(r['case']), '40000000']])[0]
                if rr['status'] == 'ok' and rr.get('cpu_s', 99) < 40:
                    # not by itself, perhaps after the cases before it
                    rr = run([[str(r['shard']), str(nsh)]])[0]
                    if rr['status'] == 'hang' and rr.get('case') == r['case']:
                        rr.update(status='violation', key='endless', history=[],
                                  message='does not end after the cases before it, though it does by itself; so twice')
                if rr['status'] == 'ok':
                    rr.update(complete=False)
                r.clear()
                r.update(rr)
            else:
                r.update(status='error', message='no progress in %s' % r.get('case'))
    bad = [r for r in results if r['status'] == 'violation']
    err = [r for r in results if r['status'] == 'error']
    counters, keys, samples, findings, ev = {}, set(), [], {}, 0
    for r in results:
        for k, v in r.get('counters', {}).items():
            counters[k] = counters.get(k, 0) + v
        keys.update(r.get('keys', ()))
        samples += r.get('samples', [])[:2]
        findings.update(r.get('findings', {}))
        ev += r.get('evaluations', 0)
    cases = sum(r.get('cases', 0) for r in results)
    missing = []
    if args.case is None and not bad and not err:
        for k, v in cfg.get('need', {}).items():
            if counters.get(k, 0) < v:
                missing.append('%s: %d < %d' % (k, counters.get(k, 0), v))
        if ev == 0:
            missing.append('no monitor evaluation')
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {'evaluations': ev, 'distinct_nontrivial': len(keys), 'rule': cfg['rule'],
                     'samples': samples[:8] or ['(none)'], 'cases': cases,
                     'observed': dict(sorted(counters.items())), 'workers': len(results),
                     'stopped_by_time': [r['shard'] for r in results if r.get('complete') is False]},
        'assumptions': cfg.get('assumptions', []) + conf['assumptions'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if args.case is None:
        json.dump(evidence, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in sorted(findings):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, known[k]))
    if bad:
        r = bad[0]
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        path = os.path.join(HERE, 'evidence', 'replay', '%s-%s-%s.json' % (prop, seed, r.get('case')))
        json.dump({'property': prop, 'seed': seed, 'tier': tier, 'case': r.get('case'), 'key': r.get('key'), 'message': r.get('message'),
                   'history': r.get('history'), 'rerun': 'VERIF_SEED=%s VERIF_TIER=%s python3 check.py %s --case %s' % (seed, tier, prop, r.get('case'))},
                  open(path, 'w'), indent=1)
        for r in bad[:3]:
            print('%s case %s [%s] %s' % (prop, r.get('case'), r.get('key'), (r.get('message') or '')[:1500]))
            for h in (r.get('history') or [])[-12:]:
                print('    ', h[:300])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if err or missing:
        for r in err[:2]:
            print('%s INCONCLUSIVE: %s' % (prop, r.get('message')))
        for m in missing:
            print('%s INCONCLUSIVE: not enough observed: %s' % (prop, m))
        return 2
    print('%s held: %d cases, %d monitor evaluations, %d distinct non-trivial, %.1f s; %s' % (
        prop, cases, ev, len(keys), time.time() - t0, ', '.join('%s=%d' % kv for kv in sorted(counters.items()))))
    return 0


try:
    rc = main()
finally:
    cleanup()
sys.exit(rc)
