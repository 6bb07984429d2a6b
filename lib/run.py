"""run.py <PROPERTY> [--tier T] [--replay FILE] [--sub NAME]"""
import argparse
import importlib
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt  # noqa: E402

KNOWN = os.path.join(pbt.HOME, 'known-findings.txt')


def known_findings(prop):
    """finding: property=<id> key=<key> <text>   |   fixed: ... (ignored)"""
    out = {}
    with open(KNOWN) as f:
        for line in f:
            if line.startswith('finding:'):
                w = line.split(None, 3)
                if w[1] == f'property={prop}':
                    out[w[2].split('=', 1)[1]] = w[3].strip()
    return out


def worker(check, sub, tier, seed, examples, path, scratch):
    code = 0
    log = os.open(path + '.log', os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
    sys.stdout.flush()
    sys.stderr.flush()
    os.dup2(log, 1)
    os.dup2(log, 2)
    try:
        os.makedirs(scratch)
        os.chdir(scratch)
        tempfile.tempdir = scratch
        os.environ['TMPDIR'] = scratch
        r = pbt.run_sub(check, sub, tier, seed, examples)
        with open(path, 'w') as f:
            json.dump(r, f)
    except BaseException:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.stderr.flush()
    for p in multiprocessing.active_children():
        p.kill()
    os._exit(code)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--sub')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.path.insert(0, os.path.join(pbt.HOME, 'checks'))
    mod = importlib.import_module(a.prop.lower())
    check = mod.CHECK
    import raytools
    src = os.path.realpath(raytools.__file__)
    if not src.startswith(pbt.REPO + os.sep):
        print(f'error: raytools imported from {src}, not {pbt.REPO}', file=sys.stderr)
        return 2
    scratch = tempfile.mkdtemp(prefix=f'verif-{a.prop}-')
    try:
        return run(a, check, seed, t0, scratch)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def replay(a, check, scratch):
    with open(a.replay) as f:
        r = json.load(f)
    sub = check.subs[r['sub']]
    os.chdir(scratch)
    tempfile.tempdir = scratch
    cases = r.get('history') or [r['case']]
    for case in cases:
        try:
            pbt.evaluate(sub, case, pbt.Recorder())
        except (pbt.Violation, pbt.Hang) as ex:
            print(f'{sub.name}: {ex}')
            print(f'VIOLATION property={check.prop} replay={a.replay}')
            return 1
    print('replayed: the property holds on this case')
    return 0


def run(a, check, seed, t0, scratch):
    if a.replay:
        return replay(a, check, scratch)
    subs = [s for s in check.subs.values() if a.sub in (None, s.name)]
    if a.scale != 1:
        subs = [s._replace(quick=max(1, int(s.quick * a.scale)),
                           thorough=max(1, int(s.thorough * a.scale))) for s in subs]
    ctx = multiprocessing.get_context('fork')
    pending, running, results = list(subs), {}, {}
    nproc = max(1, min(8, os.cpu_count() or 1))
    times = {}
    while pending or running:
        while pending and len(running) < nproc:
            s = pending.pop(0)
            path = os.path.join(scratch, f'{s.name}.json')
            ex = [c for n, c in check.examples if n == s.name]
            p = ctx.Process(target=worker, args=(check, s, a.tier, seed, ex, path,
                                                 os.path.join(scratch, s.name)))
            p.start()
            times[s.name] = time.time()
            running[s.name] = (p, path)
        for n, (p, path) in list(running.items()):
            p.join(0.02)
            if p.exitcode is not None:
                del running[n]
                times[n] = time.time() - times[n]
                try:
                    with open(path) as f:
                        results[n] = json.load(f)
                except (OSError, ValueError):
                    with open(path + '.log', errors='replace') as f:
                        log = f.read()[-2000:]
                    results[n] = dict(result='error', msg=f'worker ended with {p.exitcode}\n{log}',
                                      evaluations=0, nontrivial=0, labels={}, excluded={}, samples=[])
    status = 0
    violations = 0
    # known findings: each listed case is executed and must still fail
    known = known_findings(check.prop)
    found = []
    os.makedirs(os.path.join(pbt.HOME, 'replays'), exist_ok=True)

    def report(name, r):
        path = os.path.join(pbt.HOME, 'replays', f'{check.prop}-{name}.json')
        d = dict(property=check.prop, sub=r.get('sub', name), case=r['case'], message=r['msg'], seed=seed)
        if r.get('history'):
            d['history'] = r['history']
        with open(path, 'w') as f:
            json.dump(d, f, indent=1)
        print(f'{name}: {r["msg"]}')
        print(f'  case: {json.dumps(r["case"])[:2000]}')
        print(f'VIOLATION property={check.prop} replay={path}')

    os.chdir(scratch)
    tempfile.tempdir = scratch
    for fd in check.findings:
        if a.sub not in (None, fd.sub):
            continue
        try:
            pbt.evaluate(check.subs[fd.sub], json.loads(json.dumps(fd.case)), pbt.Recorder())
        except pbt.Violation as ex:
            if fd.key in known:
                print(f'KNOWN-FINDING: property={check.prop} {fd.key}: {known[fd.key]}')
                found.append(fd.key)
            else:
                violations += 1
                report(f'finding-{fd.key}', dict(sub=fd.sub, case=fd.case, msg=str(ex)))
        except BaseException as ex:
            print(f'error: finding {fd.key}: {ex!r}', file=sys.stderr)
            status = 2
    for n, r in results.items():
        if r['result'] == 'violation':
            violations += 1
            report(n, r)
        elif r['result'] == 'error':
            print(f'error: {check.prop}/{n}: {r["msg"]}', file=sys.stderr)
            status = 2
    if violations:
        status = 1
    ev = dict(
        property=check.prop, tier=a.tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=sum(r['evaluations'] for r in results.values()),
            distinct_nontrivial=sum(r['nontrivial'] for r in results.values()),
            rule=check.rule,
            samples=[dict(sub=n, case=c) for n, r in results.items() for c in trim(r['samples'])],
            subchecks={n: dict(result=r['result'], requested=r.get('requested'),
                               evaluations=r['evaluations'], distinct_nontrivial=r['nontrivial'],
                               classes=r['labels'], excluded=r['excluded'],
                               wall_s=round(times[n], 2))
                       for n, r in results.items()},
            explicit_cases=len(check.examples), known_findings_reproduced=found),
        assumptions=check.assumptions, wall_s=round(time.time() - t0, 2), violations=violations)
    if a.sub is None:
        os.makedirs(os.path.join(pbt.HOME, 'evidence'), exist_ok=True)
        with open(os.path.join(pbt.HOME, 'evidence', f'{check.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    c = ev['coverage']
    print(f'{check.prop} {a.tier} seed={seed}: {c["evaluations"]} cases, '
          f'{c["distinct_nontrivial"]} distinct non-trivial, {violations} violations, '
          f'{ev["wall_s"]} s')
    for n, r in results.items():
        print(f'   {n}: {r["evaluations"]} / {r["nontrivial"]} nt, {times[n]:.1f} s  '
              + ' '.join(f'{k}={v}' for k, v in list(r['labels'].items())[:14]))
    return status


def trim(samples):
    return [s for s in samples if len(json.dumps(s)) < 3000][:2]


if __name__ == '__main__':
    sys.exit(main())
