"""Plants bugs: `python3 tools/plant.py SPEC.py [id...]`.

SPEC.py defines BUGS, a list of dicts: id, property, needs, breaks, edits = [(file, old, new)], demo (python source).
Each bug is applied to a copy of /repo; it is kept in seeded/<id>/ when the existing tests pass with it and its
demonstration passes on /repo and fails on the copy. The property's quick check is then run against the copy
(VERIF_REPO) and the outcome printed. `--check` re-runs the checks of the bugs already kept.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
DEMO = '''#!/bin/bash
# exit 0 when the behaviour holds in the tree in the working directory
here=$(cd "$(dirname "$0")" && pwd)
export PATH="$PWD/radiance_depend/linux:/opt/venv/bin:/usr/local/bin:/usr/bin:/bin" PYTHONPATH="$PWD"
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
cd "$work" && timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', **(env or {}))
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def copy(ident):
    w = tempfile.mkdtemp(prefix=f'plant-{ident}-')
    shutil.rmtree(w)
    shutil.copytree('/repo', w, symlinks=True)
    return w


def tests(w):
    base = json.load(open('/opt/vp/BASELINE.json'))
    env = dict(PATH=f'{w}/radiance_depend/linux:/opt/venv/bin:/usr/bin:/bin', PYTHONPATH=w, PYTHONHASHSEED='0')
    code, out = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 tests '
                   f'--basetemp={w}-t', w, env)
    shutil.rmtree(f'{w}-t', ignore_errors=True)
    line = [l for l in out.splitlines() if 'passed' in l or 'failed' in l or 'error' in l][-1:]
    bad = [l for l in out.splitlines() if l.startswith(('FAILED', 'ERROR'))]
    return not bad and f'{42} passed' in (line or [''])[0], line + bad


def check(w, prop, seed='1'):
    code, out = sh(f'{ROOT}/bin/check {prop} --tier quick', ROOT, dict(VERIF_REPO=w, VERIF_SEED=seed,
                                                                      VERIF_EVIDENCE=tempfile.gettempdir()))
    v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
    return code, v, out


def original(diff):
    """whether the patch changes lines that no "fix:" commit added"""
    own = set(subprocess.run("git log --format=%H --grep='^fix:'", shell=True, cwd='/repo', text=True,
                             stdout=subprocess.PIPE).stdout.split())
    f, n, lines = None, 0, []
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
        elif l.startswith('@@'):
            n = int(l.split()[1].split(',')[0][1:])
        elif l.startswith('-') and not l.startswith('---'):
            lines.append((f, n))
            n += 1
        elif l.startswith(' ') or l == '':
            n += 1
    mine = []
    for f, n in lines:
        b = subprocess.run(['git', 'blame', '-l', '-s', f'-L{n},{n}', 'HEAD', '--', f], cwd='/repo', text=True,
                           stdout=subprocess.PIPE).stdout
        mine.append(b.split()[0].lstrip('^') in own)
    return '' if lines and not any(mine) else f' OWN-LINES {sum(mine)}/{len(mine)}'


def plant(bug):
    ident = bug['id']
    w = copy(ident)
    try:
        for f, old, new in bug['edits']:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return ident, f'EDIT matches {s.count(old)} times: {old!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff', '--no-color'], cwd=w, stdout=subprocess.PIPE, text=True).stdout
        d = os.path.join(SEEDED, ident)
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.py', 'w').write(bug['demo'].lstrip('\n'))
        open(f'{d}/demo.sh', 'w').write(DEMO)
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump(dict(property=bug['property'], needs=bug['needs'], what_it_breaks=bug['breaks']),
                  open(f'{d}/meta.json', 'w'), indent=1)
        c0, o0 = sh(f'bash {d}/demo.sh', '/repo')
        c1, o1 = sh(f'bash {d}/demo.sh', w)
        ok, tl = tests(w)
        good = c0 == 0 and c1 != 0 and ok
        msg = f'demo {c0}/{c1} tests {"ok" if ok else tl}' + original(diff)
        if not good:
            shutil.rmtree(d)
            return ident, 'REJECTED ' + msg + '\n' + o0[-600:] + '\n---\n' + o1[-600:]
        code, v, out = check(w, bug['property'])
        return ident, ('CAUGHT ' if v else 'MISSED ') + f'{msg} check rc={code} {v[:1]}' + \
            ('' if code in (0, 1) else '\n' + out[-800:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


def recheck(ident):
    w = copy(ident)
    try:
        m = json.load(open(f'{SEEDED}/{ident}/meta.json'))
        c, o = sh(f'git apply {SEEDED}/{ident}/patch.diff', w)
        if c:
            return ident, 'NO APPLY ' + o
        code, v, out = check(w, m['property'], os.environ.get('VERIF_SEED', '1'))
        return ident, ('CAUGHT ' if v else 'MISSED ') + f'rc={code} {v[:1]}' + \
            original(open(f'{SEEDED}/{ident}/patch.diff').read())
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    args = sys.argv[1:]
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
        if args[0] == '--check':
            todo = args[1:] or sorted(os.listdir(SEEDED))
            for r in ex.map(recheck, todo):
                print(*r, flush=True)
        else:
            bugs = runpy.run_path(args[0])['BUGS']
            todo = [b for b in bugs if not args[1:] or b['id'] in args[1:]]
            for r in ex.map(plant, todo):
                print(*r, flush=True)
