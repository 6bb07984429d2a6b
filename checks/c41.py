import os
import subprocess
import sys

from hypothesis import strategies as st
from pbt import Check, require, HarnessError
from gen import d
import raytools

CHECK = Check('C41', rule='cases: histories of up to 12 changes (set_raypath with base files and subfolders, edits and removal of '
              'the variable, changes of the working directory), imports in a new process, Radiance tools started afterwards. '
              'Non-trivial: the variable holds at least one entry that set_raypath did not add.',
              assumptions=['the variable is not empty (it is either absent or holds at least one character)'])
#: technique: property-based stateful testing: histories against a reference model

PKG = os.path.dirname(os.path.abspath(raytools.__file__))
entry = st.one_of(st.sampled_from(['.', '/usr/local/lib/ray', '/a', '/a/cal', 'rel/dir', '/b', '..', '/with space/x', '/a/', '@', './', '/A']),
                  st.text('ab/. _-é', min_size=1, max_size=6))
paths = st.lists(entry, min_size=1, max_size=7)
base = st.sampled_from([None, '/a/x.py', '/pkg/sub/__init__.py', 'rel/mod.py', '/b/c d/x.py', '/.x/y'])
subd = st.sampled_from(['default', 'cal', None, 'lib', 'a/b', 'cal', '.cal', '..', 'x.y/', 'C al'])


def model(before, bf, sd):
    """'.' and the folder of the files first, then what was there, each once"""
    folder = os.path.dirname(bf) if bf is not None else PKG
    if sd == 'default':
        sd = 'cal'
    if sd is not None:
        folder = folder + '/' + sd
    out = []
    for i in ['.', folder] + (before.split(':') if before is not None else []):
        if i not in out:
            out.append(i)
    return ':'.join(out)


def call(bf, sd):
    kw = {}
    if bf is not None:
        kw['basefile'] = bf
    if sd != 'default':
        kw['subd'] = sd
    return raytools.set_raypath(**kw)


op = st.one_of(st.tuples(st.just('set'), base, subd), st.tuples(st.just('set'), base, subd), st.tuples(st.just('env'), paths, st.just(0)),
               st.tuples(st.just('pop'), st.just(0), st.just(0)), st.tuples(st.just('cd'), st.sampled_from(['sub', '.', '/']), st.just(0)),
               st.tuples(st.just('again'), st.just(0), st.just(0)), st.tuples(st.just('add'), entry, st.booleans())).map(list)


@CHECK.sub('history', d(start=st.one_of(st.none(), paths), ops=st.lists(op, min_size=1, max_size=12)), quick=500, thorough=15000)
def history(case, rec):
    old, cwd = os.environ.get('RAYPATH'), os.getcwd()
    others = {k: v for k, v in os.environ.items() if k != 'RAYPATH'}
    cur = None if case['start'] is None else ':'.join(case['start'])
    mine = {'.', PKG + '/cal'}
    last = None
    try:
        os.makedirs('sub', exist_ok=True)
        os.environ.pop('RAYPATH', None)
        if cur is not None:
            os.environ['RAYPATH'] = cur
        for name, a, b in case['ops']:
            rec.label(name)
            if cur is not None and set(cur.split(':')) - mine:
                rec.nontrivial()
            if name == 'set' or name == 'again' and last is not None:
                if name == 'set':
                    last = (a, b)
                call(*last)
                cur = model(cur, *last)
                # a second call changes nothing
                call(*last)
            elif name == 'env':
                cur = ':'.join(a)
                os.environ['RAYPATH'] = cur
            elif name == 'add':
                cur = a if cur is None else cur + ':' + a if b else a + ':' + cur
                os.environ['RAYPATH'] = cur
            elif name == 'pop':
                cur = None
                os.environ.pop('RAYPATH', None)
            elif name == 'cd':
                os.chdir(cwd)
                os.chdir(a)
            got = os.environ.get('RAYPATH')
            require(got == cur, f'search path after {name}', got=got, want=cur)
        now = {k: v for k, v in os.environ.items() if k != 'RAYPATH'}
        require(now == others, 'other environment variables', got=sorted(set(now.items()) ^ set(others.items())))
    finally:
        os.chdir(cwd)
        os.environ.pop('RAYPATH', None)
        if old is not None:
            os.environ['RAYPATH'] = old


code = """
import os, sys
sys.path.insert(0, sys.argv[1])
{how}
print(repr(os.environ.get('RAYPATH')))
os.chdir(sys.argv[3])
for i in range(int(sys.argv[2])):
    raytools.set_raypath()
print(repr(os.environ.get('RAYPATH')))
"""
imports = st.sampled_from(['import raytools', 'from raytools import translate; import raytools', 'import raytools.io as q; import raytools',
                           'import raytools; from raytools.evaluate import MetricSet', 'from raytools import *; import raytools',
                           'import raytools; import importlib; importlib.reload(raytools)'])


@CHECK.sub('imported', d(start=st.one_of(st.none(), paths), how=imports, n=st.integers(0, 3), cd=st.sampled_from(['.', '/', 'sub'])), quick=8, thorough=60)
def imported(case, rec):
    """the variable of a process that imports the package"""
    cur = None if case['start'] is None else ':'.join(case['start'])
    rec.nontrivial(cur is not None)
    rec.label('absent' if cur is None else 'present', case['how'].split(';')[0])
    os.makedirs('sub', exist_ok=True)
    env = {k: v for k, v in os.environ.items() if k != 'RAYPATH'}
    if cur is not None:
        env['RAYPATH'] = cur
    r = subprocess.run([sys.executable, '-c', code.format(how=case['how']), os.path.dirname(PKG), str(case['n']), case['cd']],
                       env=env, capture_output=True, text=True)
    if r.returncode != 0 and 'raytools' not in r.stderr:
        raise HarnessError(r.stderr)
    require(r.returncode == 0, 'importing the package', stderr=r.stderr[-600:])
    got = [eval(i) for i in r.stdout.splitlines()]
    want = model(cur, None, 'default')
    require(got[0] == want, 'search path after import', got=got[0], want=want)
    require(got[1] == want, 'search path after further calls', got=got[1], want=want)


@CHECK.sub('found', d(start=st.one_of(st.none(), paths), local=st.booleans(), where=st.sampled_from(['sub', 'other', '.']), n=st.integers(0, 2)),
           quick=20, thorough=250)
def found(case, rec):
    """Radiance tools find the files of the package from any folder, files of the working directory first"""
    cals = sorted(i for i in os.listdir(PKG + '/cal') if i.endswith('.cal'))
    require(len(cals) > 0, 'files of the package')
    old, cwd = os.environ.get('RAYPATH'), os.getcwd()
    start = [i for i in (case['start'] or []) if i not in ('.', './', '..') and i.startswith('/')]
    rec.nontrivial(len(start) > 0)
    rec.label('local file' if case['local'] else 'package file')
    tmp = os.path.join(cwd, f'd{os.getpid()}')
    try:
        os.environ.pop('RAYPATH', None)
        if start:
            os.environ['RAYPATH'] = ':'.join(start)
        for _ in range(case['n'] + 1):
            raytools.set_raypath()
        os.makedirs(os.path.join(tmp, case['where']), exist_ok=True)
        os.chdir(os.path.join(tmp, case['where']))
        for c in cals:
            fs = os.path.join(PKG, 'cal', c)
            if case['local']:
                # a file in the working directory that hides the one of the package
                open(c, 'w').write('zz_local = 17;\n')
                r = subprocess.run(['rcalc', '-n', '-f', c, '-e', '$1=zz_local'], capture_output=True, text=True)
                os.remove(c)
                require(r.stdout.split() == ['17'], f'{c} of the working directory is used first', stdout=r.stdout, stderr=r.stderr)
            else:
                a = subprocess.run(['rcalc', '-n', '-f', c, '-e', '$1=1'], capture_output=True, text=True)
                b = subprocess.run(['rcalc', '-n', '-f', fs, '-e', '$1=1'], capture_output=True, text=True)
                require((a.stdout, a.stderr) == (b.stdout, b.stderr.replace(fs, c)), f'{c} of the package is found',
                        got=(a.stdout, a.stderr), want=(b.stdout, b.stderr))
                require('cannot find' not in a.stderr, f'{c} of the package is found', stderr=a.stderr)
    finally:
        os.chdir(cwd)
        os.environ.pop('RAYPATH', None)
        if old is not None:
            os.environ['RAYPATH'] = old
        for i in (case['where'], ''):
            try:
                os.rmdir(os.path.join(tmp, i) if i else tmp)
            except OSError:
                pass
