import io as stdio
import os

import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close
import cli
import gen
from gen import d, seeds
from raytools import translate

CHECK = Check('C39', rule='cases: tables of 3-60 rows and 1-6 columns, sorted or not, with repeated x, of different scales, written in several number formats; every x column, '
              'lists of y columns (repeated, negative, none), explicit coordinates, ranges or counts, given or default width, factors. '
              'Non-trivial: the data and the requested output have more than two different values.',
              assumptions=['x has at least three rows and is not constant', 'coordinates are given with at most six decimals'])
#: technique: property-based testing: differential against an independent kernel average and density, metamorphic (scale and offset of x, split into columns)

CELLS = st.sampled_from(['{:.6f}', '{:.10g}', '{!r}', '{:.4e}'])
tab = d(n=st.one_of(st.integers(3, 60), st.integers(3, 8)), cols=st.integers(1, 6), seed=seeds, order=st.sampled_from(['sorted', 'random', 'random', 'reversed']), ties=st.booleans(),
        scale=st.one_of(st.sampled_from([1, 1, .01, 100, 1e4]), gen.logfl(1e-3, 1e4)), shift=st.one_of(st.sampled_from([0, 0, 50, -3]), st.floats(-80, 80)), cell=CELLS, sep=st.sampled_from(['\t', ' ', '   ']), comment=st.booleans(), name=st.sampled_from(['data.txt', 'my data.tsv', 'sub/x']))


def write(c, col):
    n, s = c['n'], c['seed']
    a = gen.noise(s, (n, c['cols']), -4, 9)
    x = np.sort(gen.noise(s + 1, (n,), 0, 10))
    if c['ties']:
        x = np.round(x)
        x[0], x[-1] = 0, 10
    x = (x + c['shift']) * c['scale']
    if c['order'] == 'reversed':
        x = x[::-1]
    elif c['order'] == 'random':
        x = x[np.argsort(gen.bits(s + 2, n))]
    a[:, col] = x
    if os.path.dirname(c['name']):
        os.makedirs(os.path.dirname(c['name']), exist_ok=True)
    t = [c['sep'].join(c['cell'].format(float(v)) for v in r) for r in a]
    if c['comment']:
        t.insert(0, '# x and y')
    open(c['name'], 'w').write('\n'.join(t) + '\n')
    return np.array([[float(v) for v in r.split()] for r in t if r[0] != '#'])


def kernel(x, y, x0, s):
    """weighted mean of the columns y (n,k) at x0; None where the weights vanish"""
    e = -.5 * ((x - x0) / s) ** 2
    if np.max(e) < -690 + np.log(s):
        return None
    w = np.exp(e - np.max(e))
    return w @ y / np.sum(w)


def run(*a):
    code, out, err = cli.run(['smooth', *a])
    require(code == 0, 'command failed', code=code, err=err[-600:])
    t = out.decode()
    require(t.endswith('\n') or not t, 'output ends with a line')
    rows = [i.split(' ') for i in t.splitlines()]
    return np.array([[float(v) for v in r] for r in rows])


opts = d(t=tab, x=st.integers(-6, 5), y=st.one_of(st.none(), st.lists(st.integers(-6, 5), min_size=1, max_size=2), st.lists(st.integers(-6, 5), min_size=2, max_size=4)), width=st.one_of(st.none(), st.floats(.05, 3)), sf=st.one_of(st.sampled_from([None, None, 1, .5, 2.5]), st.floats(.2, 4)),
         out=st.sampled_from(['count', 'count', 'list', 'list', 'range'] * 4 + [None]), count=st.integers(1, 40), at=st.lists(st.floats(-.2, 1.2), min_size=2, max_size=7))


def prepare(case):
    t = case['t']
    k = t['cols']
    x = (case['x'] + 6) % k - (k if case['x'] < 0 else 0)
    data = write(t, x)
    args, dx = [], data[:, x]
    if x != 0 or t['seed'] % 2:
        args += ['-x', x]
    y = None
    if case['y'] is not None:
        y = [(i + 6) % k - (k if i < 0 else 0) for i in case['y']]
        args += ['-y', ' '.join(map(str, y))]
    sigma = np.std(dx, ddof=1) * len(dx) ** -.2
    if case['width'] is not None:
        sigma = float(f'{case["width"] * t["scale"]:.8g}')
        args += ['-sigma', repr(sigma)]
    if case['sf'] is not None:
        sigma = sigma * case['sf']
        args += ['-sf', case['sf']]
    lo, hi = dx.min(), dx.max()
    if case['out'] is None:
        xo = np.linspace(lo, hi, 1000)
    elif case['out'] == 'count':
        xo = np.linspace(lo, hi, case['count'])
        args += ['-x_out', case['count']]
    elif case['out'] == 'list':
        xo = [round(float(lo + (hi - lo) * v), 6) for v in case['at']]
        args += ['-x_out', ' '.join(map(repr, xo))]
    else:
        a, n = round(float(lo)), case['count'] + 1
        step = max(1, round((hi - lo) / n))
        args += ['-x_out', f'{a}:{a + n * step}:{step}']
        xo = [a + i * step for i in range(n)]
    return data, dx, y, sigma, np.array(xo, float), args


def same(got, want):
    if any(np.any(~np.isfinite(w)) for w in want):
        return
    close(got, want, 'smoothed values', rtol=1e-7, atol=1e-7 * np.max(np.abs(want)))


@CHECK.sub('columns', opts, quick=250, thorough=4000)
def columns(case, rec):
    case = dict(case, y=case['y'] or [0])
    data, dx, y, sigma, xo, args = prepare(case)
    rec.label(str(case['out']), f'{len(y)} columns', 'width' if case['width'] else 'default width', case['t']['order'])
    rec.nontrivial(len(set(np.ravel(data[:, y]))) > 2 and len(xo) > 2)
    got = run(case['t']['name'], *args)
    require(got.shape == (len(xo), 1 + len(y)), 'lines and values per line', got=got.shape, want=(len(xo), 1 + len(y)))
    close(got[:, 0], xo, 'coordinates', rtol=1e-9, atol=1e-9)
    some = np.linspace(0, len(xo) - 1, 60).astype(int) if len(xo) > 60 else np.arange(len(xo))
    want = np.array(got[:, 1:])
    skipped = 0
    for i in some:
        w = kernel(dx, data[:, y], xo[i], sigma)
        if w is None:
            skipped += 1
        else:
            want[i] = w
    same(got[:, 1:], want)
    if skipped:
        rec.label('gaps')
    if case['out'] is None:
        return
    lib = translate.non_uniform_gaussian_filter(dx, data[:, y].T, xo, sigma=sigma, bw=None)
    same(got[:, 1:], lib.T)


@CHECK.sub('density', opts, quick=400, thorough=3000)
def density(case, rec):
    case = dict(case, y=None)
    data, dx, y, sigma, xo, args = prepare(case)
    rec.label(str(case['out']), 'width' if case['width'] else 'default width', f'scale {case["t"]["scale"]}')
    rec.nontrivial(len(xo) > 2)
    got = run(case['t']['name'], *args)
    require(got.shape == (len(xo), 2), 'lines and values per line', got=got.shape, want=(len(xo), 2))
    close(got[:, 0], xo, 'coordinates', rtol=1e-9, atol=1e-9)
    want = np.mean(np.exp(-.5 * ((xo[:, None] - dx) / sigma) ** 2), 1) / (sigma * np.sqrt(2 * np.pi))
    close(got[:, 1] * sigma, want * sigma, 'density of x', rtol=1e-7, atol=1e-12)


@CHECK.sub('relations', d(t=tab, k=st.sampled_from([2, .5, 16]), off=st.sampled_from([0, 0, 4, -8]), count=st.integers(2, 30), y=st.booleans(), sf=st.one_of(st.sampled_from([None, .5]), st.floats(.3, 3))), quick=100, thorough=1500)
def relations(case, rec):
    """default width: another unit of x gives the same curve, rows in any order, columns together or alone"""
    t = dict(case['t'], cell='{!r}', scale=1, cols=max(case['t']['cols'], 3))
    data = write(t, 0)
    rec.nontrivial(case['count'] > 3)
    args = ['-x_out', case['count']] + (['-sf', case['sf']] if case['sf'] else [])
    both = run(t['name'], *args, *(['-y', '1 2'] if case['y'] else []))
    other = np.array(data)
    other[:, 0] = (other[:, 0] + case['off']) * case['k']
    p = np.argsort(gen.bits(t['seed'] + 9, len(data)))
    np.savetxt('other.txt', other[p], fmt='%.17g')
    o = run('other.txt', *args, *(['-y', '1 2'] if case['y'] else []))
    close(o[:, 0], (both[:, 0] + case['off']) * case['k'], 'coordinates', rtol=1e-8, atol=1e-8)
    v = 1 if case['y'] else case['k']
    close(o[:, 1:] * v, both[:, 1:], 'other units', rtol=1e-6, atol=1e-6 * np.max(np.abs(both[:, 1:])))
    if case['y']:
        one = run(t['name'], *args, '-y', '2')
        close(one[:, 1], both[:, 2], 'column alone', rtol=1e-12)
        lo, hi = data[:, 1:3].min(0), data[:, 1:3].max(0)
        require(np.all(both[:, 1:] >= lo - 1e-9) and np.all(both[:, 1:] <= hi + 1e-9), 'within the range of the data')
    else:
        require(np.all(both[:, 1] >= 0), 'densities are not negative')


@CHECK.sub('errors', d(kind=st.sampled_from(['missing', 'text', 'column', 'y', 'width', 'coordinates']), seed=seeds), quick=30, thorough=300)
def errors(case, rec):
    k = case['kind']
    rec.nontrivial()
    rec.label(k)
    f = 'data.txt'
    np.savetxt(f, gen.noise(case['seed'], (8, 3), 0, 5))
    a = {'column': ['-x', 3 + case['seed'] % 4], 'y': ['-y', '0 3'], 'width': ['-sigma', 'wide'], 'coordinates': ['-x_out', '1 2 x']}.get(k, [])
    if k == 'missing':
        f = 'nothere.txt'
    elif k == 'text':
        open(f, 'a').write('1 2 three\n')
    code, out, err = cli.run(['smooth', f, *a])
    require(code != 0, 'an error code', out=out[:200])
    require(out == b'', 'no output', out=out[:200])
