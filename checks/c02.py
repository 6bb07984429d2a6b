import subprocess
import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr, fail
import gen
from gen import d, fl, seeds
from raytools import translate as tr

CHECK = Check('C02', rule='cases: side length, bin numbers (explicit extremes plus hash noise), interior offsets, '
              'directions, tolerances. Non-trivial: side > 1.',
              assumptions=['the exact coordinate v=1 (and u=1 or u=2), where the published .cal wraps to the '
                           'first cell, is outside the domain'])
side = st.one_of(st.integers(1, 40), st.sampled_from([1, 2, 3, 7, 18, 64, 100, 255, 256, 1000]))
off = st.floats(0.001, 0.999)


def bins_of(case, total):
    n = case['n']
    b = gen.ints(case['seed'], (n,), 0, total)
    return np.unique(np.concatenate((b, [0, total - 1, total // 2]))) if case['uniq'] else \
        np.concatenate((b, [0, total - 1]))


@CHECK.sub('bins', d(side=side, n=st.integers(0, 500), seed=seeds, off=st.one_of(st.none(), off),
                     uniq=st.booleans(), aspect2=st.booleans(), lay=gen.layout, scalar=st.booleans()),
           big=[(8, {'n': gen.many, 'side': st.integers(100, 40000)})], quick=600, thorough=20000)
def bins(case, rec):
    s = case['side']
    total = s * s * (2 if case['aspect2'] else 1)
    b = bins_of(case, total)
    rec.nontrivial(s > 1)
    rec.label('both squares' if case['aspect2'] else 'one square')
    src = gen.lay(b, case['lay'])
    o = 0.5 if case['off'] is None else case['off']
    uv = tr.bin2uv(src, s) if case['off'] is None else tr.bin2uv(src, s, offset=o)
    uv = arr(uv, (len(b), 2), 'bin2uv')
    row, col = b // s, b % s
    close(uv, np.stack(((row + o) / s, (col + o) / s), 1), 'bin2uv cell position', atol=1e-12)
    back = arr(tr.uv2bin(uv, s), (len(b),), 'uv2bin')
    require(back.dtype.kind in 'iu', 'uv2bin is not an integer', dtype=str(back.dtype))
    equal(back, b, 'uv2bin(bin2uv(b))')
    equal(tr.uv2ij(uv, s), np.stack((row, col), 1), 'uv2ij (aspect 2)')
    equal(tr.uv2ij(uv, s, aspect=1), np.stack((row % s, col), 1), 'uv2ij (aspect 1)')
    if case['scalar']:
        rec.label('scalar')
        k = int(b[-1])
        one = np.asarray(tr.bin2uv(k, s, offset=o), float).ravel()
        close(one, [(k // s + o) / s, (k % s + o) / s], 'bin2uv scalar', atol=1e-12)
        equal(np.ravel(tr.uv2bin(one, s)), [k], 'uv2bin of a flat coordinate')


@CHECK.sub('cells', d(side=side, c=d(n=st.integers(1, 2000), seed=seeds), p=st.lists(
    st.tuples(st.integers(0, 2000), st.integers(0, 1000), off, off), max_size=5)), big=[(5, {'c.n': gen.many, 'side': st.integers(100, 40000)})], quick=400, thorough=10000)
def cells(case, rec):
    """a coordinate lies in the cell reported for it"""
    s = case['side']
    uv = gen.noise(case['c']['seed'], (case['c']['n'], 2)) * [[2, 1]]
    p = np.array([((i % (2 * s) + a) / s, (j % s + b) / s) for i, j, a, b in case['p']]).reshape(-1, 2)
    uv = np.concatenate((uv, p))
    rec.nontrivial(s > 1)
    ij = arr(tr.uv2ij(uv, s), uv.shape, 'uv2ij')
    require(np.all(ij >= 0) and np.all(ij < [[2 * s, s]]), 'cell index out of range')
    require(np.all(ij / s <= uv + 1e-9) and np.all(uv <= (ij + 1) / s + 1e-9), 'coordinate outside its cell')
    equal(tr.uv2bin(uv, s), ij[:, 0] * s + ij[:, 1], 'uv2bin vs uv2ij')


@CHECK.sub('sky', d(side=side, n=st.integers(0, 300), seed=seeds, uniq=st.booleans(), scale=st.one_of(
    st.none(), gen.logfl(1e-3, 1e3))), big=[(6, {'n': gen.many, 'side': st.integers(20, 300)}), (8, {'n': gen.some, 'side': st.integers(1000, 30000)})], quick=400, thorough=10000)
def sky(case, rec):
    s = case['side']
    b = bins_of(case, s * s)
    rec.nontrivial(s > 1)
    v = arr(tr.skybin2xyz(b, s), (len(b), 3), 'skybin2xyz')
    close(np.linalg.norm(v, axis=1), np.ones(len(b)), 'norm of sky patch directions')
    require(np.all(v[:, 2] >= -1e-12), 'sky patch below the horizon')
    close(v, tr.uv2xyz(np.stack(((b // s + .5) / s, (b % s + .5) / s), 1)), 'patch centre')
    if case['scale'] is None:
        back = tr.xyz2skybin(v, s)
    else:
        back = tr.xyz2skybin(v * case['scale'], s, normalize=True)
    equal(arr(back, (len(b),), 'xyz2skybin'), b, 'xyz2skybin(skybin2xyz(b))')
    # ground
    g = np.concatenate((b[:20] + s * s, [s * s, 2 * s * s - 1]))
    close(tr.skybin2xyz(g, s), np.broadcast_to((0, 0, -1.), (len(g), 3)), 'ground bins point down')
    w = gen.sphere(case['seed'], 100)
    w[:, 2] = -np.abs(w[:, 2]) - 1e-6
    w = gen.unit(w)
    require(np.all(tr.xyz2skybin(w, s) >= s * s), 'direction below the horizon in a sky patch')
    w[:, 2] *= -1
    k = arr(tr.xyz2skybin(w, s), (100,), 'xyz2skybin')
    require(np.all((k >= 0) & (k < s * s)), 'direction above the horizon outside the sky patches')
    uv = tr.xyz2uv(w)
    e = np.floor(uv * s)
    far = np.all(np.abs(uv * s - np.round(uv * s)) > 1e-6, 1)
    equal(k[far], (e[:, 0] * s + e[:, 1])[far], 'sky patch of a direction')


@CHECK.sub('tolerance', d(side=st.integers(1, 60), i=st.integers(0, 3600), j=st.integers(0, 3600),
                          o=st.tuples(*[st.one_of(st.floats(.02, .98), st.sampled_from([.5, .25]))] * 2), tol=st.one_of(fl(.01, .99, (.51, .5)), st.floats(.01, 5), st.sampled_from([1.5, 2.25, 100.3])),
                          edge=st.sampled_from(['', 'lo', 'hi'])), big=[(4, {'side': st.integers(100, 250)})], quick=600, thorough=20000)
def tolerance(case, rec):
    s = case['side']
    i, j = case['i'] % s, case['j'] % s
    if case['edge']:
        i = 0 if case['edge'] == 'lo' else s - 1
        rec.label('border patch')
    o = np.array(case['o'])
    t = case['tol']
    ends = np.concatenate((o - t, o + t))
    uv = np.array([[(i + o[0]) / s, (j + o[1]) / s]])
    v = tr.uv2xyz(uv)
    rec.nontrivial(s > 1)
    got = np.asarray(tr.xyz2skybin(v[0], s, tol=t))

    def reach(t):
        want = []
        for a in range(int(np.floor(o[0] - t)), int(np.floor(o[0] + t)) + 1):
            for b in range(int(np.floor(o[1] - t)), int(np.floor(o[1] + t)) + 1):
                if 0 <= i + a < s and 0 <= j + b < s:
                    want.append((i + a) * s + j + b)
        return want
    want = reach(t)
    if np.any(np.abs(ends - np.round(ends)) < 1e-4):
        # neighbours that are only touched are optional
        rec.label('tolerance ends on a cell border')
        require(set(reach(t - 2e-4)) <= set(got.tolist()) <= set(reach(t + 2e-4)), 'patches within tolerance', got=got,
                least=reach(t - 2e-4), most=reach(t + 2e-4))
        equal(got, np.unique(got), 'sorted patches without repeats')
        return
    rec.label(f'{len(want)} patches')
    equal(got, sorted(want), 'patches within tolerance')
    v[0, 2] = -v[0, 2]
    require(np.size(tr.xyz2skybin(v, s, tol=t)) == 0, 'tolerance patches for a direction below the horizon')


@CHECK.sub('published_cal', d(side=st.one_of(st.sampled_from([1, 2, 3, 5, 16, 18, 31, 64]), st.integers(1, 80)), n=st.integers(20, 300), seed=seeds),
           quick=25, thorough=400)
def published_cal(case, rec):
    """the .cal text published by the module, run by Radiance's rcalc"""
    s = case['side']
    rec.nontrivial(s > 1)
    v = gen.sphere(case['seed'], case['n'])
    v = v[np.abs(v[:, 2]) > 1e-4]
    import raytools
    import os
    env = dict(os.environ)
    exp = tr.scbinscal.replace('\n', '')

    def rcalc(expr, data, nin, outs):
        cmd = ['rcalc', f'-id{nin}', '-od', '-f', 'rayinit.cal', '-e', f'side={s}', '-e', expr]
        for o in outs:
            cmd += ['-e', o]
        p = subprocess.run(cmd, input=np.asarray(data, '<f8').tobytes(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=env)
        if p.returncode or p.stderr.strip():
            fail('rcalc rejects the published .cal', msg=p.stderr.decode()[:300])
        return np.frombuffer(p.stdout, '<f8').reshape(-1, len(outs))

    r = rcalc('Dx=$1;Dy=$2;Dz=$3;' + exp, v, 3, ['$1=bin'])[:, 0]
    uv = tr.xyz2uv(v)
    far = np.all(np.abs(uv * s - np.round(uv * s)) > 1e-6, 1)
    up = far & (v[:, 2] > 0)
    equal(tr.xyz2skybin(v, s)[up], r[up], 'xyz2skybin vs scbinscal')
    require(np.all(r[v[:, 2] < 0] == s * s), 'scbinscal below the horizon')
    require(np.all(tr.xyz2skybin(v, s)[v[:, 2] < 0] >= s * s), 'xyz2skybin below the horizon')
    b = np.unique(gen.ints(case['seed'], (200,), 0, s * s))
    xyz = rcalc('bin=$1;' + tr.scxyzcal.replace('\n', ''), b, 1, ['$1=Dx', '$2=Dy', '$3=Dz'])
    close(tr.skybin2xyz(b, s), xyz, 'skybin2xyz vs scxyzcal', atol=1e-6)
