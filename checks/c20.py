import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
from gen import d, seeds
from raytools import io

CHECK = Check('C20', rule='cases: arrays of 1-4 dimensions whose last axis holds the channels, values over many decades and signs, '
              'coefficient vectors (also other channel counts), linear combinations; all exponents and mantissas of packed pixels. '
              'Non-trivial: channels and coefficients are all different.',
              assumptions=['packed pixels with exponent 0 only with zero mantissas (black)'])
#: technique: property-based testing: reference formula, linearity and per-pixel metamorphic relations

coef = st.one_of(st.none(), st.lists(gen.fl(-2, 2), min_size=3, max_size=3), st.lists(st.floats(0, 1), min_size=1, max_size=7))
DEF = (0.265, 0.670, 0.065)


@CHECK.sub('rgb', d(shape=st.lists(st.integers(1, 6), min_size=0, max_size=3), seed=seeds, k=coef, dec=st.integers(0, 12), neg=st.booleans(),
                    lay=gen.layout, a=st.floats(-3, 3), how=st.sampled_from(['tuple', 'list', 'array']), dt=st.sampled_from(['f8', 'f4', 'i8', 'u1'])),
           big=[(5, {'shape': st.lists(st.integers(40, 120), min_size=2, max_size=2)})], quick=800, thorough=20000)
def rgb(case, rec):
    k = case['k']
    n = 3 if k is None else len(k)
    sh = (*case['shape'], n)
    s = case['seed']
    x = 10 ** gen.noise(s, sh, -case['dec'], case['dec'])
    if case['neg']:
        x = x * np.where(gen.noise(s + 1, sh) < .3, -1, 1)
    y = gen.noise(s + 2, sh)
    if case['dt'] != 'f8':
        x = np.floor(gen.noise(s, sh, 0, 255)).astype(case['dt'])
    kk = np.array(DEF if k is None else k, float)
    rec.nontrivial(n > 1 and len(set(kk.tolist())) == n)
    rec.label(f'{len(sh)} dims', 'default' if k is None else f'{n} channels')
    args = () if k is None else ({'tuple': tuple, 'list': list, 'array': np.array}[case['how']](k),)
    xx = gen.lay(x, case['lay'])
    keep = xx.copy()
    want = sum(x[..., i].astype(float) * kk[i] for i in range(n))
    tol = 1e-12 * np.max(np.abs(x).astype(float)) * (np.max(np.abs(kk)) + 1e-9) * n
    close(io.rgb2rad(xx, *args), want, 'rgb2rad', atol=tol)
    close(io.rgb2lum(xx, *args), 179 * want, 'rgb2lum', atol=179 * tol)
    equal(xx, keep, 'input changed')
    if k is not None:
        close(io.rgb2rad(xx, vlambda=args[0]), want, 'rgb2rad by keyword', atol=tol)
        close(io.rgb2lum(xx, vlambda=args[0]), 179 * want, 'rgb2lum by keyword', atol=179 * tol)
    if case['dt'] == 'f8':
        a = case['a']
        for f, c in ((io.rgb2rad, 1), (io.rgb2lum, 179)):
            close(f(a * x + y, *args), a * f(x, *args) + f(y, *args), 'linear', atol=c * 20 * (tol * (1 + abs(a)) + 1e-11))
    if len(sh) > 1:
        i = tuple(gen.ints(s + 5, len(sh) - 1, 0, min(sh[:-1])))
        close(io.rgb2rad(x[i], *args), want[i], 'one pixel', atol=tol)
        p = np.argsort(gen.noise(s + 6, sh[0]), kind='stable')
        close(io.rgb2lum(x[p], *args), 179 * want[p], 'permuted pixels', atol=179 * tol)


@CHECK.sub('rgbe', d(px=st.lists(st.tuples(*[st.integers(0, 255)] * 4).map(list), min_size=0, max_size=5), n=st.integers(1, 300), seed=seeds,
                     dt=st.sampled_from(['u1', 'i8', 'i4', 'f8', 'i2', 'u1', 'u2']), lay=gen.layout, zeros=st.booleans()), big=[(5, {'n': gen.many})], quick=500, thorough=12000)
def rgbe(case, rec):
    s = case['seed']
    p = np.concatenate((np.array(case['px'], int).reshape(-1, 4), gen.ints(s, (case['n'], 4), 0, 256)))
    if case['zeros']:
        p[:, :3] = np.where(gen.noise(s + 1, (len(p), 3)) < .3, 0, p[:, :3])
    p[p[:, 3] == 0, :3] = 0
    rec.nontrivial(len(p) > 1)
    m = p[:, :3].astype(float)
    v = np.where(m == 0, 0, np.ldexp(m + .5, (p[:, 3:] - 136)))
    want = v @ np.array(DEF) * 179
    got = arr(io.rgbe2lum(gen.lay(p.astype(case['dt']), case['lay'])), (len(p),), 'rgbe2lum')
    close(got, want, 'rgbe2lum', rtol=1e-12, atol=0)
    require(not np.any(got[np.all(p[:, :3] == 0, 1)]), 'black')
    # brighter mantissas are never darker; one more exponent doubles
    q = p.copy()
    q[:, 3] = np.clip(q[:, 3], 1, 254)
    a, b = io.rgbe2lum(q), io.rgbe2lum(q + [0, 0, 0, 1])
    close(b, 2 * np.asarray(a), 'one more exponent', rtol=1e-12, atol=0)
