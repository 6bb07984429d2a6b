import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
from gen import d, fl, seeds
from raytools import translate as tr

CHECK = Check('C07', rule='cases: data (distinct noise or small integers with ties), weights (noise over several '
              'decades, some exactly at or below the threshold), quantile vectors incl. 0, 1 and values next to them. '
              'Non-trivial: at least 3 included samples.')
qv = st.one_of(st.floats(0, 1), st.sampled_from([0., 1., .5, 1 - 1e-6, 1 - 1e-9, 1e-6, .999999]))
common = dict(n=st.integers(1, 200), seed=seeds, q=st.lists(qv, min_size=1, max_size=8),
              t=st.sampled_from([0.0, 0.0, .25, .5]), decades=st.sampled_from([0, 1, 4, 8]),
              zeros=st.booleans(), ties=st.booleans(), lay=gen.layout)


def make(case):
    n, s = case['n'], case['seed']
    if case['ties']:
        x = gen.ints(s, (n,), -4, 5).astype(float)
    else:
        x = gen.noise(s, (n,), -10, 10)
    w = 10 ** (-case['decades'] * gen.noise(s + 1, (n,)))
    if case['zeros']:
        w[gen.bits(s + 2, n) % np.uint64(3) == 0] = 0
        w[gen.bits(s + 3, n) % np.uint64(7) == 0] = case['t']
    w[0] = 1.0
    if case['ties']:
        # among equal values the order decides how weight is attributed;
        # equal weights make it irrelevant
        k = np.unique(x, return_inverse=True)[1]
        v = w.copy()
        v[0] = 1
        w = v[np.array([np.flatnonzero(k == i)[0] for i in k])]
        w[x == x[0]] = 1.0
    return x, w


def ref(x, w, q, t):
    o = np.argsort(x, kind='stable')
    x, w = x[o], w[o]
    x, w = x[w > t], w[w > t]
    p = np.concatenate(([0], np.cumsum(w[1:])))
    return np.interp(np.asarray(q) * p[-1], p, x)


@CHECK.sub('reference', d(**common, scalar=st.booleans(), shape2=st.booleans(), kt=st.booleans()),
           big=[(5, {'n': gen.many})], quick=1000, thorough=30000)
def reference(case, rec):
    x, w = make(case)
    q, t = case['q'], case['t']
    inc = w > t
    rec.nontrivial(np.sum(inc) > 2)
    rec.label('1 included' if np.sum(inc) == 1 else '2+ included', 'ties' if case['ties'] else 'distinct')
    if any(1 - 1e-5 < i < 1 for i in q):
        rec.label('q just below 1')
    a, b = gen.lay(x, case['lay']), gen.lay(w, case['lay'])
    if case['shape2'] and len(x) % 2 == 0:
        a, b = a.reshape(2, -1), b.reshape(2, -1)
    if case['scalar']:
        q = q[0]
    kw = dict(t=t) if case['kt'] or t else {}
    got = arr(tr.weighted_quantile(a, b, q, **kw), np.shape(q), 'weighted_quantile')
    close(got, ref(x, w, q, t), 'weighted quantile', atol=1e-7)
    lo, hi = x[inc].min(), x[inc].max()
    require(np.all(got >= lo - 1e-12) and np.all(got <= hi + 1e-12), 'quantile outside the data')
    ends = tr.weighted_quantile(a, b, [0, 1], **kw)
    equal(ends, [lo, hi], 'quantiles 0 and 1')
    grid = np.sort(np.concatenate((np.linspace(0, 1, 41), 1 - 10. ** -np.arange(2, 12), np.ravel(q))))
    g = arr(tr.weighted_quantile(a, b, grid, **kw), grid.shape, 'weighted_quantile')
    require(np.all(np.diff(g) >= -1e-9 * (1 + np.abs(g[1:]))), 'quantiles decrease')
    # whole weights of any integer type count as those of floats
    iw = (np.floor(w * 9) * (w > t) + (x == x[0])).clip(0, 100)
    want = ref(x, iw, q, t)
    for dt in ('i1', 'u1', 'i4', 'f4'):
        close(tr.weighted_quantile(x, iw.astype(dt), q, **kw), want, 'whole weights of type ' + dt, atol=1e-7 if dt != 'f4' else 1e-4)
    equal(tr.weighted_median(a, b, **kw), tr.weighted_quantile(a, b, .5, **kw), 'median')
    # without weights, data of any shape
    close(arr(tr.weighted_quantile(a, q=q), np.shape(q), 'without weights'), np.quantile(x, q), 'no weights', atol=1e-12)
    close(arr(tr.weighted_quantile(a, None, q), np.shape(q), 'without weights'), np.quantile(x, q), 'no weights', atol=1e-12)


@CHECK.sub('metamorphic', d(**common, k=gen.logfl(1e-3, 1e3), off=st.floats(-100, 100)), big=[(4, {'n': gen.some})], quick=600, thorough=20000)
def metamorphic(case, rec):
    x, w = make(case)
    q, t = case['q'], case['t']
    inc = w > t
    rec.nontrivial(np.sum(inc) > 2)
    base = tr.weighted_quantile(x, w, q, t)
    o = np.argsort(gen.bits(case['seed'] + 9, len(x)))
    close(tr.weighted_quantile(x[o], w[o], q, t), base, 'order of samples', atol=1e-7)
    close(tr.weighted_quantile(x, w * 4.0, q, t * 4.0), base, 'scale of weights', atol=1e-7)
    k = case['k']
    close(tr.weighted_quantile(x * k + case['off'], w, q, t), base * k + case['off'], 'affine data', atol=1e-7 * (1 + k))
    y = x.copy()
    y[~inc] = gen.noise(case['seed'] + 8, (len(x),), -1000, 1000)[~inc]
    close(tr.weighted_quantile(y, w, q, t), base, 'excluded samples have no influence', atol=1e-7)
    close(tr.weighted_quantile(x, q=q), np.quantile(x, q), 'no weights', atol=1e-12)
    close(tr.weighted_quantile(x, np.ones(len(x)), q), np.quantile(x, q), 'equal weights', atol=1e-9)
