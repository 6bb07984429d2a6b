import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr, raises
import gen
from gen import d, fl, seeds
from raytools import translate as tr

CHECK = Check('C08', rule='cases: sample positions in kernel widths (one wide cluster, or clusters separated by more '
              'than 60 widths), sorted or shuffled, 1-4 features, bandwidth, averaging method, own or resampled '
              'coordinates (inside, in gaps, beyond the ends). Non-trivial: at least 5 samples.',
              assumptions=['samples between 36 and 42 kernel widths from a coordinate, where the density underflows, '
                           'are outside the domain'])
q1 = st.one_of(st.floats(0.01, .99), st.sampled_from([.5, .1, .9]))
method = st.one_of(st.just('mean'), st.just('mean'), st.just('median'), q1, st.lists(q1, min_size=1, max_size=4))


def kernel(x, y, x0, s, method):
    """x sorted; returns (M,) or (Q,) for one coordinate"""
    w = np.exp(-.5 * ((x - x0) / s) ** 2) / (s * np.sqrt(2 * np.pi))
    if np.sum(w) == 0:
        i = np.searchsorted(x, x0)
        if i == 0:
            r = y[:, 0]
        elif i == len(x):
            r = y[:, -1]
        else:
            r = np.array([np.interp(x0, x[i - 1:i + 1], k[i - 1:i + 1]) for k in y])
        return np.broadcast_to(r, np.size(method)) if not isinstance(method, str) and len(y) == 1 else r
    if method == 'mean':
        return y @ w / np.sum(w)
    q = .5 if method == 'median' else np.atleast_1d(method)
    out = []
    for k in y:
        o = np.argsort(k, kind='stable')
        p, kk = w[o], k[o]
        p, kk = p[p > 0], kk[p > 0]
        c = np.concatenate(([0], np.cumsum(p[1:])))
        out.append(np.interp(q * c[-1], c, kk))
    return np.ravel(out)


def size(m, method):
    return len(method) if isinstance(method, list) and m == 1 else m


@CHECK.sub('kernel', d(n=st.integers(2, 60), m=st.integers(1, 4), one=st.booleans(), seed=seeds,
                       width=st.floats(1, 30), clusters=st.integers(1, 3), gap=st.floats(100, 300),
                       sigma=gen.logfl(1e-3, 100), auto=st.booleans(), sscale=st.one_of(st.sampled_from([1.0, 1.0, .5, 2.0]), st.floats(.2, 4)),
                       shuffle=st.booleans(), bw=st.sampled_from([None, 500, 'n', 'default']), method=method,
                       resample=st.booleans(), x0=st.floats(-100, 100), lay=gen.layout), big=[(4, {'n': st.integers(200, 500)})], quick=700, thorough=10000)
def kernel_sub(case, rec):
    n, s = case['n'], case['seed']
    k = case['clusters']
    auto = case['auto'] and k == 1
    u = gen.noise(s, (n,)) * case['width']
    u += case['gap'] * (gen.bits(s + 1, n) % np.uint64(k)).astype(float)
    if not case['shuffle']:
        u = np.sort(u)
    method_ = case['method']
    m = 1 if case['one'] else case['m']
    if isinstance(method_, list) and len(method_) > 1:
        m = 1
    y = gen.noise(s + 2, (m, n), -3, 7)
    sig = case['sigma']
    x = case['x0'] * sig + u * sig
    kw = {}
    eff = sig * case['sscale']
    if auto:
        eff = np.sqrt(np.var(x, ddof=1) * n ** (-.4)) * case['sscale']
        rec.label('scott')
    else:
        kw['sigma'] = sig
    if case['sscale'] != 1:
        kw['sscale'] = case['sscale']
    if case['bw'] != 'default':
        kw['bw'] = n if case['bw'] == 'n' else case['bw']
    if method_ != 'mean':
        kw['amethod'] = method_
    xr = x
    if case['resample']:
        lo, hi = x.min(), x.max()
        xr = np.concatenate((gen.noise(s + 3, (12,), lo - 2 * eff, hi + 2 * eff), [lo - 60 * eff, hi + 70 * eff]))
        kw['xr'] = xr
    dd = np.abs(x[:, None] - xr[None]) / eff
    amb = np.any((dd > 36) & (dd < 42), 0)
    if np.any(amb):
        if not case['resample']:
            rec.exclude('kernel underflow')
            return
        xr = xr[~amb]
        kw['xr'] = xr
        if len(xr) == 0:
            return
    rec.nontrivial(n > 4)
    rec.label('resample' if case['resample'] else 'self', 'shuffled' if case['shuffle'] else 'sorted',
              f'{k} clusters', method_ if isinstance(method_, str) else 'quantile')
    if np.any(np.min(dd[:, ~amb], 0) > 40):
        rec.label('gap fallback')
    xs, ys = gen.lay(x, case['lay']), gen.lay(y, case['lay'])
    if case['one']:
        ys = gen.lay(y[0], case['lay'])
    got = tr.non_uniform_gaussian_filter(xs, ys, **kw)
    z = size(m, method_)
    got = arr(got, None, 'filter')
    require(got.size == z * len(xr) and got.shape[-1] == len(xr), 'result size', shape=got.shape, want=(z, len(xr)))
    got = got.reshape(z, len(xr))
    o = np.argsort(x, kind='stable')
    ref = np.stack([kernel(x[o], y[:, o], i, eff, method_) for i in xr], -1).reshape(z, len(xr))
    ok = np.ones((z, len(xr)), bool)
    if method_ not in ('mean',):
        # quantiles are ill-conditioned where the smallest sample has nearly all of the weight
        with np.errstate(all='ignore'):
            wt = np.exp(-.5 * ((x[:, None] - xr[None]) / eff) ** 2)
            low = np.stack([wt[np.argmin(np.where(wt > 0, k[:, None], np.inf), 0), np.arange(len(xr))] for k in y])
            okm = (np.sum(wt, 0) - low) > 1e-5 * low
            okm |= np.sum(wt, 0) == 0
        ok &= okm if z == m else okm[:1]
        if not np.all(ok):
            rec.exclude('ill-conditioned quantile')
        got, ref = np.where(ok, got, 0), np.where(ok, ref, 0)
    close(got, ref, 'kernel average', rtol=1e-7, atol=1e-7)
    # order of samples
    p = np.argsort(gen.bits(s + 5, n))
    kw2 = dict(kw)
    y2 = y[:, p]
    g2 = np.asarray(tr.non_uniform_gaussian_filter(x[p], y2[0] if case['one'] else y2, **kw2)).reshape(z, len(xr))
    g2 = np.where(ok if case['resample'] else ok[:, p], g2, 0)
    close(g2, got if case['resample'] else got[:, p], 'order of samples', rtol=1e-7, atol=1e-7)


@CHECK.sub('bandwidth', d(n=st.integers(3, 80), bw=st.integers(1, 30), m=st.integers(1, 3), seed=seeds,
                          resample=st.booleans(), sw=st.floats(.5, 5), big=st.sampled_from([False] * 9 + [True])), big=[(3, {'n': st.integers(300, 1000)})], quick=250, thorough=5000)
def bandwidth(case, rec):
    """a limited bandwidth uses the bw samples on each side"""
    n, s, bw = case['n'], case['seed'], case['bw']
    if case['big']:
        n, bw = 900 + n, 500
        rec.label('more than 2 bw samples')
    x = np.sort(gen.noise(s, (n,), 0, 10))
    y = gen.noise(s + 2, (case['m'], n), -3, 7)
    rec.nontrivial(n > 2 * bw)
    kw = {} if bw == 500 else dict(bw=bw)
    if case['resample']:
        xr = gen.noise(s + 3, (9,), 0, 10)
        kw['xr'] = xr
        idx = np.searchsorted(x, xr)
    else:
        xr = x
        idx = np.arange(n)
    got = arr(tr.non_uniform_gaussian_filter(x, y, sigma=case['sw'], **kw), (case['m'], len(xr)), 'filter')
    sel = range(len(xr)) if len(xr) < 100 else range(0, len(xr), 37)
    for j in sel:
        a, b = max(0, idx[j] - bw), min(n, idx[j] + bw)
        close(got[:, j], kernel(x[a:b], y[:, a:b], xr[j], case['sw'], 'mean'), 'windowed average', atol=1e-8)


@CHECK.sub('invalid', d(bad=st.sampled_from(['avg', 'Mean', 'sum', [1.2], [-.1, .5], 1.5, -1, [.2, 'a'], [.2, .8]]),
                        n=st.integers(3, 30), seed=seeds, const=st.floats(-5, 5)), quick=100, thorough=500)
def invalid(case, rec):
    x = np.sort(gen.noise(case['seed'], case['n']))
    y = gen.noise(case['seed'] + 1, (2, case['n']))
    rec.nontrivial()
    rec.label(str(case['bad']))
    raises(ValueError, lambda: tr.non_uniform_gaussian_filter(x, y, amethod=case['bad']), 'invalid method')
    g = tr.non_uniform_gaussian_filter(x, np.full(len(x), case['const']), sigma=.3)
    close(np.ravel(g), np.full(len(x), case['const']), 'constant data', atol=1e-9)


@CHECK.sub('scott', d(n=st.sampled_from([2, 5, 300, 999, 1000, 1001, 1500, 4096, 10001, 20000]), m=st.integers(1, 3), seed=seeds, scale=gen.logfl(1e-3, 1e3),
                      tail=st.one_of(st.sampled_from([0, .01, .3]), st.floats(0, .5)), shuffle=st.booleans(), sscale=st.one_of(st.sampled_from([1., .3, 2.]), st.floats(.2, 4)), bw=st.booleans()), quick=30, thorough=900)
def scott(case, rec):
    """default width from all samples, at a few positions of long series"""
    n, s = case['n'], case['seed']
    k = int(n * case['tail'])
    x = np.sort(np.concatenate((gen.noise(s, n - k), gen.noise(s + 1, k, 1, 50)))) * case['scale']
    if np.ptp(x) == 0:
        return
    y = gen.noise(s + 2, (case['m'], n), -2, 3)
    eff = np.std(x, ddof=1) * n ** -.2 * case['sscale']
    xr = np.concatenate((gen.noise(s + 3, 4, x[0], x[-1]), x[[0, -1, n // 2]]))
    kw = dict(sscale=case['sscale']) if case['sscale'] != 1 else {}
    # the half bandwidth counts samples
    kw['bw'] = n if case['bw'] else None
    p = np.argsort(gen.bits(s + 4, n), kind='stable') if case['shuffle'] else np.arange(n)
    rec.nontrivial(n > 100)
    rec.label(f'n={n}', 'shuffled' if case['shuffle'] else 'sorted')
    w = np.exp(-.5 * ((x[:, None] - xr) / eff) ** 2)
    ok = np.sum(w, 0) > 1e-200
    got = np.asarray(tr.non_uniform_gaussian_filter(x[p], y[:, p], xr, **kw)).reshape(case['m'], len(xr))
    close(got[:, ok], (y @ w / np.sum(w, 0))[:, ok], 'kernel of default width', rtol=1e-7, atol=1e-7)
    if n <= 300:
        got = np.asarray(tr.non_uniform_gaussian_filter(x[p], y[:, p], **kw)).reshape(case['m'], n)
        w = np.exp(-.5 * ((x[:, None] - x[p]) / eff) ** 2)
        close(got, y @ w / np.sum(w, 0), 'kernel of default width on itself', rtol=1e-7, atol=1e-7)
