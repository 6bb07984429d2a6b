import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
from curcio import TABLE
from gen import d, seeds, fl
from raytools.evaluate import retina

CHECK = Check('C34', rule='cases: angles and heights of the point spread over many decades; solid angles, luminances below, within and above the limits of the sun blur, '
              'limits and widths; 1-100 positions in all quadrants and on the axes, centre and rim. Non-trivial: positions in two or more '
              'quadrants, or luminance within the limits.',
              assumptions=['relations only (not values) for the sun blur with a width other than the default', 'listed deviations from the published '
                           'densities (see known-findings.txt) are accepted besides the published values, nothing else'])
#: technique: property-based testing against independent implementations of the published formulas, round trips, symmetry

FW = .183333


@CHECK.sub('psf', d(x=st.lists(st.one_of(st.just(0.), gen.logfl(1e-6, 1e4)), min_size=1, max_size=20), y=st.lists(st.one_of(st.sampled_from([1., .5]), gen.logfl(1e-9, 1)), min_size=1, max_size=20),
                    fwhm=st.one_of(st.none(), gen.logfl(1e-3, 10)), sign=st.sampled_from([1, -1]), one=st.booleans()), quick=300, thorough=5000)
def psf(case, rec):
    f = FW if case['fwhm'] is None else case['fwhm']
    kw = {} if case['fwhm'] is None else dict(fwhm=f)
    x, y = np.array(case['x']), np.array(case['y'])
    rec.nontrivial(len(x) > 1)
    if case['one']:
        x, y = float(x[0]), float(y[0])
    s = case['sign']
    p = arr(retina.hpsf(s * x, **kw), np.shape(x), 'point spread')
    close(p, 1 / (1 + np.square(2 * np.asarray(x) / f)), 'Lorentzian', rtol=1e-9, atol=0)
    close(retina.hpsf(0., **kw), 1, 'centre')
    close(retina.hpsf(f / 2, **kw), .5, 'half width')
    close(retina.inv_hpsf(.5, **kw), f / 2, 'half height')
    close(retina.inv_hpsf(1., **kw), 0, 'peak')
    close(retina.hpsf(retina.inv_hpsf(y, **kw), **kw), y, 'round trip', rtol=1e-7, atol=0)
    close(retina.inv_hpsf(p, **kw), np.abs(x), 'inverse', rtol=1e-7, atol=2e-7 * f)
    i = np.argsort(np.atleast_1d(x))
    require(np.all(np.diff(np.atleast_1d(p)[i]) <= 0), 'decreasing from the centre')


@CHECK.sub('blur', d(omega=st.lists(gen.logfl(1e-9, 1), min_size=1, max_size=10), l=st.lists(st.one_of(gen.logfl(1e-2, 1e7), gen.logfl(200, 4e4)), min_size=1, max_size=10), lmin=st.one_of(st.none(), gen.logfl(1, 1e4)),
                     fwhm=st.one_of(st.none(), gen.logfl(.01, 1)), one=st.booleans(), seed=seeds), quick=400, thorough=8000)
def blur(case, rec):
    lmin = 279.33 if case['lmin'] is None else case['lmin']
    f = FW if case['fwhm'] is None else case['fwhm']
    kw = {k: case[k] for k in ('lmin', 'fwhm') if case[k] is not None}
    top = lmin * (1 + np.square(2 / FW))
    n = min(len(case['omega']), len(case['l']))
    o, l = np.array(case['omega'][:n]), np.array(case['l'][:n])
    if case['one']:
        o, l = float(o[0]), float(l[0])
    rec.nontrivial(np.any((np.asarray(l) > lmin) & (np.asarray(l) < top)))
    b = arr(retina.blur_sun(o, l, **kw), np.shape(o), 'correction')
    require(np.all(b >= 1), 'at least 1', b=b)
    r0 = np.degrees(np.sqrt(np.asarray(o) / np.pi))
    if case['fwhm'] is None:
        y = np.clip(l, lmin, top)
        close(b, np.square(1 + FW / 2 * np.sqrt(np.maximum(y / lmin - 1, 0)) / r0), 'radius grown to the minimum luminance', rtol=1e-6)
    close(b[()] if np.ndim(b) == 0 else b, retina.blur_sun(o, np.clip(l, lmin, top), **kw), 'limits', rtol=1e-9)
    close(retina.blur_sun(o, np.zeros(np.shape(l)) + lmin / 3, **kw), np.ones(np.shape(l)), 'dim', rtol=1e-9)
    for k in (1.01, 1.5, 10):
        c = retina.blur_sun(o, np.asarray(l) * k, **kw)
        require(np.all(c >= b * (1 - 1e-12)), 'grows with luminance')
        inside = (np.asarray(l) * k < top) & (np.asarray(l) >= lmin)
        require(np.all(np.where(inside, c > b, True)), 'grows within the limits', l=l, k=k)
    # smaller sources are blurred more
    require(np.all(retina.blur_sun(np.asarray(o) / 2, l, **kw) >= b * (1 - 1e-12)), 'smaller source')
    # limits and widths of each source
    if not case['one'] and n > 1:
        lm = lmin * 10 ** gen.noise(case.get('seed', 0), n, -1, 1)
        fw = f * 10 ** gen.noise(case.get('seed', 0) + 1, n, -.5, .5)
        for name, k in (('lmin', lm), ('fwhm', fw), ('both', None)):
            each = [dict(kw, lmin=float(p), fwhm=float(q)) if k is None else dict(kw, **{name: float(r)}) for p, q, r in zip(lm, fw, lm if k is None else k)]
            every = dict(kw, lmin=lm, fwhm=fw) if k is None else dict(kw, **{name: k})
            close(retina.blur_sun(o, l, **every), [float(retina.blur_sun(float(a), float(c), **e)) for a, c, e in zip(o, l, each)], f'{name} of each source', rtol=1e-9)


# Watson 2014, table 1 (with the digits of the supplement): a, r2, re for temporal, superior, nasal, inferior
A = np.array([0.9851255243509307, 0.9934935604656688, 0.9729319961934142, 0.9960391452747578])
R2 = np.array([1.057910790284875, 1.0354962329628912, 1.0841663616483523, 0.993222146189384])
RE = np.array([22.139309670912258, 16.346430181031927, 7.632575316432455, 12.131840717293096])
assert np.allclose(A, [.9851, .9935, .9729, .9960], atol=5e-5) and np.allclose(R2, [1.058, 1.035, 1.084, .9932], atol=5.1e-4) and np.allclose(RE, [22.14, 16.35, 7.633, 12.13], atol=5e-3)


def watson(r, m, published=True):
    f = 33162.4
    return f * A[m] * (1 + r / R2[m]) ** -2. + (f if published else 1) * (1 - A[m]) * np.exp(-r / RE[m])


@CHECK.sub('meridian', d(r=st.lists(fl(0, 90), min_size=1, max_size=30), seed=seeds, published=st.just(False)), quick=200, thorough=4000)
def meridian(case, rec):
    r = np.array(case['r'])
    m = gen.ints(case['seed'], len(r), 0, 4)
    rec.nontrivial(len(set(m.tolist())) > 1)
    g = arr(retina.rgcf_density_on_meridian(r, m), r.shape, 'field density')
    w = watson(r, m)
    ok = np.abs(g - w) <= 1e-7 * w
    if not case['published']:
        k = watson(r, m, False)
        ok |= np.abs(g - k) <= 1e-7 * k
    require(np.all(ok), 'density of the published model', r=r[~ok], m=m[~ok], got=g[~ok], expected=w[~ok])
    require(np.all(g > 0), 'positive')
    for k in range(4):
        x = np.sort(r)
        require(np.all(np.diff(retina.rgcf_density_on_meridian(x, np.full(len(x), k))) <= 0), 'field density decreases from the fovea')
    for k in range(4):
        close(retina.rgcf_density_on_meridian(r, k), retina.rgcf_density_on_meridian(r, np.full(len(r), k)), 'one meridian for all', rtol=1e-12)
        close(retina.rgc_density_on_meridian(r, k), retina.rgc_density_on_meridian(r, np.full(len(r), k)), 'one meridian for all', rtol=1e-12)
    c = arr(retina.rgc_density_on_meridian(r, m), r.shape, 'cell density')
    require(np.all(c >= 1) and np.all(c < 2400), 'cell density bounds', c=c)
    one = [float(np.asarray(retina.rgc_density_on_meridian(r[i:i + 1], m[i:i + 1]))[0]) for i in range(len(r))]
    close(c, one, 'one at a time')
    # linear between the measurements, constant beyond the first and last of them
    want = [max(1, np.interp(x, *np.transpose(TABLE[k]))) for x, k in zip(r, m)]
    close(c, want, 'cell density between measurements', rtol=1e-6)
    for k, t in enumerate(TABLE):
        i = gen.ints(case['seed'] + k, 4, 0, len(t))
        at, den = np.array(t)[i].T
        close(retina.rgc_density_on_meridian(at, np.full(len(at), k)), np.maximum(den, 1), 'measured cell densities', rtol=1e-6)


#: relative to the radius: quadrant and axis positions
pos = st.tuples(st.one_of(st.just(0.), st.just(1.), st.floats(1e-6, 1)), st.one_of(st.floats(-180, 180), st.sampled_from([0., 90., 180., -90., 45.]))).map(list)
FUNC = dict(field=retina.rgcf_density_on_meridian, cell=retina.rgc_density_on_meridian)


def xy(case):
    p = np.array(case['pos'], float)
    n = gen.noise(case['seed'], (case['n'], 2))
    p = np.concatenate((p, np.stack((np.sqrt(n[:, 0]), n[:, 1] * 360 - 180), -1)))
    t = np.radians(p[:, 1])
    v = np.stack((np.cos(t), np.sin(t)), -1)
    v[np.abs(v) < 1e-12] = 0
    return v * p[:, :1]


def quadrant(f, p, ymer):
    """density at visual field positions (degrees) between two meridians"""
    r = np.hypot(p[:, 0], p[:, 1])
    dx = np.asarray(f(r, np.where(p[:, 0] > 0, 0, 2)))
    dy = np.asarray(f(r, ymer))
    with np.errstate(all='ignore'):
        # 1/d = cos^2/dx + sin^2/dy
        w = r * r / (p[:, 0] ** 2 / dx + p[:, 1] ** 2 / dy)
    return np.where(r > 0, w, dy), dx, dy


@CHECK.sub('density', d(pos=st.lists(pos, min_size=1, max_size=8), n=st.integers(0, 60), seed=seeds, f=st.sampled_from(['field', 'cell']), published=st.just(False), lay=gen.layout), big=[(4, {'n': gen.some})], quick=400, thorough=8000)
def density(case, rec):
    u = xy(case)
    p = u * 90
    f = FUNC[case['f']]
    q = set(zip(np.sign(u[:, 0]).tolist(), np.sign(u[:, 1]).tolist()))
    rec.nontrivial(len(q) > 1)
    rec.label(f'{len(q)} quadrants or axes', case['f'])
    a = gen.lay(p, case['lay'])
    kw = {} if case['f'] == 'field' and case['seed'] % 2 else dict(func=f)
    g = arr(retina.rgcf_density_xy(a, **kw), (len(u),), 'density')
    equal(a, p, 'positions passed')
    require(np.all(g > 0) and np.all(np.isfinite(g)), 'positive', g=g)
    want, dx, dy = quadrant(f, p, np.where(p[:, 1] > 0, 1, 3))
    ok = np.abs(g - want) <= 1e-9 * want
    between = (g >= np.minimum(dx, dy) * (1 - 1e-9)) & (g <= np.maximum(dx, dy) * (1 + 1e-9))
    require(np.all(between | ~ok), 'reference')
    # superior or inferior at the centre and on the horizontal axis is open
    z = p[:, 1] == 0
    alt = quadrant(f, p, np.full(len(p), 1))[0]
    ok |= z & (np.abs(g - alt) <= 1e-9 * alt)
    if not case['published']:
        # listed finding: upper or lower is chosen by the horizontal coordinate
        alt = quadrant(f, p, np.where(p[:, 0] > 0, 1, 3))[0]
        ok |= np.abs(g - alt) <= 1e-9 * alt
    require(np.all(ok), 'between the meridians of the quadrant', at=p[~ok][:3], got=g[~ok][:3], expected=want[~ok][:3])
    # on the horizontal axis: the meridians themselves
    h = (p[:, 1] == 0) & (p[:, 0] != 0)
    if np.any(h):
        rec.label('horizontal axis')
        close(g[h], dx[h], 'value on the axis')


@CHECK.sub('binocular', d(pos=st.lists(pos, min_size=1, max_size=8), n=st.integers(0, 60), seed=seeds, f=st.sampled_from(['field', 'cell']), lay=gen.layout), big=[(3, {'n': gen.some})], quick=300, thorough=8000)
def binocular(case, rec):
    u = xy(case)
    f = FUNC[case['f']]
    rec.nontrivial(np.any(u[:, 0] * u[:, 1] != 0))
    a = gen.lay(u, case['lay'])
    g = arr(retina.binocular_density(a, f), (len(u),), 'two eyes')
    equal(a, u, 'positions passed')
    close(dict(field=retina.rgcf_density, cell=retina.rgc_density)[case['f']](a), g, 'by name', rtol=0, atol=0)
    if case['f'] == 'field':
        close(retina.binocular_density(a), g, 'default', rtol=0, atol=0)
    m = u * [-1, 1]
    close(retina.binocular_density(m, f), g, 'mirrored', rtol=1e-9)
    one, two = np.asarray(retina.rgcf_density_xy(u * 90, f)), np.asarray(retina.rgcf_density_xy(m * 90, f))
    close(g, (one + two) / 2, 'average of the eyes', rtol=1e-9)
    require(np.all(g > 0), 'positive')


@CHECK.sub('integers', d(p=st.lists(st.tuples(st.integers(-50, 50), st.integers(-50, 50)).map(list), min_size=1, max_size=10), f=st.sampled_from(['field', 'cell'])), quick=100, thorough=1000)
def integers(case, rec):
    p = np.array(case['p'])
    rec.nontrivial()
    f = FUNC[case['f']]
    close(retina.rgcf_density_xy(p, f), retina.rgcf_density_xy(p.astype(float), f), 'integer coordinates')
    u = np.sign(p)
    u[:, 1] *= u[:, 0] == 0
    close(retina.binocular_density(u, f), retina.binocular_density(u.astype(float), f), 'integer positions')


CHECK.finding('vertical-meridian-by-x', 'density', dict(pos=[[.2, 90.], [.3, 135.], [.3, -45.]], n=0, seed=0, f='field', published=True, lay='c'))
CHECK.finding('exponential-not-scaled', 'meridian', dict(r=[20., 60.], seed=0, published=True))
