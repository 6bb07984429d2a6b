import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
import hdr
import views
from gen import d, seeds, fl
from raytools.evaluate import GSS
from raytools.evaluate.hvsgsm import f_b, l_b
from raytools.mapper import ViewMapper

CHECK = Check('C35', rule='cases: illuminances over twelve decades, ages 10-90, pigmentations, focal lengths; images of 8-60 pixels of 5-180 degree views with uniform, noisy, sparse or '
              'single pixel content over many decades; each component of the model alone and all of them combined, each blur on or off. '
              'Non-trivial: the image is not uniform.',
              assumptions=['square images of angular fisheye views', 'images have light in the view', 'a local irradiance of exactly zero has some finite adaptation (the formula has no value)'])
#: technique: property-based testing against independent implementations of the published formulas; linearity, symmetry and conservation relations

ages = st.one_of(st.just(40), st.integers(10, 90))
pigs = st.sampled_from([.106, .16, .056, .142])


def loaded(case, rgb=None):
    """evaluator with an image of the view"""
    r, va = case['res'], case['va']
    if rgb is None:
        rgb = np.ones((3, r, r))
    hdr.write('a.hdr', rgb, [f'VIEW= -vta -vd 0 1 0 -vh {va} -vv {va}'])
    g = GSS(ViewMapper(viewangle=va), age=case.get('age', 40), pigmentation=case.get('pig', .106), fwidth=case.get('fwidth', 10), f=case.get('f', 16.67), **case.get('kw', {}))
    for k, v in case.get('attr', {}).items():
        setattr(g, k, v)
    g.lum = 'a.hdr'
    return g


def image(case, key='seed'):
    """nonnegative (res, res) array"""
    s, r = case[key], case['res']
    k = case['kind']
    a = gen.noise(s, (r, r))
    if k == 'uniform':
        a = np.ones((r, r))
    elif k == 'sparse':
        a = np.where(gen.noise(s + 1, (r, r)) < .1, a, 0)
        a[r // 2, r // 2] = 1
    elif k == 'wide':
        a = 10 ** gen.noise(s, (r, r), -6, 3)
    elif k == 'spot':
        a = np.zeros((r, r))
        i, j = gen.ints(s + 2, 2, r // 4, r - r // 4)
        a[i, j] = 1
    return a * case['level']


pix = dict(res=st.one_of(st.integers(8, 60), st.sampled_from([16, 36, 40, 54])), va=st.one_of(st.sampled_from([180, 180, 60, 30, 10, 5]), st.integers(2, 180)), seed=seeds, kind=st.sampled_from(['uniform', 'noise', 'noise', 'sparse', 'wide', 'spot']),
           level=st.one_of(st.sampled_from([1e-6, 1., 1., 1e3, 1e9]), gen.logfl(1e-6, 1e9)))


# ------------------------------------------------------------ scalar components
@CHECK.sub('pupil', d(ev=st.lists(gen.logfl(1e-4, 1e8), min_size=1, max_size=20), age=ages, f=st.one_of(st.sampled_from([16.67, 17., 22.]), st.floats(8, 30)), one=st.booleans(), lum=gen.logfl(1e-6, 1e9)), quick=300, thorough=5000)
def pupil(case, rec):
    ev = np.sort(case['ev'])
    g = GSS(age=case['age'], f=case['f'])
    rec.nontrivial(len(ev) > 1)
    want = 5 - 3 * np.tanh(.4 * np.log10(ev / 1600)) - .043 * (case['age'] - 10) * np.exp(-ev / 174)
    e = float(ev[0]) if case['one'] else ev
    a, p = g.pupil(e)
    if case['one']:
        want = want[0]
    close(p, want, 'pupil diameter')
    close(a, np.pi * want ** 2 / 4, 'pupil area')
    require(np.all(np.asarray(p) >= 2) and np.all(np.asarray(p) <= 8), 'pupil between 2 and 8 mm', p=p)
    require(np.all(np.diff(GSS(age=10).pupil(ev)[1]) <= 1e-9), 'pupil closes with more light (without age correction)')
    close(g.pupil(1600.)[1] + .043 * (case['age'] - 10) * np.exp(-1600 / 174), 5, 'pupil at 1600 lx')
    x = case['lum'] * gen.noise(1, (3, 4))
    close(g.retinal_irradiance(x, a if case['one'] else a[0]), x * np.atleast_1d(a)[0] / case['f'] ** 2, 'retinal irradiance', atol=0)
    close(g.retinal_irradiance(x * 0, 5.), x * 0, 'no light')
    # illuminance of 0 is darkness
    close(g.pupil(0.)[1], 8 - .043 * (case['age'] - 10), 'pupil in darkness')


@CHECK.sub('coefficients', d(age=ages, pig=pigs, pupd=st.floats(2, 8), phi=st.lists(st.floats(-1.5, 1.5), min_size=1, max_size=20)), quick=300, thorough=5000)
def coefficients(case, rec):
    """coefficients of Ijspeert et al. 1993"""
    rec.nontrivial()
    g = GSS(age=case['age'], pigmentation=case['pig'])
    p, m, D = case['pupd'], case['pig'], case['age']
    bs, cs = (np.asarray(i, float) for i in g.psf_coef(p))
    af = 1 + (D / 70) ** 4
    csa, cla = 1 / (1 + af / (1 / m - 1)), 1 / (1 + (1 / m - 1) / af)
    b = 9000 - 936 * np.sqrt(af)
    e = np.sqrt(af) / 2000
    c = [csa / (1 + (p / 3.2) ** 2), csa / (1 + (3.2 / p) ** 2), cla / ((1 + 25 * m) * (1 + 1 / af))]
    c.append(cla - c[2])
    close(cs, c, 'weights')
    close(bs, [(1 + (p / 3.2) ** 2) / (b * p), (1 + (3.2 / p) ** 2) * (e - 1 / (b * p)), 1 / (10 + 60 * m - 5 / af), 1], 'widths')
    close(np.sum(cs), 1, 'all light is distributed')
    require(np.all(cs > 0) and np.all(bs > 0), 'positive coefficients')
    phi = np.array(case['phi'])
    for bb, cc in zip(bs, cs):
        q = np.sin(phi) ** 2 + bb ** 2 * np.cos(phi) ** 2
        close(f_b(bb, cc, phi), cc * bb / (2 * np.pi * q ** 1.5), 'point spread', atol=0)
        close(l_b(bb, cc, phi), cc * bb / (np.pi * q), 'line spread', atol=0)
        # the components integrate to their weight (substituted for accuracy)
        t = np.linspace(0, 1, 4001)
        x = (t[1:] + t[:-1]) / 2
        th = np.arctan(bb * np.tan(x * np.pi / 2))
        dth = bb * (np.pi / 2) / np.cos(x * np.pi / 2) ** 2 / (1 + (bb * np.tan(x * np.pi / 2)) ** 2)
        close(2 * np.mean(l_b(bb, cc, th) * dth), cc, 'integral of the line spread', rtol=1e-5)
        close(2 * np.pi * np.mean(f_b(bb, cc, th) * np.sin(th) * dth), cc, 'integral of the point spread', rtol=1e-5)


@CHECK.sub('responses', d(er=st.lists(st.one_of(st.just(0.), gen.logfl(1e-9, 1e30)), min_size=1, max_size=20), eg=gen.logfl(1e-6, 1e6), ea=gen.logfl(1e-6, 1e6), contrast=st.sampled_from([None, .9])), quick=300, thorough=5000)
def responses(case, rec):
    er = np.sort(case['er']).reshape(1, -1)
    n = er.size
    rec.nontrivial(n > 1)
    g = GSS()
    c = .8
    if case['contrast']:
        c = g.contrast = case['contrast']
    keep = er.copy()
    ea = arr(g.local_eye_adaptation(er, case['eg']), er.shape, 'local adaptation')
    pos = er > 0
    close(ea[pos], (er ** c * case['eg'] ** (1 - c))[pos], 'local adaptation', atol=0)
    require(np.all(np.isfinite(ea)) and np.all(ea > 0), 'finite adaptation')
    one = [g.local_eye_adaptation(np.array([[i]]), case['eg'])[0, 0] for i in er[0]]
    close(ea[0], one, 'adaptation of a pixel does not depend on the others', atol=0)
    close(g.local_eye_adaptation(np.full((2, 2), case['eg']), case['eg']), np.full((2, 2), case['eg']), 'adapted to uniform light', atol=0)
    v = arr(g.cone_response(er, np.full(er.shape, case['ea'])), er.shape, 'cone response')
    sig = (5.701055 ** (1 / 2.55) + case['ea'] ** (1 / 2.55)) ** 2.55
    with np.errstate(all='ignore'):
        close(v, np.where(er > 0, 1 / (1 + (er / sig) ** -.74), 0), 'cone response')
    require(np.all(v >= 0) and np.all(v <= 1) and np.all(np.diff(v) >= 0), 'bounded and growing response')
    close(g.cone_response(np.array([[sig]]), np.array([[case['ea']]])), [[.5]], 'half saturation')
    close(GSS.cone_response(er, ea), np.where(pos, v * 0 + 1 / (1 + np.where(pos, er, 1) ** -.74 * ((5.701055 ** (1 / 2.55) + ea ** (1 / 2.55)) ** 2.55) ** .74), 0), 'locally adapted response')
    equal(er, keep, 'irradiances passed')


# ------------------------------------------------------------ image components
def blur_matrix(n, sigma, truncate=4.):
    """one dimensional gaussian filter as matrix, mirrored at the border"""
    r = int(truncate * sigma + .5)
    x = np.arange(-r, r + 1)
    w = np.exp(-x * x / (2 * sigma * sigma)) if sigma > 0 else np.ones(1)
    w = w / np.sum(w)
    M = np.zeros((n, n))
    for i in range(n):
        j = (i + x) % (2 * n)
        np.add.at(M[i], np.where(j < n, j, 2 * n - 1 - j), w)
    return M


def blurred(a, sigma, truncate=4.):
    if sigma < 1e-12:
        return a
    M = blur_matrix(len(a), sigma, truncate)
    return M @ a @ M.T


@CHECK.sub('movement', d(**pix, age=ages, f=st.one_of(st.sampled_from([16.67, 16.67, 17., 22., 10.]), st.floats(8, 30)), eg=gen.logfl(1e-7, 1e5)), big=[(2, {'res': st.integers(61, 110)})], quick=150, thorough=3000)
def movement(case, rec):
    g = loaded(case)
    a = image(case)
    rec.nontrivial(case['kind'] != 'uniform')
    rec.label(case['kind'], f"{case['va']} degrees")
    pp = case['res'] / (60 * case['va'])
    keep = a.copy()
    top = case['level'] * 1e3
    b = arr(g.apply_eye_movement_1(a), a.shape, 'adaptation movement')
    bs, ds = pp / (np.sqrt(2) * .167), pp / (np.sqrt(2) * .05)
    # the width of the truncated filter may round either way
    want = [.62 * blurred(a, bs) + .38 * blurred(a, ds, 30 * pp * (1 + k) / ds) for k in (0, 1e-9, -1e-9)]
    close(b, min(want, key=lambda w: np.max(np.abs(w - b))), 'adaptation movement', rtol=1e-6, atol=1e-9 * np.max(a))
    e = arr(g.apply_eye_movement_2(a, case['eg']), a.shape, 'direct movement')
    t = .1 / (case['eg'] * case.get('f', 16.67) ** 2) ** .12
    close(e, blurred(blurred(a, 2 * np.sqrt(30 * t) * pp), 2 * np.sqrt(250 * t) * pp), 'direct movement', rtol=1e-6, atol=1e-9 * np.max(a))
    for i in (b, e):
        close(np.sum(i), np.sum(a), 'energy', rtol=1e-9)
        require(np.all(i >= 0), 'no negative light')
        require(np.max(i) <= np.max(a) * (1 + 1e-9), 'not brighter')
    equal(a, keep, 'image passed')


@CHECK.sub('spread', d(**pix, other=seeds, age=ages, pig=pigs, pupd=st.floats(2, 8), fwidth=st.one_of(st.sampled_from([10, 10, 4, 20]), st.floats(2, 40))), big=[(2, {'res': st.integers(61, 110)})], quick=150, thorough=3000)
def spread(case, rec):
    g = loaded(case)
    r, va, fw = case['res'], case['va'], case['fwidth']
    if fw * r / va > 60:
        rec.exclude('large filter')
        return
    a = image(case)
    p = case['pupd']
    rec.nontrivial(case['kind'] != 'uniform')
    rec.label(case['kind'], f'{va} degrees')
    keep = a.copy()
    one = arr(g.apply_psf(np.ones((r, r)), p), (r, r), 'point spread')
    close(one, np.ones((r, r)), 'uniform light stays uniform', rtol=1e-9)
    b = arr(g.apply_psf(a, p), (r, r), 'point spread')
    top = np.max(a)
    require(np.all(b >= -1e-12 * top) and np.all(b <= top * (1 + 1e-9)), 'neither negative nor brighter', low=np.min(b), high=np.max(b), top=top)
    close(g.apply_psf(a * 0, p), a * 0, 'no light')
    close(g.apply_psf(a * 3, p), b * 3, 'scaled', rtol=1e-9, atol=1e-12 * top)
    x = image(dict(case, kind='noise'), 'other')
    both = g.apply_psf(a + x, p)
    close(both, b + np.asarray(g.apply_psf(x, p)), 'sum of images', rtol=1e-9, atol=1e-11 * np.max(a + x))
    close(np.asarray(g.apply_psf(a[::-1], p))[::-1], b, 'mirrored left to right', rtol=1e-7, atol=1e-9 * top)
    close(np.asarray(g.apply_psf(a[:, ::-1], p))[:, ::-1], b, 'mirrored top to bottom', rtol=1e-7, atol=1e-9 * top)
    close(np.asarray(g.apply_psf(a.T, p)).T, b, 'transposed', rtol=1e-7, atol=1e-9 * top)
    equal(a, keep, 'image passed')
    # response to a point: shape and energy
    i = r // 2
    c = np.zeros((r, r))
    c[i, i] = 1
    q = np.asarray(g.apply_psf(c, p))
    require(np.unravel_index(np.argmax(q), q.shape) == (i, i), 'a point stays at its pixel', at=np.unravel_index(np.argmax(q), q.shape))
    w = int(np.ceil(fw * r / va))
    w += 1 - w % 2
    if w < i - 1:
        bs, cs = (np.asarray(k, float) for k in g.psf_coef(p))
        cap = np.sum(cs * 2 / np.pi * np.arctan(np.tan(np.radians(fw / 2)) / bs))
        om = np.asarray(g.omega)
        base = om[i, i] * (1 - cap) / np.sum(om)
        close(np.sum(q), cap + base * r * r, 'energy of a point', rtol=2e-4)
        close(q[0, 0], base, 'light outside of the filter', rtol=2e-3, atol=1e-12)
        pitch = 2 * views.half(fw) / w
        off = np.arange(w) - w // 2
        rad = np.hypot(*np.meshgrid(off, off))
        phi = rad * pitch
        f = np.sum([cc * bb / (2 * np.pi * (np.sin(phi) ** 2 + bb ** 2 * np.cos(phi) ** 2) ** 1.5) for bb, cc in zip(bs, cs)], axis=0) * pitch ** 2
        h = w // 2
        win = (q - q[0, 0])[i - h:i + h + 1, i - h:i + h + 1]
        ok = (rad > 0) & (rad < w / 2 - .6)
        if np.any(ok):
            rec.label('profile of the filter')
            close(win[ok], f[ok], 'profile', rtol=.03, atol=1e-9)


# parameters of the model replaced on the evaluator
attrs = st.fixed_dictionaries({}, optional=dict(emin=st.sampled_from([.005, .009, .02]), emax=st.sampled_from([.1, .12, .4]), fr_k=st.sampled_from([.5, .67, .9]),
                                                fr_a=st.sampled_from([10, 22, 30.5]), fr_b=st.sampled_from([.1, .25, .3])))


@CHECK.sub('field', d(**{**pix, 'level': st.just(1.)}, xs=st.lists(fl(-1, 1.2), min_size=1, max_size=8),
                      attr=st.one_of(st.just({}), attrs)), big=[(2, {'res': st.integers(61, 110)})], quick=100, thorough=2000)
def field(case, rec):
    g = loaded(case)
    r, va = case['res'], case['va']
    a = np.minimum(image(case), 1)
    rec.nontrivial(case['kind'] != 'uniform')
    # width of the receptive field from the position
    k = (np.arange(r) + .5) / r * 2 - 1
    X, Y = np.meshgrid(k, k, indexing='ij')
    ecc = np.minimum(np.hypot(X / 1.05556, Y / np.where(Y >= 0, .61111, .94444)), 1)
    o = case['attr']
    e0, e1, fk, fa, fb = (o.get(i, j) for i, j in dict(emin=.009, emax=.12, fr_k=.67, fr_a=22, fr_b=.25).items())
    if o:
        rec.label('other parameters')
    s = e0 + ecc * (e1 - e0)
    sc = arr(g.sigma_c, (r, r), 'field width')
    close(sc, s, 'field width', rtol=1e-6)
    got = arr(g.field_response(a), (r, r), 'field response')
    steps = e0 * (e1 / e0) ** (np.arange(31) / 30)
    mid = (steps[1:] + steps[:-1]) / 2
    idx = np.searchsorted(mid, s, side='right')
    near = np.min(np.abs(s[..., None] - mid), -1) < 1e-9
    want = np.zeros((r, r))
    px = r / va
    for n, w in enumerate(steps):
        m = idx == n
        if np.any(m):
            want[m] = (blurred(a, w * px) - fk * blurred(a, w * px * 3.5))[m]
    close(np.where(near, want, got), want, 'difference of gaussians', rtol=1e-6, atol=1e-8)
    close(g.field_response(np.full((r, r), .7)), np.full((r, r), .7 * (1 - fk)), 'uniform', rtol=1e-9)
    require(np.all(got <= 1 + 1e-9) and np.all(got >= -fk - 1e-9), 'bounded')
    x = np.resize(np.array(case['xs']), (r, r))
    rg = arr(g.normalized_field_response(x), (2, r, r), 'normalised response')
    _, inside = views.pixel_dirs((0, 1, 0), r, va)
    close(rg[0], np.where(inside, 1 / (1 + np.exp(-fa * (x - fb))), 0), 'on response', rtol=1e-9)
    close(rg[1], np.where(inside, 1 / (1 + np.exp(fa * (x + fb))), 0), 'off response', rtol=1e-9)
    close(np.asarray(g.normalized_field_response(-x))[0], rg[1], 'on and off mirror each other')


@CHECK.sub('whole', d(**{**pix, 'res': st.integers(8, 48), 'level': st.sampled_from([1e-3, 1., 1e3, 1e9, 1e20, 1e34])}, age=ages, psf=st.booleans(), adapt=st.booleans(), direct=st.booleans(), raw=st.booleans(), norm=st.sampled_from([4, 4, 4, 2, 3, 6.5]), ev=st.one_of(st.none(), st.none(), gen.logfl(1e-2, 1e6))), quick=200, thorough=4000)
def whole(case, rec):
    """the response is the composition of the components, the score its position weighted norm"""
    a = image(case)
    if case['kind'] != 'spot':
        a = a + 1e-6 * np.max(a)
    kw = dict(psf=case['psf'], adaptmove=case['adapt'], directmove=case['direct'], raw=case['raw'])
    r, va = case['res'], case['va']
    if case['psf'] and 10 * r / va > 60:
        rec.exclude('large filter')
        return
    g = loaded(dict(case, kw=kw, attr={} if case['norm'] == 4 else dict(norm=case['norm'])), np.stack((a, a, a)))
    L = hdr.decode('a.hdr')[1].T @ gen.RADLUM
    L = L.T * 179
    _, inside = views.pixel_dirs((0, 1, 0), r, va)
    if not np.any(L[inside] > 0):
        return
    rec.nontrivial(case['kind'] != 'uniform')
    rec.label(f"psf {case['psf']}", f"level {case['level']}")
    close(g.lum, L, 'luminance', rtol=1e-5)
    om = np.asarray(g.omega)
    require(np.all(om[~inside] == 0) and np.all(om[inside] > 0), 'solid angles in the view only')
    th = np.radians(va) / 2
    close(np.sum(om), 2 * np.pi * (1 - np.cos(views.half(va))), 'solid angles cover the view', rtol=.05 + 2 / r)
    e_g, pupa, pupd = g.adapt() if case['ev'] is None else g.adapt(case['ev'])
    dirs = views.pixel_dirs((0, 1, 0), r, va)[0]
    ev = np.sum((L * om * dirs[..., 1])[inside]) if case['ev'] is None else case['ev']
    pd = 5 - 3 * np.tanh(.4 * np.log10(ev / 1600)) - .043 * (case['age'] - 10) * np.exp(-ev / 174)
    close(pupd, pd, 'adapted pupil', rtol=1e-4)
    close(e_g, ev / np.pi * pupa / 16.67 ** 2, 'global irradiance', rtol=1e-4)
    r_g, arrays = g.glare_response(g.lum, e_g, pupa, pupd, return_arrays=True)
    x = g.retinal_irradiance(g.lum, pupa)
    if case['psf']:
        x = g.apply_psf(x, pupd)
    loc = g.apply_eye_movement_1(x) if case['adapt'] else x
    dr = g.apply_eye_movement_2(x, e_g) if case['direct'] else x
    want = g.normalized_field_response(g.field_response(g.cone_response(dr, g.local_eye_adaptation(loc, e_g))))
    arr(r_g, (2, r, r), 'response')
    require(np.all(np.isfinite(r_g)), 'finite response')
    close(r_g, want, 'components combined', rtol=1e-7)
    close(g.glare_response(g.lum, e_g, pupa, pupd), want, 'response only', rtol=1e-7)
    for k, v in arrays.items():
        require(np.asarray(v).shape[-2:] == (r, r) and np.all(np.isfinite(v)), f'process array {k}')
    require(np.all(r_g >= 0) and np.all(r_g <= 1), 'responses between 0 and 1')
    q = case['norm']
    norm = np.sum(want ** q * om) ** (1 / q)
    p = 1.
    ec = np.average(np.asarray(g.sigma_c), weights=(np.asarray(g.lum, float) / np.max(g.lum)) ** 4 * om)
    close(g.ecc, ec, 'eccentricity of the light', rtol=1e-6)
    if not case['raw']:
        u = (ec - .009) / .111
        p = np.polyval([-499.849190278, 1837.1741161137818, -2570.6813747583033, 1587.82552529394, -275.450102180091, -104.614198351476, 2.28728777265947, 33.12797281708], u)
    score = g.compute(ev_eye=case['ev']) if case['ev'] is not None else g.compute()
    close(score, norm * p, 'score', rtol=1e-5)
    close(g.gss(want), norm * p, 'norm of the response', rtol=1e-5)
    require(np.isfinite(score) and score >= 0, 'score finite and not negative')


@CHECK.sub('plain', d(res=st.integers(8, 40), va=st.sampled_from([180, 60, 30]), seed=seeds, level=st.sampled_from([1., 30., 1e3, 1e5])), quick=60, thorough=600)
def plain(case, rec):
    """an observer of whom nothing is said: 40 years, 16.67 mm, brown-green eyes, all steps"""
    a = image(dict(case, kind='wide', level=case['level']))
    hdr.write('a.hdr', np.stack((a, a, a)), [f"VIEW= -vta -vd 0 1 0 -vh {case['va']} -vv {case['va']}"])
    kw = dict(age=40, f=16.67, scale=179, pigmentation=.106, fwidth=10, psf=True, adaptmove=True, directmove=True, raw=False)
    r = []
    for k in ({}, kw):
        g = GSS(ViewMapper(viewangle=case['va']), **k)
        g.lum = 'a.hdr'
        r.append(np.concatenate(([g.compute()], np.ravel(g.glare_response(g.lum, *g.adapt())))))
    rec.nontrivial(r[1][0] > 0)
    close(r[0], r[1], 'defaults', rtol=1e-9)
    p = np.ravel(GSS().pupil(np.array([1., 100., 1e4])))
    close(p, np.ravel(GSS(age=40, f=16.67).pupil(np.array([1., 100., 1e4]))), 'pupil of the defaults', rtol=1e-12)
