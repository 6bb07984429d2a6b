import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
import views
from gen import d, seeds
from c29 import base, scene, build, reference, ambiguous, compare, rays, ALL
from raytools.evaluate import MetricSet, ColorMetricSet
from raytools.mapper import ViewMapper

CHECK = Check('C32', rule='cases: scenes as for C29 (and more than 100 rays, and rays out of view) with 1-9 channels of independent values, any positive or partly zero '
              'coefficients (or the default for 3), lists of metrics mixing single- and multi-valued ones, repeated and in any order. '
              'Non-trivial: 2 or more channels of different values.',
              assumptions=['no ray within 1e-9 of a threshold or the edge of the view'])
#: technique: property-based testing: differential (colour against luminance) and an independent per channel sum


def channels(case, l):
    s, m = case['seed'], case['m']
    c = gen.noise(s + 50, (len(l), m)) * (gen.noise(s + 51, (len(l), m)) < .8)
    w = gen.noise(s + 52, m, .01, 1) * (gen.noise(s + 53, m) < .9)
    if np.sum(w) == 0:
        w[0] = 1.
    if case['unit']:
        w = w / np.sum(w)
    if case['default'] and m == 3:
        w = np.array([.265, .67, .065])
    return l[:, None] * c, w


extra = dict(m=st.integers(1, 9), unit=st.booleans(), default=st.sampled_from([True, True, False]), out=st.sampled_from([0, 0, 3, 30]), form=st.sampled_from(['tuple', 'list', 'array']),
             metrics=st.lists(st.sampled_from(ALL + ['irradiance'] * 8), min_size=1, max_size=8), lay=gen.layout)
extra['m'] = st.sampled_from([1, 2, 3, 3, 3, 3, 4, 9])
cbase = {**base, 'n': st.one_of(st.integers(1, 6), st.integers(1, 100), st.integers(101, 200)), 'at': st.just(False)}


def setup(case, rec):
    v, o, l = scene(case)
    rgb, w = channels(case, l)
    k = case['out'] if case['va'] != 360 else 0
    if k:
        # rays out of view, in front and behind in the list
        z = gen.unit(case['dxyz'])
        vo = gen.unit(-z + .3 * gen.sphere(case['seed'] + 60, k))
        q = np.argsort(gen.bits(case['seed'] + 61, k + len(v)), kind='stable')
        v = np.concatenate((v, vo))[q]
        o = np.concatenate((o, gen.noise(case['seed'] + 62, k)))[q]
        rgb = np.concatenate((rgb, 1e3 * gen.noise(case['seed'] + 63, (k, case['m']))))[q]
        keep = q < len(v) - k
    else:
        keep = np.full(len(v), True)
    return v, o, rgb, w, keep


def form(w, kind):
    return dict(tuple=tuple(w), list=list(w), array=np.array(w))[kind]


@CHECK.sub('luminance', d(**cbase, **extra), big=[(4, {'n': gen.some})], quick=700, thorough=15000)
def luminance(case, rec):
    v, o, rgb, w, keep = setup(case, rec)
    n, m = int(np.sum(keep)), case['m']
    lum = rgb @ w
    if case['va'] == 360 and n > 100:
        case = dict(case, area=True)
    corrected = n > 100 and not case['area']
    E = reference(case, v[keep], o[keep], lum[keep], None)
    E['abs'] = np.sum(np.abs(v @ gen.unit(case['dxyz'])) * lum * o) * case['scale']
    if ambiguous(case, v[keep], lum[keep], E, rec):
        return
    if np.any(np.abs(lum * case['scale'] - E['threshold']) < 1e-9 * (1 + E['threshold'])):
        rec.exclude('threshold')
        return
    rec.nontrivial(m > 1 and n > 1 and not np.allclose(rgb[:, 0], rgb[:, -1]))
    rec.label(f'{m} channels', 'area corrected' if corrected else 'solid angles kept')
    kw = {} if case['default'] and m == 3 else dict(vlambda=form(w, case['form']))
    a = [gen.lay(i, case['lay']) for i in (v, o, rgb)]
    cs = build(case, ColorMetricSet, *a, **kw)
    ms = build(case, MetricSet, v, o, lum)
    # single values as for the weighted sum
    got, want = cs(list(ALL)), ms(list(ALL))
    arr(got, (len(ALL),), 'single valued metrics')
    W = dict(zip(ALL, np.asarray(want, float)))
    W['abs'] = E['abs']
    compare(ALL, got, W, 'colour against luminance', rtol=1e-7)
    if not corrected:
        compare(ALL, got, E, 'formula')
    # one irradiance per channel
    wo = o[keep] if not corrected else np.asarray(ms.omega)
    irr = np.einsum('i,ij,i->j', v[keep] @ gen.unit(case['dxyz']), rgb[keep], wo) * case['scale']
    tot = np.einsum('i,ij,i->', np.abs(v[keep] @ gen.unit(case['dxyz'])), rgb[keep], wo) * case['scale']
    close(cs.irradiance, irr, 'irradiance', rtol=1e-8, atol=1e-9 * tot)
    close(np.sum(np.asarray(cs.irradiance) * w), cs.illum, 'illuminance is the weighted irradiance', rtol=1e-8, atol=1e-9 * tot)
    close(cs.rgb, rgb[keep], 'channels in the view', rtol=1e-12)
    close(cs.lum, lum[keep], 'luminance in the view', rtol=1e-9, atol=1e-9 * np.max(lum, initial=0))
    # the rays above the threshold and the others, with their channels
    limit = float(ms.threshold) if corrected else E['threshold']
    big = lum[keep] * case['scale'] > limit
    far = np.all(np.abs(lum[keep] * case['scale'] - limit) > 1e-9 * (1 + limit))
    for part, k in (('sources', big), ('background', ~big)) if far else ():
        p, q = getattr(cs, part), getattr(ms, part)
        require(len(p) == 4 and len(q) == 3, part, got=(len(p), len(q)))
        for s in (p, q):
            close(s[0], v[keep][k], f'directions of the {part}', rtol=1e-9, atol=1e-12)
            close(s[1], wo[k], f'solid angles of the {part}', rtol=1e-9, atol=1e-15)
            close(s[2], lum[keep][k], f'luminance of the {part}', rtol=1e-9, atol=1e-9 * np.max(lum, initial=0))
        close(p[3], rgb[keep][k], f'channels of the {part}', rtol=1e-12)
    # lists of both, in the order asked for
    for k, names in enumerate((case['metrics'], None, ['illum', 'irradiance', 'avglum'])):
        if k == 1:
            r = cs()
            names = ['illum', 'irradiance']
        elif k == 0:
            r = build(case, ColorMetricSet, *a, metrics=names, **kw)()
        else:
            r = cs(names)
        at = 0
        r = arr(r, (len(names) + (m - 1) * names.count('irradiance'),), 'number of values')
        for i in names:
            if i == 'irradiance':
                close(r[at:at + m], irr, 'irradiance in a list', rtol=1e-8, atol=1e-9 * tot)
                at += m
            else:
                compare([i], r[at:at + 1], W, 'single value in a list')
                at += 1
    if 'irradiance' in case['metrics'] and case['metrics'][-1] != 'irradiance':
        rec.label('single value after a multiple')


@CHECK.sub('grey', d(**cbase, m=st.integers(1, 6)), big=[(3, {'n': gen.some})], quick=150, thorough=3000)
def grey(case, rec):
    """equal channels with coefficients summing to 1 are the luminance"""
    v, o, l = scene(case)
    if case['va'] == 360 and len(v) > 100:
        case = dict(case, area=True)
    m = case['m']
    E = reference(case, v, o, l)
    E['abs'] = np.sum(np.abs(v @ gen.unit(case['dxyz'])) * l * o) * case['scale']
    if ambiguous(case, v, l, E, rec) or np.any(np.abs(l * case['scale'] - E['threshold']) < 1e-9 * (1 + E['threshold'])):
        return
    rec.nontrivial(m > 1 and E['illum'] > 0)
    cs = build(case, ColorMetricSet, v, o, np.repeat(l[:, None], m, 1), vlambda=np.full(m, 1 / m))
    W = dict(zip(ALL, np.asarray(build(case, MetricSet, v, o, l)(list(ALL)), float)), abs=E['abs'])
    compare(ALL, cs(list(ALL)), W, 'grey')
    close(cs.irradiance, np.full(m, W['illum']), 'irradiance of equal channels', rtol=1e-8, atol=1e-9 * E['abs'])


@CHECK.sub('channels', d(n=st.integers(1, 100), m=st.integers(2, 6), seed=seeds, dxyz=views.vdir, k=st.integers(0, 5), scale=st.one_of(st.sampled_from([179., 1.]), gen.logfl(.1, 1000))), big=[(3, {'n': gen.some})], quick=200, thorough=4000)
def channels_(case, rec):
    """channels do not influence each other's irradiance, and their order is kept"""
    s, n, m, dv = case['seed'], case['n'], case['m'], case['dxyz']
    v = rays(s, n, dv, 180.)
    o = gen.noise(s + 10, n) * .01
    rgb = gen.noise(s + 11, (n, m), 0, 10)
    w = gen.noise(s + 12, m, .1, 1)
    k = case['k'] % m
    rec.nontrivial(n > 1)
    vm = ViewMapper(dv, 180)
    a = np.asarray(ColorMetricSet(v, o, rgb, vm, vlambda=w, scale=case['scale'], metricset=['irradiance'])())
    two = rgb.copy()
    two[:, k] *= 3
    b = np.asarray(ColorMetricSet(v, o, two, vm, vlambda=w, scale=case['scale'], metricset=['irradiance'])())
    want = a.copy()
    want[k] *= 3
    close(b, want, 'one channel scaled', rtol=1e-9)
    p = np.argsort(gen.bits(s + 13, m), kind='stable')
    c = np.asarray(ColorMetricSet(v, o, rgb[:, p], vm, vlambda=w[p], scale=case['scale'], metricset=['irradiance', 'illum'])())
    close(c[:-1], a[p], 'channels permuted', rtol=1e-9)
    close(c[-1], np.sum(a * w), 'illuminance of permuted channels', rtol=1e-9)


@CHECK.sub('threshold', d(**{**cbase, 'scale': st.sampled_from([179., 1., 2., 100.])}, m=st.integers(1, 5), i=seeds, top=st.sampled_from([4, 16, 64])), quick=250, thorough=5000)
def threshold(case, rec):
    """rays exactly at the threshold are not sources, in colour as in luminance"""
    s = case['seed']
    v, o, _ = scene(case)
    n, m = len(v), case['m']
    # products and sums are exact
    rgb = gen.ints(s + 90, (n, m), 0, case['top'] + 1).astype(float)
    w = .5 ** gen.ints(s + 91, m, 0, 4)
    lum = rgb @ w
    th = float(lum[case['i'] % n] * case['scale'])
    if th <= 100:
        rec.exclude('task threshold')
        return
    case = dict(case, threshold=th)
    if n > 100:
        case['area'] = True
    E = reference(case, v, o, lum, None)
    E['abs'] = np.sum(np.abs(v @ gen.unit(case['dxyz'])) * lum * o) * case['scale']
    if ambiguous(case, v, lum, E, rec):
        return
    rec.nontrivial(n > 1 and m > 1 and E['pwsl2'] > 0)
    compare(ALL, build(case, ColorMetricSet, v, o, rgb, vlambda=tuple(w))(list(ALL)), E, 'colour at the threshold')


@CHECK.sub('plain', d(n=st.integers(1, 130), seed=seeds, dxyz=views.vdir, grey=st.booleans()), quick=100, thorough=2000)
def plain(case, rec):
    """nothing said: 179 lm/W, sources above 2000, solid angles as given"""
    n, s = case['n'], case['seed']
    v = gen.unit(gen.unit(case['dxyz']) + .5 * gen.sphere(s, n))
    o = gen.noise(s + 1, n, 1e-4, .02)
    rgb = gen.noise(s + 2, (n, 1 if case['grey'] else 3), .5, 1.5) * np.where(gen.noise(s + 3, (n, 1)) < .4, 2010, 1990) / 179
    vm = ViewMapper(case['dxyz'], 180)
    rec.nontrivial(n > 1)
    for cls, l in ((ColorMetricSet, np.repeat(rgb[:, :1], 3, 1) if case['grey'] else rgb), (MetricSet, rgb[:, 0])):
        r = [np.asarray(cls(v, o, l, vm, metricset=['illum', 'srcillum', 'srcarea', 'maxlum', 'dgp', 'ugr'], **k)()) for k in
             ({}, dict(scale=179., threshold=2000., guth=True, tradius=30., omega_as_view_area=False, lowlight=False))]
        close(r[0], r[1], f'defaults of {cls.__name__}', rtol=1e-10, atol=1e-12)
