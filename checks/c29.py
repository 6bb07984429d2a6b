import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr, raises
import gen
import glare
import views
from gen import d, seeds
from raytools.evaluate import BaseMetricSet, MetricSet, ColorMetricSet
from raytools.mapper import ViewMapper

CHECK = Check('C29', rule='cases: 1-100 (or more, without area correction) rays inside of a view of any direction and angle (1-180, 360), luminances over '
              'nine decades with zeros, some exactly at the threshold, some sources far above; scale, fixed or task threshold, task radius, both position '
              'indices, low light correction. Non-trivial: there are sources and background rays.',
              assumptions=['no ray within 1e-9 of a task threshold, task radius or hemisphere border', 'ratios to a background of (nearly) '
                           'nothing are not compared', 'the Kim index has no limit on the view axis: no ray is exactly there'])
#: technique: property-based testing against an independent implementation of the published formulas

BASE = ['illum', 'avglum', 'loggcr', 'gcr', 'pwgcr', 'logpwgcr', 'density', 'avgraylum', 'pwavglum', 'maxlum']
ALL = BASE + ['ugp', 'dgp', 'tasklum', 'backlum', 'dgp_t1', 'log_gc', 'dgp_t2', 'ugr', 'threshold', 'pwsl2', 'view_area', 'backlum_true', 'srcillum', 'srcarea']


def rays(seed, n, dv, va, task=0.):
    """n directions strictly inside of the view (anywhere for 360)"""
    if va == 360:
        v = gen.sphere(seed, n)
    else:
        lim = views.half(va) * (1 - 1e-6)
        z = 1 - gen.noise(seed, n) * (1 - np.cos(lim))
        near = gen.noise(seed + 1, n) < task
        z = np.where(near, 1 - (1 - z) * .05, z)
        p = gen.noise(seed + 2, n, 0, 2 * np.pi)
        r = np.sqrt(1 - z * z)
        v = np.stack((r * np.cos(p), r * np.sin(p), z), -1) @ views.frame(dv)
    return gen.unit(v)


def scene(case):
    s, n = case['seed'], case['n']
    v = rays(s, n, case['dxyz'], case['va'], .3)
    if case['axis'] and case['guth'] is not False:
        v[0] = gen.unit(case['dxyz'])
    o = 10 ** gen.noise(s + 10, n, -6, -1)
    l = 10 ** gen.noise(s + 11, n, case['lo'], case['hi'])
    l[gen.noise(s + 12, n) < case['zeros']] = 0
    src = gen.noise(s + 13, n) < case['src']
    l = np.where(src, l * 1e3, l)
    if case['at'] and case['threshold'] > 100:
        l[gen.noise(s + 14, n) < .2] = case['threshold'] / case['scale']
    return v, o, l


base = dict(n=st.one_of(st.integers(1, 100), st.integers(1, 6)), dxyz=views.vdir, va=views.va_all, seed=seeds, lo=st.sampled_from([-3., 0., 2.]), hi=st.sampled_from([0., 2., 6.]),
            zeros=st.sampled_from([0., .2, 1.]), src=st.sampled_from([0., .1, .5, 1.]), at=st.booleans(), axis=st.booleans(),
            scale=st.one_of(st.sampled_from([179., 179, 1., 1, 2., .01]), gen.logfl(.01, 1000)), threshold=st.one_of(st.sampled_from([2000., 2000, 1000., 100.5, 101, 100., 5., 3, .5]), gen.logfl(.1, 1e4)), tradius=st.one_of(st.sampled_from([None, 30., 10., 60., 120.]), st.floats(1, 175)),
            guth=st.sampled_from([None, True, False]), lowlight=st.sampled_from([None, True, False]), area=st.sampled_from([None, True, False]))
base['zeros'] = st.sampled_from([0., 0., .2, .2, 1.])


def build(case, cls, v, o, l, metrics=None, **kw):
    for k in ('tradius', 'guth', 'lowlight'):
        if case[k] is not None:
            kw[k] = case[k]
    if case['area'] is not None:
        kw['omega_as_view_area'] = case['area']
    kw.update(scale=case['scale'], threshold=case['threshold'])
    if cls is BaseMetricSet:
        kw = {k: x for k, x in kw.items() if k in ('guth', 'scale', 'omega_as_view_area')}
    if case['seed'] % 4 == 3:
        # numeric warnings are shown
        kw['warn'] = True
    vm = ViewMapper(np.array(case['dxyz']) * 2, case['va'])
    if metrics is None:
        return cls(v, o, l, vm, **kw)
    return cls(v, o, l, vm, metrics, **kw)


def reference(case, v, o, l, area=None):
    t = 30. if case['tradius'] is None else case['tradius']
    return glare.metrics(case['dxyz'], v, o, l, case['scale'], case['threshold'], 'kim' if case['guth'] is False else 'guth', t, bool(case['lowlight']), area)


def ambiguous(case, v, l, E, rec):
    a = np.degrees(gen.ang(v, gen.unit(case['dxyz'])))
    t = 30. if case['tradius'] is None else case['tradius']
    if np.any(np.abs(a - t) < 1e-6):
        rec.exclude('ray at the task radius')
        return True
    if np.any(np.abs(a - 90) < 1e-6):
        rec.exclude('ray at the hemisphere border')
        return True
    th = E['threshold']
    L = l * case['scale']
    if case['threshold'] <= 100 and np.isfinite(th) and np.any((np.abs(L - th) < 1e-9 * (1 + th)) & (L + th > 0)):
        rec.exclude('ray at the task threshold')
        return True
    if abs(E['illum'] - 500) < 1e-6:
        rec.exclude('illuminance at the low light limit')
        return True
    return False


def compare(names, got, E, msg, rtol=1e-7):
    got = np.asarray(got, float)
    require(got.shape == (len(names),), f'{msg}: number of values', got=got.shape, names=names)
    tot = abs(E['illum']) + E.get('abs', 0)
    for n, g in zip(names, got):
        w = E[n]
        tol = 1e-12
        if n in ('illum', 'srcillum', 'dgp_t1', 'dgp', 'dgp_t2', 'log_gc'):
            tol = 1e-9 * tot + 1e-9
        if n == 'backlum':
            tol = 1e-9 * tot
        if n in ('ugr', 'ugp'):
            if not E['backlum'] > 1e-5 * tot or not E['pwsl2'] > 0 and not E['backlum'] > 0:
                continue
            tol = 1e-4
        if n in ('log_gc', 'dgp_t2', 'dgp') and not E['illum'] > 1e-6 * tot:
            continue
        if n in ('loggcr', 'logpwgcr'):
            tol = 1e-7
        close(g, w, f'{msg}: {n}', rtol=rtol, atol=tol)


@CHECK.sub('formula', d(**base, metrics=st.one_of(st.none(), st.lists(st.sampled_from(ALL), min_size=1, max_size=8)), raw=st.booleans(), lay=gen.layout), big=[(4, {'n': gen.some, 'area': st.just(True)})], quick=1200, thorough=30000)
def formula(case, rec):
    v, o, l = scene(case)
    E = reference(case, v, o, l)
    E['abs'] = np.sum(np.abs(v @ gen.unit(case['dxyz'])) * l * o) * case['scale']
    if ambiguous(case, v, l, E, rec):
        return
    L = l * case['scale']
    if np.isfinite(E['threshold']):
        src = L > E['threshold']
        rec.nontrivial(np.any(src) and np.any(~src))
        if np.any(L == E['threshold']):
            rec.label('ray at the fixed threshold')
    rec.label('360' if case['va'] == 360 else '180' if case['va'] == 180 else '<180', 'kim' if case['guth'] is False else 'guth', 'task' if case['threshold'] <= 100 else 'fixed')
    vv = v * gen.noise(case['seed'] + 20, (len(v), 1), .5, 3) if case['raw'] else v
    ms = build(case, MetricSet, gen.lay(vv, case['lay']), gen.lay(o, case['lay']), gen.lay(l, case['lay']), case['metrics'])
    names = case['metrics'] or ['illum', 'avglum', 'loggcr', 'ugp', 'dgp']
    compare(names, ms(), E, 'requested')
    compare(ALL, ms(list(ALL)), E, 'all')
    for n in ALL:
        compare([n], [getattr(ms, n)], E, 'property')
    bs = build(case, BaseMetricSet, vv, o, l)
    compare(['illum', 'avglum', 'loggcr'], bs(), E, 'base set')
    compare(BASE, bs(BASE), E, 'base set')


@CHECK.sub('large', d(**{**base, 'n': st.integers(101, 400), 'area': st.just(True), 'va': views.va_all}), big=[(4, {'n': gen.some})], quick=120, thorough=3000)
def large(case, rec):
    """more than 100 rays, view area taken from the rays"""
    v, o, l = scene(case)
    E = reference(case, v, o, l)
    E['abs'] = np.sum(np.abs(v @ gen.unit(case['dxyz'])) * l * o) * case['scale']
    if ambiguous(case, v, l, E, rec):
        return
    rec.nontrivial(E['pwsl2'] > 0)
    ms = build(case, MetricSet, v, o, l, list(ALL))
    compare(ALL, ms(), E, 'all')


@CHECK.sub('lowlight', d(flash=st.sampled_from([False, False, True]), e=st.one_of(st.floats(0, 520), st.sampled_from([1., 166.6, 499., 501.])), src=st.booleans(), seed=seeds, on=st.sampled_from([None, True, False])), quick=200, thorough=3000)
def lowlight(case, rec):
    """DGP and its low light correction over the range of illuminances"""
    e, s = case['e'], case['seed']
    n = 20
    dv = gen.sphere(s, 1)[0]
    v = rays(s, n, dv, 180.)
    o = gen.noise(s + 1, n, .01, .3)
    l = gen.noise(s + 2, n, .5, 1)
    if case['src']:
        o[0], l[0] = 1e-6, 1e6
    l = l * (e / (179 * np.sum((v @ dv) * l * o)))
    if case['flash']:
        # a glare source (nearly) perpendicular to the view adds little illuminance
        rec.label('flash')
        t = gen.unit(np.cross(dv, [.3, .2, .9] if abs(dv[2]) < .9 else [1, .2, .1]))
        c = 10 ** gen.noise(s + 5, 1, -6, -3)[0]
        v[1] = gen.unit(t + c * dv)
        o[1], l[1] = 1e-10, 10 ** gen.noise(s + 6, 1, 5, 14)[0]
        if c * o[1] * l[1] > 5:
            l[1] = 5 / (c * o[1])
    rec.nontrivial(e < 500 and case['on'])
    E = glare.metrics(dv, v, o, l, lowlight=bool(case['on']))
    if abs(E['illum'] - 500) < 1e-6 or e < 1e-6:
        return
    kw = {} if case['on'] is None else dict(lowlight=case['on'])
    ms = MetricSet(v, o, l, ViewMapper(dv, 180), ['dgp', 'dgp_t1', 'dgp_t2', 'illum'], **kw)
    compare(['dgp', 'dgp_t1', 'dgp_t2', 'illum'], ms(), E, 'low light')


@CHECK.sub('names', d(cls=st.sampled_from(['base', 'metric', 'color']), names=st.lists(st.sampled_from(ALL + ['irradiance', 'bogus', 'Illum', '', 'vec', 'lum', '__init__', 'sources', 'ctheta']), min_size=1, max_size=5), tup=st.booleans()),
           quick=300, thorough=4000)
def names(case, rec):
    cls, known = dict(base=(BaseMetricSet, BASE), metric=(MetricSet, ALL), color=(ColorMetricSet, ALL + ['irradiance']))[case['cls']]
    m = case['names']
    bad = [i for i in m if i not in known]
    rec.nontrivial(bool(bad))
    v = rays(1, 5, (0, 1, 0), 180)
    l = np.ones((5, 3)) if case['cls'] == 'color' else np.ones(5)
    args = v, np.full(5, .1), l, ViewMapper(viewangle=180)
    arg = tuple(m) if case['tup'] else m
    equal(list(cls.check_metrics(arg)), [i for i in m if i in known] or np.array([], float), 'known metrics') if len(bad) < len(m) else require(list(cls.check_metrics(arg)) == [], 'known metrics')
    if bad:
        raises(AttributeError, lambda: cls(*args, metricset=arg), 'unknown metric requested')
        raises(AttributeError, lambda: cls(*args)(arg), 'unknown metric asked for')
        raises(AttributeError, lambda: cls.check_metrics(arg, True), 'check of an unknown metric')
    else:
        k = len(m) + 2 * m.count('irradiance')
        arr(cls(*args, metricset=arg)(), (k,), 'metrics')
        arr(cls(*args)(arg), (k,), 'metrics')


@CHECK.sub('empty', d(dxyz=views.vdir, va=st.floats(5., 170.), n=st.integers(1, 120), seed=seeds, cls=st.sampled_from(['metric', 'color']), area=st.sampled_from([None, True, False]), threshold=st.sampled_from([2000., 101.])), quick=150, thorough=2000)
def empty(case, rec):
    """a view that contains no ray"""
    s, n, z = case['seed'], case['n'], gen.unit(case['dxyz'])
    v = gen.sphere(s, n)
    v = np.where((gen.ang(v, z) < views.half(case['va']) + .1)[:, None], -z, v)
    o, l = gen.noise(s + 1, n, 1e-4, 1e-3), gen.noise(s + 2, n, .5, 1)
    rec.nontrivial(n > 1)
    cls = MetricSet
    if case['cls'] == 'color':
        cls, l = ColorMetricSet, l[:, None] * gen.noise(s + 3, (n, 3), .5, 1)
    kw = {} if case['area'] is None else dict(omega_as_view_area=case['area'])
    names = ['maxlum', 'srcillum', 'illum', 'srcarea', 'pwsl2', 'dgp_t1']
    ms = cls(v, o, l, ViewMapper(tuple(case['dxyz']), case['va']), names, threshold=case['threshold'], **kw)
    close(ms(), np.zeros(len(names)), f'{names} of a view without rays', atol=0)
    require(ms.maxlum == 0, 'maximum luminance', got=ms.maxlum)
