import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
import glare
import views
from gen import d, seeds
from c29 import rays, compare, ALL
from raytools.evaluate import BaseMetricSet, MetricSet, ColorMetricSet
from raytools.mapper import ViewMapper

CHECK = Check('C31', rule='cases: rays inside of a view of any direction and angle, plus rays behind or just beyond its edge: dim or bright, small or large, '
              'overlapping the edge or not, none to several of each kind, in any order; solid angles kept or corrected to the view area, 1-400 rays, '
              'three metric classes. Non-trivial: rays at or beyond the edge.',
              assumptions=['bright rays overlapping the edge are centred beyond half the view angle and smaller than a third of the view', 'no ray within 1e-6 degrees of an edge or limit'])
#: technique: property-based testing against an independent geometric reference; metamorphic relations (adding rays out of view)

CLS = st.sampled_from(['base', 'metric', 'metric', 'color'])


def make(cls, v, o, l, vm, metrics=None, **kw):
    if cls == 'color':
        # channels whose weighted sum is the luminance
        l = np.stack((l * .5, l, l * 2), -1) / (.265 * .5 + .67 + .065 * 2)
    return dict(base=BaseMetricSet, metric=MetricSet, color=ColorMetricSet)[cls](v, o, l, vm, metrics, **kw)


def around(seed, dv, deg):
    """rays at the given angles from the view direction"""
    a, p = np.radians(deg), gen.noise(seed, len(deg), 0, 2 * np.pi)
    return gen.unit(np.stack((np.sin(a) * np.cos(p), np.sin(a) * np.sin(p), np.cos(a)), -1) @ views.frame(dv))


def lens(d, w, a=np.pi / 2):
    """area common to two disks at distance d: the view (radius a) and a ray of area w"""
    b = np.sqrt(w / np.pi)
    x = (d * d + a * a - b * b) / (2 * d)
    al, be = np.arccos(x / a), np.arccos((d - x) / b)
    return a * a * (al - np.sin(2 * al) / 2) + b * b * (be - np.sin(2 * be) / 2), x


edge = d(deg=st.one_of(st.floats(90.0001, 90.98), st.floats(90.0001, 90.98), st.floats(90.0001, 90.3), st.floats(91.002, 93), st.floats(93, 179.99)),
         w=gen.logfl(1e-5, .02), bright=st.sampled_from([0., .5, 3., 20., 100., 1e3, 1e4, 1e5, 1e6]))


@CHECK.sub('stray', d(cls=CLS, n=st.integers(0, 60), seed=seeds, dxyz=views.vdir, out=st.lists(edge, min_size=1, max_size=8), asarea=st.booleans(), perm=st.booleans(),
                      va=st.one_of(st.just(180.), st.just(180.), st.sampled_from([6., 10., 20., 30., 60., 90.]), st.floats(5, 180)),
                      zero=st.sampled_from([False, False, False, True]), ints=st.sampled_from([False, False, True]), lay=gen.layout), quick=1500, thorough=30000)
def stray(case, rec):
    s, n, dv = case['seed'], case['n'], case['dxyz']
    m = len(case['out'])
    va = case['va']
    lim = va / 2
    # the same distances from the edge for every view angle
    deg = np.array([lim + min(e['deg'] - 90, (e['deg'] - 90) / 90 * (180 - lim) if e['deg'] > 93 else 3) for e in case['out']])
    inside = rays(s, n, dv, va)
    v = np.concatenate((inside, around(s + 5, dv, deg)))
    o = np.concatenate((10 ** gen.noise(s + 10, n, -5, -2), [min(e['w'], np.pi * np.radians(lim / 3) ** 2) for e in case['out']]))
    l = np.concatenate((gen.noise(s + 11, n, .1, 1.9), [e['bright'] for e in case['out']]))
    if case['ints'] and va == 180:
        # integer luminances and solid angles
        o = np.where(np.arange(n + m) < n, 1, 0) + gen.ints(s + 12, n + m, 0, 2)
        l = np.ceil(l).astype(int)
        rec.label('integers')
    if case['zero']:
        l = l * 0
    k = np.argsort(gen.bits(s + 20, n + m), kind='stable') if case['perm'] else np.arange(n + m)
    v, o, l = v[k], o[k], l[k]
    ds = np.degrees(gen.ang(v, gen.unit(dv)))
    avg = np.mean(l)
    keep = ds < lim
    if np.any(np.abs(ds - lim) < 1e-6) or np.any(np.abs(l - 10 * avg) < 1e-9 * (avg + 1)) and avg > 0 or np.any(np.abs(ds[~keep] - lim - 1) < .0015):
        rec.exclude('at a limit')
        return
    ev, eo = v.copy(), o.astype(float)
    b = np.degrees(np.sqrt(o / np.pi))
    if np.any(np.abs(ds - lim - b)[~keep] < 1e-6):
        rec.exclude('disk touching the edge')
        return
    over = ~keep & (ds < lim + 1 + 1e-5 * lim) & (ds - lim < b)
    if avg > 0:
        over &= l > 10 * avg
    else:
        over &= False
    for i in np.flatnonzero(over):
        eo[i], x = lens(np.radians(ds[i]), o[i], np.radians(lim))
        # on the great circle through the axis and the ray
        z = gen.unit(dv)
        h = gen.unit(v[i] - (v[i] @ z) * z)
        ev[i] = np.cos(x) * z + np.sin(x) * h
    if np.any(over):
        rec.label('narrow view' if va < 180 else '180 degrees', f'{min(3, np.sum(over))} overlapping')
    if np.any(~keep & ~over):
        rec.label('without influence')
    rec.nontrivial(np.any(over) or np.any(~keep & (l > 10 * avg)))
    keep |= over
    vm = ViewMapper(dv, va)
    a = [gen.lay(i, case['lay']) for i in (v, o, l)]
    ms = make(case['cls'], *a, vm, omega_as_view_area=case['asarea'])
    close(ms.vec, ev[keep], 'rays in the view', atol=1e-7)
    close(ms.omega, eo[keep], 'solid angles', rtol=1e-6, atol=1e-12)
    close(ms.lum, l[keep], 'luminances')
    close(ms.view_area, np.sum(eo[keep]), 'view area', rtol=1e-6, atol=1e-12)
    equal(np.asarray(a[1]), o, 'solid angles passed')
    equal(np.asarray(a[0]), v, 'directions passed')
    # the metrics are those of the remaining rays
    if np.any(keep) and case['cls'] != 'base':
        E = glare.metrics(dv, ev[keep], eo[keep], l[keep])
        if abs(E['illum'] - 500) > 1e-6 and not np.any(np.abs(l * 179 - 2000) < 1e-6):
            t = np.degrees(gen.ang(ev[keep], gen.unit(dv)))
            if np.any(np.abs(t - 30) < 1e-6):
                return
            compare([i for i in ALL if i != 'tasklum'], make(case['cls'], *a, vm)([i for i in ALL if i != 'tasklum']), E, 'metrics', rtol=1e-5)


@CHECK.sub('outside', d(cls=CLS, n=st.one_of(st.integers(1, 60), st.integers(95, 150)), m=st.one_of(st.integers(1, 20), st.integers(60, 200)), seed=seeds, dxyz=views.vdir, va=views.va180, asarea=st.booleans(),
                        near=st.booleans()), big=[(4, {'n': gen.some, 'm': gen.some})], quick=400, thorough=10000)
def outside(case, rec):
    """dim rays beyond the edge and any rays far outside do not change anything"""
    s, n, m, dv, va = (case[i] for i in ('seed', 'n', 'm', 'dxyz', 'va'))
    v = rays(s, n, dv, va)
    o = 10 ** gen.noise(s + 10, n, -5, -2)
    l = gen.noise(s + 11, n, .1, 1.9) * 10 ** gen.noise(s + 12, n, 0, 3)
    lim = va / 2 + 1.1
    if case['near']:
        lim = np.degrees(views.half(va)) + 1e-5
        lw = np.full(m, .01)
        rec.label('dim at the edge')
    else:
        lw = 10 ** gen.noise(s + 13, m, -3, 5)
        rec.label('bright far outside')
    vo = around(s + 14, dv, lim + gen.noise(s + 15, m) ** 3 * (180 - lim))
    ow = 10 ** gen.noise(s + 16, m, -5, 0)
    rec.nontrivial()
    k = np.argsort(gen.bits(s + 20, n + m), kind='stable')
    vm = ViewMapper(dv, va)
    kw = dict(omega_as_view_area=case['asarea'])
    names = [i for i in (BaseMetricSet if case['cls'] == 'base' else MetricSet).allmetrics]
    if np.any(np.abs(np.degrees(gen.ang(v, gen.unit(dv))) - 30) < 1e-6):
        return
    want = make(case['cls'], v[k[k < n]], o[k[k < n]], l[k[k < n]], vm, **kw)
    got = make(case['cls'], np.concatenate((v, vo))[k], np.concatenate((o, ow))[k], np.concatenate((l, lw))[k], vm, **kw)
    close(got.vec, want.vec, 'rays', atol=1e-12)
    close(got.lum, want.lum, 'luminances')
    close(got.omega, want.omega, 'solid angles', atol=0)
    close(got.view_area, want.view_area, 'view area')
    if case['cls'] != 'base' and not float(want.backlum) * np.pi > 1e-4 * float(want.illum):
        # what is left after the sources is rounding only
        names = [i for i in names if i not in ('backlum', 'ugr', 'ugp')]
    close(got(names), want(names), 'metrics', rtol=1e-9, atol=1e-9)


@CHECK.sub('area', d(cls=CLS, n=st.one_of(st.integers(95, 106), st.integers(101, 400)), m=st.integers(0, 40), seed=seeds, dxyz=views.vdir, va=st.one_of(st.just(180.), st.just(180), views.va180), big=st.sampled_from([.2, .9, 1., 1., 1.1, 2.5]), sort=st.booleans(),
                     same=st.booleans(), mode=st.sampled_from(['correct', 'correct', 'correct', 'default', 'keep'])), big=[(5, {'n': gen.some, 'm': st.integers(0, 300)})], quick=500, thorough=12000)
def area(case, rec):
    """solid angles corrected to the view area at the edge only"""
    s, n, m, dv, va = (case[i] for i in ('seed', 'n', 'm', 'dxyz', 'va'))
    v = rays(s, n, dv, va)
    A = 2 * np.pi * (1 - np.cos(np.radians(va) / 2))
    o = np.ones(n) if case['same'] else gen.noise(s + 10, n, .2, 1)
    o = o * A * case['big'] / np.sum(o)
    l = gen.noise(s + 11, n, .1, 1.9)
    vo = around(s + 14, dv, va / 2 + 1.5 + gen.noise(s + 15, m) * (178 - va / 2))
    vv, oo, ll = np.concatenate((v, vo)), np.concatenate((o, gen.noise(s + 16, m))), np.concatenate((l, gen.noise(s + 17, m)))
    th = gen.ang(v, gen.unit(dv))
    kw = {} if case['mode'] == 'default' else dict(omega_as_view_area=case['mode'] == 'keep')
    # the default corrects, but for BaseMetricSet
    correct = case['mode'] == 'correct' or case['mode'] == 'default' and case['cls'] != 'base'
    ms = make(case['cls'], vv, oo, ll, ViewMapper(dv, va), **kw)
    rec.label('corrected' if correct and n > 100 else 'kept', case['mode'])
    names = ['illum', 'avglum', 'density', 'avgraylum', 'gcr']
    if not correct or n <= 100:
        close(ms.omega, o, 'solid angles kept', atol=0)
        close(ms.view_area, np.sum(o), 'view area of the rays')
        w, va_ = o, np.sum(o)
    else:
        side = np.sqrt(o)
        lim = np.radians(va) / 2
        excess = np.sum(o) - A
        k = 0
        while True:
            on = th > lim - side
            if np.any(np.abs(th - lim + side) < 1e-9):
                rec.exclude('ray at the limit')
                return
            t = np.sum(o[on])
            f = 1 - excess / t if t > 0 else 1.
            if abs(f) < 1e-9:
                rec.exclude('edge exactly used up')
                return
            if f > 0:
                break
            side = side * 1.1
            k += 1
            rec.label('wider edge needed')
        rec.nontrivial(np.any(on) and np.any(~on) and abs(f - 1) > 1e-3)
        w = np.where(on, o * f, o)
        got = arr(ms.omega, (n,), 'solid angles')
        # stated facts, then the exact rule
        close(ms.view_area, A, 'view area')
        if np.any(on):
            close(np.sum(got), A, 'sum of the corrected solid angles')
            rec.label('edge rays')
        require(np.all(got > 0), 'corrected solid angles are positive')
        close(got[~on], o[~on], 'solid angles away from the edge')
        close(got, w, 'corrected solid angles', rtol=1e-7)
        va_ = A
    L = l * 179
    c = np.cos(th)
    al = np.sum(L * w) / va_
    close(ms(names), [np.sum(c * L * w), al, n / va_, np.mean(L), np.sum(L * L * w) / va_ / al ** 2], 'metrics', rtol=1e-7)


@CHECK.sub('sphere', d(cls=CLS, n=st.integers(1, 100), seed=seeds, dxyz=views.vdir, asarea=st.booleans()), big=[(3, {'n': gen.some, 'asarea': st.just(True)})], quick=150, thorough=3000)
def sphere(case, rec):
    """full-sphere views keep every ray"""
    s, n, dv = case['seed'], case['n'], case['dxyz']
    v = gen.sphere(s, n)
    if n > 3:
        v[0], v[1] = -gen.unit(dv), gen.unit(dv)
    o = 10 ** gen.noise(s + 10, n, -5, -1)
    l = 10 ** gen.noise(s + 11, n, -2, 5)
    rec.nontrivial(n > 3)
    ms = make(case['cls'], v, o, l, ViewMapper(dv, 360), omega_as_view_area=case['asarea'])
    close(ms.vec, v, 'rays')
    close(ms.lum, l, 'luminances')
    close(ms.omega, o, 'solid angles', atol=0)
    close(ms.view_area, np.sum(o), 'view area')
    c = v @ gen.unit(dv)
    close(ms(['illum', 'density', 'avglum']), [np.sum(c * l * o) * 179, n / np.sum(o), np.sum(l * o) / np.sum(o) * 179], 'metrics', rtol=1e-7, atol=1e-7 * np.sum(l * o))
