import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
import views
from gen import d, seeds
from c29 import rays, base, scene, build, reference, ambiguous, BASE, ALL
from raytools.evaluate import BaseMetricSet, MetricSet, ColorMetricSet
from raytools.mapper import ViewMapper

CHECK = Check('C30', rule='cases: histories of 1-14 operations (read a property, call with a list of metrics, call the default set, replace an object) on 1-4 '
              'metric objects of three classes with own or shared scenes; scenes as for C29, permuted, rescaled, split into parts, united. '
              'Non-trivial: an object is used again after another one, or the transformed scene differs from the original.',
              assumptions=['no ray within 1e-9 of a threshold'])
#: technique: property-based testing: model-based histories against fresh objects, metamorphic relations between scenes

CLS = dict(base=BaseMetricSet, metric=MetricSet, color=ColorMetricSet)
NAMES = dict(base=BASE, metric=ALL, color=ALL + ['irradiance'])
#: array properties
ARR = ['ctheta', 'radians', 'pos_idx', 'pweight']
SRC = ['src_mask', 'task_mask', 'source_pos_idx']


def make(o, own=None):
    case = dict(o, n=o['n'])
    v, w, l = scene(case)
    if o['cls'] == 'color':
        l = l[:, None] * gen.noise(o['seed'] + 40, (len(l), 3), .2, 1)
    return build(case, CLS[o['cls']], v, w, l, own)


obj = d(cls=st.sampled_from(['base', 'metric', 'metric', 'color']), **base)
op = d(i=st.integers(0, 3), kind=st.sampled_from(['prop', 'prop', 'call', 'call', 'default', 'default', 'arrays', 'new', 'own']), m=st.lists(st.integers(0, 99), max_size=6))


@CHECK.sub('history', d(objs=st.lists(obj, min_size=1, max_size=4), share=st.booleans(), ops=st.lists(op, min_size=1, max_size=14)), quick=700, thorough=10000)
def history(case, rec):
    specs = [dict(o) for o in case['objs']]
    if case['share']:
        # same rays, other settings and classes
        for s in specs[1:]:
            for k in ('n', 'dxyz', 'va', 'seed'):
                s[k] = specs[0][k]
    live = [make(s) for s in specs]
    used, last = set(), None
    own = {}
    truth = {}

    def value(k, m):
        """from an object that has answered nothing else"""
        if (k, m) not in truth:
            truth[k, m] = np.array(getattr(make(specs[k]), m))
        return truth[k, m]
    for o in case['ops']:
        k = o['i'] % len(live)
        names = NAMES[specs[k]['cls']]
        m = [names[i % len(names)] for i in o['m']]
        rec.nontrivial(k in used and last not in (None, k))
        used.add(k)
        last = k
        rec.label(o['kind'])
        if o['kind'] == 'own':
            # an object with its own default set
            m = m or names[:1]
            rec.label('own defaults')
            own[k] = m
            live[k] = make(specs[k], list(m))
            if sum(o['m']) % 2:
                equal(np.asarray(live[k]()), np.concatenate([np.atleast_1d(value(k, i)) for i in m]), 'own default metrics')
        elif o['kind'] == 'new':
            own.pop(k, None)
            # another scene takes the place of the object
            specs[k] = dict(specs[k], seed=specs[k]['seed'] + 1)
            truth = {a: b for a, b in truth.items() if a[0] != k}
            live[k] = None
            live[k] = make(specs[k])
        elif o['kind'] == 'prop':
            for i in m:
                equal(np.asarray(getattr(live[k], i)), value(k, i), f'{i} read as property')
        elif o['kind'] == 'arrays':
            for i in (ARR + (SRC if specs[k]['cls'] != 'base' else [])):
                equal(np.asarray(getattr(live[k], i)), value(k, i), i)
        else:
            if o['kind'] == 'default':
                m = own.get(k) or {'base': ['illum', 'avglum', 'loggcr'], 'metric': ['illum', 'avglum', 'loggcr', 'ugp', 'dgp'], 'color': ['illum', 'irradiance']}[specs[k]['cls']]
                got = live[k]()
            else:
                got = live[k](m)
            if not m:
                require(len(got) == 0, 'values for an empty list of metrics', got=got)
                continue
            equal(np.asarray(got), np.concatenate([np.atleast_1d(value(k, i)) for i in m]), f'{m} by calling')


def values(case, v, o, l, names=ALL):
    return dict(zip(names, np.asarray(build(case, MetricSet, v, o, l)(list(names)), float)))


def alike(a, b, E, names, msg, rtol=1e-7):
    tot = E['abs']
    for n in names:
        tol = 1e-9
        if n in ('illum', 'srcillum', 'backlum', 'dgp_t1'):
            tol = 1e-9 * tot + 1e-12
        if n in ('ugr', 'ugp'):
            if not E['backlum'] > 1e-5 * tot:
                continue
            tol = 1e-4
        if n in ('log_gc', 'dgp', 'dgp_t2') and not E['illum'] > 1e-6 * tot:
            continue
        close(a[n], b[n], f'{msg}: {n}', rtol=rtol, atol=tol)


def start(case, rec):
    v, o, l = scene(case)
    E = reference(case, v, o, l)
    E['abs'] = np.sum(np.abs(v @ gen.unit(case['dxyz'])) * l * o) * case['scale']
    if ambiguous(case, v, l, E, rec):
        return None
    return v, o, l, E


@CHECK.sub('order', d(**base, perm=seeds), big=[(3, {'n': gen.some, 'area': st.just(True)})], quick=300, thorough=8000)
def order(case, rec):
    r = start(case, rec)
    if r is None:
        return
    v, o, l, E = r
    p = np.argsort(gen.bits(case['perm'], len(v)), kind='stable')
    rec.nontrivial(len(v) > 1 and E['illum'] > 0)
    alike(values(case, v[p], o[p], l[p]), values(case, v, o, l), E, ALL, 'rays in another order')


@CHECK.sub('scale', d(**base, k=st.one_of(st.sampled_from([2., .5, 179., 1e-3]), st.floats(1e-3, 1e3))), big=[(3, {'n': gen.some, 'area': st.just(True)})], quick=300, thorough=8000)
def scale(case, rec):
    r = start(dict(case, at=False), rec)
    if r is None:
        return
    v, o, l, E = r
    k = case['k']
    rec.nontrivial(k != 1 and E['illum'] > 0)
    a = values(case, v, o, l * k)
    b = values(dict(case, scale=case['scale'] * k), v, o, l)
    E['abs'] *= k
    E2 = reference(dict(case, scale=case['scale'] * k), v, o, l)
    if np.any(np.abs(l * case['scale'] * k - E2['threshold']) < 1e-9 * (1 + E2['threshold'])) or abs(E2['illum'] - 500) < 1e-6:
        rec.exclude('threshold')
        return
    E.update({i: E2[i] for i in ('illum', 'backlum', 'pwsl2')})
    alike(a, b, E, ALL, 'scaled luminance and scaled scale')


@CHECK.sub('split', d(**base, parts=st.integers(2, 5), share=st.floats(.05, 1)), big=[(3, {'n': gen.some, 'area': st.just(True)})], quick=300, thorough=8000)
def split(case, rec):
    r = start(case, rec)
    if r is None:
        return
    v, o, l, E = r
    s, n = case['seed'], len(v)
    k = np.where(gen.noise(s + 70, n) < case['share'], gen.ints(s + 71, n, 1, case['parts'] + 1), 1)
    if np.sum(k) > 100 and not case['area'] and n <= 100:
        case = dict(case, area=True)
    i = np.repeat(np.arange(n), k)
    f = gen.noise(s + 72, len(i), .1, 1)
    f = f / np.bincount(i, f)[i]
    rec.nontrivial(len(i) > n)
    names = [m for m in ALL if m not in ('density', 'avgraylum')]
    alike(values(case, v[i], o[i] * f, l[i]), values(case, v, o, l), E, names, 'rays split into parts')


@CHECK.sub('union', d(**base, cut=st.floats(0, 1)), big=[(3, {'n': gen.some, 'area': st.just(True)})], quick=300, thorough=8000)
def union(case, rec):
    r = start(case, rec)
    if r is None:
        return
    v, o, l, E = r
    a = gen.noise(case['seed'] + 80, len(v)) < case['cut']
    if np.all(a) or not np.any(a):
        return
    rec.nontrivial(E['illum'] > 0)
    w, x, y = (values(case, v[m], o[m], l[m]) for m in (slice(None), a, ~a))
    names = ['illum', 'view_area']
    if case['threshold'] > 100:
        names += ['pwsl2', 'srcillum', 'srcarea']
    for n in names:
        close(x[n] + y[n], w[n], f'{n} of the union', rtol=1e-8, atol=1e-9 * (E['abs'] if n != 'view_area' else 1))
    close(x['avglum'] * x['view_area'] + y['avglum'] * y['view_area'], w['avglum'] * w['view_area'], 'luminous flux of the union', rtol=1e-8)


@CHECK.sub('power', d(**base, k=st.sampled_from([2., .25, 7.])), quick=200, thorough=4000)
def power(case, rec):
    """homogeneity: twice the solid angle or luminance"""
    if case['threshold'] > 100:
        case = dict(case, threshold=5.)
    r = start(dict(case, at=False), rec)
    if r is None:
        return
    v, o, l, E = r
    k = case['k']
    a, b = values(case, v, o, l), values(case, v, o, l * k)
    rec.nontrivial(E['illum'] > 0)
    for n in ('illum', 'avglum', 'maxlum', 'avgraylum', 'pwavglum', 'tasklum', 'srcillum', 'backlum', 'backlum_true', 'threshold'):
        close(b[n], a[n] * k, f'{n} for {k} times the luminance', rtol=1e-7, atol=1e-9 * E['abs'] * k)
    for n in ('gcr', 'pwgcr', 'density', 'srcarea', 'view_area'):
        close(b[n], a[n], f'{n} for {k} times the luminance', rtol=1e-7)
    c = values(case, v, o * k, l)
    for n in ('illum', 'srcillum', 'srcarea', 'view_area', 'pwsl2', 'backlum'):
        close(c[n], a[n] * k, f'{n} for {k} times the solid angle', rtol=1e-7, atol=1e-9 * E['abs'] * k)
    for n in ('avglum', 'maxlum', 'gcr', 'pwgcr', 'pwavglum', 'tasklum', 'backlum_true'):
        close(c[n], a[n], f'{n} for {k} times the solid angle', rtol=1e-7)


@CHECK.sub('safe', d(cls=st.sampled_from(['base', 'metric', 'color']), n=st.lists(st.integers(101, 160), min_size=2, max_size=2), dxyz=views.vdir, va=views.va_all.filter(lambda a: a <= 180),
                     seed=seeds, names=st.lists(st.integers(0, 99), min_size=1, max_size=5), only=st.booleans(), src=st.sampled_from([0., .1, .5])), quick=200, thorough=4000)
def safe(case, rec):
    """metrics that may be added are those that add up over separate sources of a view"""
    cls = CLS[case['cls']]
    known = ['illum', 'avglum', 'density'] + (['pwsl2', 'srcillum'] if case['cls'] != 'base' else []) + (['irradiance'] if case['cls'] == 'color' else [])
    names = NAMES[case['cls']]
    m = [names[i % len(names)] for i in case['names']]
    if case['only']:
        m = [known[i % len(known)] for i in case['names']]
    ok = cls.check_safe2sum(m)
    require(bool(ok) == all(bool(cls.check_safe2sum([i])) for i in m), 'a list is safe when all of its metrics are', metrics=m)
    for i in known:
        require(cls.check_safe2sum([i]), 'additive metric', metric=i)
    rec.label('safe' if ok else 'not safe')
    rec.nontrivial(len(m) > 1)
    # all that are safe by themselves
    m = [i for i in names if cls.check_safe2sum([i])]
    require(cls.check_safe2sum(m), 'list of the safe metrics', metrics=m)
    s, n = case['seed'], sum(case['n'])
    v = rays(s, n, case['dxyz'], case['va'])
    keep = gen.ang(v, gen.unit(case['dxyz'])) < views.half(case['va']) * .8
    # (no ray at the edge of the view, so no area is corrected)
    v = np.where(keep[:, None], v, gen.unit(case['dxyz']))
    o = np.full(n, views.half(case['va']) ** 2 * 1e-4)
    l = np.where(gen.noise(s + 1, n) < case['src'], 1e3, 1) * gen.noise(s + 2, n, .1, 1)
    if case['cls'] == 'color':
        l = l[:, None] * gen.noise(s + 3, (n, 3), .2, 1)
    vm = ViewMapper(tuple(case['dxyz']), case['va'])
    a = np.arange(n) < case['n'][0]
    full, x, y = (np.asarray(cls(v[k], o[k], l[k], vm, omega_as_view_area=False)(list(m)), float) for k in (slice(None), a, ~a))
    close(x + y, full, f'{m} of separate sources', rtol=1e-9, atol=1e-12)
