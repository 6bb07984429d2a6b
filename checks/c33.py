import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
import glare
import views
from gen import d, seeds
from raytools.evaluate import BaseMetricSet, MetricSet
from raytools.evaluate.positionindex import PositionIndex
from raytools.mapper import ViewMapper

CHECK = Check('C33', rule='cases: 1-200 source directions (everywhere, on and near the line of sight, the horizon, the vertical plane, behind) for every view '
              'direction and angle and both models; not normalised, one or many; mirrored, turned about the vertical, moved away from the line of sight. '
              'Non-trivial: sources above and below the line of sight.',
              assumptions=['no source within 1e-7 of the plane of the eye (the limit of the field of view)', 'Kim on the line of sight itself (no limit) is only finite',
                           'view directions are not within 1e-4 of (but may be exactly) vertical'])
#: technique: property-based testing against an independent implementation of the published formulas; metamorphic relations


def sources(case, dv):
    """raw directions, special ones given relative to the view"""
    s, n = case['seed'], case['n']
    v = [gen.sphere(s, n)]
    rel = []
    for kind, a, t in case['rel']:
        a, t = np.radians(a), np.radians(t)
        if kind == 'axis':
            a = 0
        elif kind == 'behind':
            a = np.pi
        elif kind == 'up':
            t = 0
        elif kind == 'down':
            t = np.pi
        elif kind == 'side':
            t = np.pi / 2
        rel.append([np.sin(a) * np.sin(t), np.sin(a) * np.cos(t), np.cos(a)])
    if rel:
        v.append(np.array(rel) @ views.frame(dv))
    v.append(np.array(case['abs'], float).reshape(-1, 3))
    return gen.unit(np.concatenate(v))


src = d(n=st.one_of(st.just(0), st.integers(1, 200)), seed=seeds, abs=st.lists(gen.dir1, max_size=4),
        rel=st.lists(st.tuples(st.sampled_from(['any', 'any', 'axis', 'behind', 'up', 'down', 'side']), st.one_of(st.floats(0, 180), gen.logfl(1e-3, 10)), st.floats(-180, 180)).map(list), min_size=1, max_size=8))
model = st.sampled_from(['guth', 'guth', 'kim'])


def usable(dv, v, m, rec):
    w = v @ views.frame(dv).T
    ok = np.abs(w[:, 2]) > 1e-7
    if not np.all(ok):
        rec.exclude('plane of the eye')
    rho = np.hypot(w[:, 0], w[:, 1])
    if m == 'kim':
        ok &= (rho > 1e-5)
    return v[ok], w[ok]


@CHECK.sub('formula', d(src=src, dxyz=views.vdir, scale=views.scales, va=views.va_all, model=model, raw=st.booleans(), lay=gen.layout), big=[(4, {'src.n': gen.some})], quick=600, thorough=15000)
def formula(case, rec):
    dv = case['dxyz']
    v, w = usable(dv, sources(case['src'], dv), case['model'], rec)
    if not len(v):
        return
    rec.label(case['model'])
    rec.nontrivial(np.any(w[:, 1] > 0) and np.any(w[:, 1] < 0) and np.any(w[:, 2] > 0))
    r = v * gen.noise(case['src']['seed'] + 5, (len(v), 1), .1, 9) if case['raw'] else v
    r = gen.lay(r, case['lay'])
    keep = r.copy()
    vm = ViewMapper(np.array(dv) * case['scale'], case['va'])
    pi = PositionIndex(case['model'] == 'guth')
    want = glare.posidx(dv, v, case['model'])
    got = pi.positions(vm, r)
    rec.label(*[k for k, c in (('limit of 16', np.any((want == 16) & (w[:, 2] > 0))), ('behind', np.any(w[:, 2] < 0))) if c])
    close(got, want, 'position index', rtol=1e-6)
    require(np.all(np.isfinite(got)), 'finite')
    equal(r, keep, 'directions passed')
    close(pi.positions(vm, r), got, 'repeated', rtol=0, atol=0)
    close(pi.positions_vec(np.array(dv) * case['scale'], r), want, 'from a view vector', rtol=1e-6)
    # one object for other directions: the same ends, the same array refilled
    o = np.arange(len(v))
    o[1:-1] = np.roll(o[1:-1], 1)
    close(pi.positions(vm, v[o]), want[o], 'inner directions in another order', rtol=1e-6)
    buf = v.copy()
    pi.positions(vm, buf)
    buf[:] = v[o[::-1]]
    close(pi.positions(vm, buf), want[o[::-1]], 'the same array with other directions', rtol=1e-6)
    k = case['src']['seed'] % len(v)
    close(pi.positions(vm, r[k:k + 1]), want[k:k + 1], 'single direction', rtol=1e-6)
    if case['model'] == 'guth':
        close(PositionIndex().positions(vm, r), want, 'default model', rtol=1e-6)
        require(np.all(np.asarray(got) <= 16) and np.all(np.asarray(got) >= 1 - 1e-9), 'between 1 and 16')


@CHECK.sub('special', d(dxyz=views.vdir, scale=views.scales, va=views.va_all, model=model, n=st.integers(1, 4)), quick=200, thorough=3000)
def special(case, rec):
    """on the line of sight and exactly behind"""
    dv = gen.unit(case['dxyz'])
    vm = ViewMapper(np.array(case['dxyz']) * case['scale'], case['va'])
    rec.nontrivial()
    p = arr(PositionIndex(case['model'] == 'guth').positions(vm, np.tile([dv, -dv], (case['n'], 1)) * case['scale']), (2 * case['n'],), 'indices')
    require(np.all(np.isfinite(p)) and np.all(p > 0), 'finite', p=p)
    if case['model'] == 'guth':
        close(p, np.tile([1, 16], case['n']), 'on and opposite to the line of sight', rtol=1e-6)


@CHECK.sub('turned', d(src=src, dxyz=views.vdir, turn=st.one_of(st.floats(-360, 360), st.sampled_from([90., 180., -90.])), model=model, va=views.va_all), quick=300, thorough=8000)
def turned(case, rec):
    dv = np.array(case['dxyz'])
    if np.hypot(*dv[:2]) < 1e-9 * np.linalg.norm(dv):
        return
    v, w = usable(dv, sources(case['src'], dv), case['model'], rec)
    if not len(v):
        return
    t = np.radians(case['turn'])
    R = np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1]])
    rec.nontrivial(np.any(w[:, 2] > 0))
    pi = PositionIndex(case['model'] == 'guth')
    a = pi.positions(ViewMapper(dv, case['va']), v)
    close(pi.positions(ViewMapper(dv @ R.T, case['va']), v @ R.T), a, 'view and sources turned together', rtol=1e-6)
    # mirrored left to right
    F = views.frame(dv)
    w[:, 0] *= -1
    close(pi.positions(ViewMapper(dv, case['va']), w @ F), a, 'mirrored', rtol=1e-6)


@CHECK.sub('monotone', d(dxyz=views.vdir, tau=st.floats(-90, 90), a=st.lists(st.floats(0, 89.9), min_size=2, max_size=20)), quick=300, thorough=8000)
def monotone(case, rec):
    """grows with the angle from the line of sight (above it), from 1"""
    t = np.radians(case['tau'])
    a = np.radians(np.sort([0.] + case['a']))
    v = np.stack((np.sin(a) * np.sin(t), np.sin(a) * np.cos(t), np.cos(a)), -1) @ views.frame(case['dxyz'])
    p = arr(PositionIndex(True).positions(ViewMapper(case['dxyz'], 180), v), (len(a),), 'indices')
    rec.nontrivial(np.ptp(a) > .01)
    close(p[0], 1, 'line of sight', rtol=1e-6)
    require(np.all(np.diff(p) >= -1e-7), 'growing', p=p)
    big = np.diff(a) > .01
    require(np.all((np.diff(p) > 0)[big] | (p[1:] == 16)[big]), 'strictly growing', p=p, a=a)


@CHECK.sub('metrics', d(src=src, dxyz=views.vdir, va=st.one_of(st.sampled_from([180., 360.]), st.floats(20, 180)), model=model), quick=200, thorough=4000)
def metrics(case, rec):
    """the position index used by the metrics"""
    dv = case['dxyz']
    v, w = usable(dv, sources(case['src'], dv), case['model'], rec)
    ok = w[:, 2] > 1e-7
    if case['va'] == 180:
        v = v[ok]
    elif case['va'] < 180:
        v = v[gen.ang(v, dv) < views.half(case['va']) - 1e-4]
    if not len(v):
        return
    rec.nontrivial(len(v) > 1)
    o, l = np.full(len(v), .01), np.ones(len(v))
    want = glare.posidx(dv, v, case['model'])
    for cls in (BaseMetricSet, MetricSet):
        ms = cls(v, o, l, ViewMapper(dv, case['va']), guth=case['model'] == 'guth', omega_as_view_area=True)
        close(ms.pos_idx, want, 'position index of the metric set', rtol=1e-6)
