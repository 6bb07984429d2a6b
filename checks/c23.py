import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
from gen import d, seeds, unit
from raytools import imagetools
from raytools.evaluate import retina

CHECK = Check('C23', rule='cases: background rays plus a bright cluster whose rays lie inside and outside of the grouping radius, '
              'brightness on both sides of the threshold, total energy below or above that of the target, a second bright cluster, '
              'grey or colour, all parameters. Non-trivial: rays are removed and others above the threshold are kept.',
              assumptions=['no two bright rays have the same luminance', 'no ray within 1e-6 of the '
                           'radius, threshold, ratio or energy limit'])
#: technique: property-based testing: reference selection, conservation law, equivalence of return forms, permutation relation

DEF = (0.265, 0.670, 0.065)


def scene(case):
    s = case['seed']
    n, m, q = case['n'], case['m'], case['q']
    rad = (case['peaka'] / np.pi) ** .5 * case['peakrad']
    ctr = unit(case['ctr'])
    t1 = unit(np.cross(ctr, [.3, .2, .9] if abs(ctr[2]) < .9 else [1, .2, .1]))
    t2 = np.cross(ctr, t1)

    def cluster(c, k, spread, sd):
        r = rad * spread * gen.noise(sd, k) ** .5
        a = gen.noise(sd + 1, k, 0, 2 * np.pi)
        x = np.cos(r)[:, None] * c + np.sin(r)[:, None] * (np.cos(a)[:, None] * t1 + np.sin(a)[:, None] * t2)
        return unit(x)
    thr = case['peakt'] / case['scale']
    v = [gen.sphere(s, n), cluster(ctr, m, case['spread'], s + 10)]
    l = [gen.noise(s + 2, n, 0, .9) * thr, thr * 10 ** gen.noise(s + 3, m, -.3, case['dec'])]
    o = [gen.noise(s + 4, n, .5, 1.5) * 1e-3, case['peaka'] * case['osize'] * gen.noise(s + 5, m, .5, 1.5)]
    if q:
        v.append(unit(gen.sphere(s + 20, 1)[0] + .02 * gen.normal(s + 21, (q, 3))))
        l.append(thr * gen.noise(s + 22, q, 1.01, 1.5))
        o.append(case['peaka'] * gen.noise(s + 23, q, .1, 1))
    if case['flat']:
        # a plateau: a nearly uniform sun (all different by a little)
        l[1] = thr * 10 ** (case['dec'] * .6) * (1 + .2 * gen.noise(s + 3, m))
    v, o, l = np.concatenate(v), np.concatenate(o), np.concatenate(l)
    p = np.argsort(gen.noise(s + 30, len(v)), kind='stable')
    v, o, l = v[p], o[p], l[p]
    if case['color']:
        c = gen.noise(s + 31, (len(v), 3), .2, 1)
        vl = np.array(case['vlambda'] or DEF)
        l = c * (l / (c @ vl))[:, None]
    return v, o, l


common = dict(n=st.one_of(st.integers(3, 80), st.integers(0, 3)), m=st.one_of(st.integers(0, 25), st.integers(0, 3)), q=st.sampled_from([0, 0, 1, 5]), ctr=gen.dir1, seed=seeds,
              spread=st.one_of(st.sampled_from([.5, .9, 1.5, 2.5]), st.floats(.2, 12)), dec=st.sampled_from([.1, 1., 2., 4.]), osize=st.one_of(st.sampled_from([.003, .02, .1, .5, 2.]), gen.logfl(1e-3, 10)),
              peaka=st.one_of(st.sampled_from([6.7967e-05, 6.7967e-05, 1e-4, 2e-5, 1e-3]), gen.logfl(1e-6, 1e-2)), peakt=st.one_of(st.sampled_from([1e5, 1e5, 1e4, 2000]), gen.logfl(100, 1e6)), scale=st.one_of(st.sampled_from([179, 179, 1., 3.5]), gen.logfl(.1, 1000)),
              peakrad=st.one_of(st.sampled_from([4., 4., 2., 8.]), st.floats(.5, 30)), peakr=st.one_of(st.sampled_from([4, 4, 2, 10, 1.5]), st.floats(1, 40)), peakc=st.one_of(st.sampled_from([1., 1., 1., 1.4, .8]), st.floats(.3, 3)),
              blurtol=st.one_of(st.sampled_from([.75, .75, 1., .5]), st.floats(.05, 1)), color=st.booleans(), vlambda=st.sampled_from([None, None, [.2, .5, .3], [1 / 3, 1 / 3, 1 / 3], [47.4, 119.9, 11.6], [.5, 0., .1]]),
              flat=st.booleans(), explicit=st.booleans())
PAR = ['scale', 'peaka', 'peakt', 'peakr', 'blurtol', 'peakc', 'peakrad']
DEFAULTS = dict(scale=179, peaka=6.7967e-05, peakt=1e5, peakr=4, blurtol=.75, peakc=1., peakrad=4.)


def select(v, o, y, case):
    """reference: indices removed, ambiguous?"""
    thr = case['peakt'] / case['scale']
    bright = np.nonzero(y > thr)[0]
    rad = (case['peaka'] / np.pi) ** .5 * case['peakrad']
    if np.any(np.abs(y / thr - 1) < 1e-9):
        return None, 'threshold'
    if len(bright) == 0:
        return bright, 'none'
    bright = bright[np.argsort(-y[bright], kind='stable')]
    if np.any(np.diff(-y[bright]) < 1e-12 * y[bright][:-1]):
        return None, 'equal luminance'
    a = gen.ang(v[bright[0]], v[bright])
    if np.any(np.abs(a / rad - 1) < 1e-6):
        return None, 'radius'
    c = bright[a < rad]
    yc = y[c]
    if np.any(np.abs(yc / yc[0] / case['blurtol'] - 1) < 1e-9) and case['blurtol'] != 1:
        return None, 'blur tolerance'
    full = np.mean(yc[yc >= yc[0] * case['blurtol']]) * case['peaka'] * case['peakc']
    e = np.cumsum(o[c] * yc)
    if np.any(np.abs(e / full - 1) < 1e-9):
        return None, 'energy'
    if e[-1] > full:
        k = int(np.argmax(e > full))
        return c[:k or len(c)], 'full'
    if np.any(np.abs(yc * case['peakr'] / yc[0] - 1) < 1e-9):
        return None, 'ratio'
    return c[yc >= yc[0] / case['peakr']], 'partial'


@CHECK.sub('peak', d(**common), big=[(5, {'n': gen.some})], quick=900, thorough=25000)
def peak(case, rec):
    v, o, l = scene(case)
    color = l.ndim > 1
    y = l @ np.array(case['vlambda'] or DEF) if color else l
    pc, kind = select(v, o, y, case)
    if pc is None:
        rec.exclude(kind)
        return
    rec.label(kind, 'colour' if color else 'grey')
    kw = {k: case[k] for k in PAR if case['explicit'] or case[k] != DEFAULTS[k]}
    if color and case['vlambda']:
        kw['vlambda'] = case['vlambda']
    keep = v.copy(), o.copy(), l.copy()
    sh = l.shape[1:]
    rest = np.setdiff1d(np.arange(len(v)), pc)
    rec.nontrivial(len(pc) > 0 and np.any(y[rest] > case['peakt'] / case['scale']))
    vo, oo, lo = imagetools.normalize_peak(v, o, l, **kw)
    if kind == 'none':
        equal(vo, v, 'directions without a peak')
        equal(oo, o, 'solid angles without a peak')
        equal(lo, l, 'values without a peak')
        p = imagetools.normalize_peak(v, o, l, returnall=False, **kw)
        require(not np.any(p), 'peak of a scene without one')
        require(np.shape(p) == (4 + (l.shape[1] if color else 1),), 'shape of the peak of a scene without one', got=np.shape(p))
        p = imagetools.normalize_peak(v, o, l, returnparts=True, **kw)
        require(not np.any(p[0]) and np.shape(p[0]) == (4 + (l.shape[1] if color else 1),), 'parts of a scene without a peak', got=p[0])
        for a, b in zip(p[1:], (v, o, l)):
            equal(a, b, 'parts of a scene without a peak')
        return
    n = len(rest)
    close(vo[:n], v[rest], 'other rays', rtol=0, atol=0)
    close(oo[:n], o[rest], 'other solid angles', rtol=0, atol=0)
    close(lo[:n], l[rest], 'other values', rtol=0, atol=0)
    require(len(vo) == n + 1 and np.shape(oo) == (n + 1,) and np.shape(lo) == (n + 1, *sh), 'number of rays', removed=len(pc), got=len(v) - len(vo) + 1)
    pv, po, pl = vo[-1], oo[-1], lo[-1]
    close(np.linalg.norm(pv), 1, 'direction of the source is a unit vector', atol=1e-12)
    w = (o * y)[pc]
    close(pv, unit(np.sum(v[pc] * w[:, None], 0)), 'direction of the source', atol=1e-9)
    e = np.sum((l.T * o).T[pc], 0)
    close(po * pl, e, 'energy of the source', rtol=1e-9, atol=0)
    if kind == 'full' or case['peakc'] > 1:
        close(po, case['peaka'], 'area of the source', rtol=1e-9, atol=0)
    else:
        close(po, np.sum(w) / y[pc[0]], 'area of a partial source', rtol=1e-9, atol=0)
        require(po <= case['peaka'] * (1 + 1e-9) * max(case['peakc'], 1), 'a partial source is not larger than a full one')
    # other return forms
    src = imagetools.normalize_peak(v, o, l, returnall=False, **kw)
    parts(src, pv, po, pl, 'peak only')
    r = imagetools.normalize_peak(v, o, l, returnparts=True, **kw)
    parts(r[0], pv, po, pl, 'parts')
    for a, b in zip(r[1:], (v[rest], o[rest], l[rest])):
        close(a, b, 'rays returned in parts', rtol=0, atol=0)
    z = imagetools.normalize_peak(v, o, l, keepzeros=True, **kw)
    close(z[0][:-1], v, 'kept rays', rtol=0, atol=0)
    oz, lz = o.copy(), l.copy()
    oz[pc] = 0
    lz[pc] = 0
    close(z[1][:-1], oz, 'kept zeros (solid angle)', rtol=0, atol=0)
    close(z[2][:-1], lz, 'kept zeros (value)', rtol=0, atol=0)
    parts((z[0][-1], z[1][-1], z[2][-1]), pv, po, pl, 'kept zeros')
    r = imagetools.normalize_peak(v, o, l, returnparts=True, keepzeros=True, **kw)
    parts(r[0], pv, po, pl, 'parts with kept zeros')
    for a, b in zip(r[1:], (v, oz, lz)):
        close(a, b, 'kept rays in parts', rtol=0, atol=0)
    r = imagetools.normalize_peak(v, o, l, findsecondary=True, **kw)
    parts(r[0], pv, po, pl, 'with secondary peaks')
    r = imagetools.find_peak(v, o, l, **kw)
    parts(r[0], pv, po, pl, 'find_peak')
    equal(np.sort(r[2]), np.sort(pc), 'rays of the peak')
    # human blur keeps the energy
    b = imagetools.normalize_peak(v, o, l, blursun=True, returnall=False, **kw)
    close(b[1] * np.ravel(b[2]), np.atleast_1d(e), 'energy of a blurred source', rtol=1e-9, atol=0)
    # the blur depends on the luminance of the source
    yl = np.sum(w) / po
    close(b[1], po * float(np.ravel(retina.blur_sun(po, yl))[0]), 'area of a blurred source', rtol=1e-7, atol=0)
    b2 = imagetools.normalize_peak(v, o, l, blursun=True, **kw)
    close(b2[1][-1], b[1], 'area of a blurred source', rtol=1e-9, atol=0)
    close(b2[2][-1] * b2[1][-1], e, 'energy of a blurred source', rtol=1e-9, atol=0)
    close(b2[0][-1], pv, 'direction of a blurred source', atol=1e-9)
    # order of the rays
    p = np.argsort(gen.noise(case['seed'] + 50, len(v)), kind='stable')
    vp, op, lp = imagetools.normalize_peak(v[p], o[p], l[p], **kw)
    keepp = ~np.isin(p, pc)
    close(vp[:-1], v[p][keepp], 'other order of rays', rtol=0, atol=0)
    close(op[:-1], o[p][keepp], 'other order of rays', rtol=0, atol=0)
    close(lp[:-1], l[p][keepp], 'other order of rays', rtol=0, atol=0)
    parts((vp[-1], op[-1], lp[-1]), pv, po, pl, 'other order of rays')
    for a, b in zip((v, o, l), keep):
        equal(a, b, 'input changed')


def parts(p, pv, po, pl, msg):
    close(np.ravel(p[0]), pv, f'{msg}: direction', atol=1e-9)
    close(p[1], po, f'{msg}: area', rtol=1e-9, atol=0)
    close(np.ravel(p[2]), np.atleast_1d(pl), f'{msg}: value', rtol=1e-9, atol=0)


def groups(v, y, bright, rad):
    """rays around the brightest remaining one, until fewer than four remain"""
    bright = bright[np.argsort(-y[bright], kind='stable')]
    out, near = [], False
    while len(bright) > 3:
        a = gen.ang(v[bright[0]], v[bright])
        near = near or np.any(np.abs(a / rad - 1) < 1e-6)
        out.append(bright[a < rad])
        bright = bright[a >= rad]
    return out, near


@CHECK.sub('secondary', d(n=st.integers(0, 60), sizes=st.lists(st.integers(1, 9), min_size=1, max_size=5), level=st.sampled_from([.9, 1.5, 4., 4.2, 10.]),
                          dec=st.sampled_from([.1, 1., 2.]), spread=st.sampled_from([.5, 1., 3., 12., 30.]), seed=seeds, color=st.booleans(),
                          peaka=st.sampled_from([6.7967e-05, 1e-4, 1e-3]), peakt=st.sampled_from([1e5, 1e4, 1000]), scale=st.sampled_from([179, 1.]), peakrad=st.sampled_from([4., 2., 6.]),
                          vlambda=st.sampled_from([None, [.2, .5, .3], [1., 2., 1.]]), explicit=st.booleans()), quick=500, thorough=15000)
def secondary(case, rec):
    """groups of bright rays away from the peak are reported with their mean direction, solid angle and value"""
    s = case['seed']
    thr = case['peakt'] / case['scale']
    rad = (case['peaka'] / np.pi) ** .5 * case['peakrad']
    v, y, o = [gen.sphere(s, case['n'])], [gen.noise(s + 1, case['n'], 0, .99) * thr], [gen.noise(s + 2, case['n'], 1e-4, 1e-3)]
    for i, k in enumerate(case['sizes']):
        c = gen.sphere(s + 11 * i + 5, 1)[0]
        v.append(unit(c + rad * case['spread'] * .6 * gen.normal(s + 11 * i + 6, (k, 3))))
        y.append(thr * case['level'] * (1 if i else 30) * 10 ** gen.noise(s + 11 * i + 7, k, 0, case['dec']))
        o.append(gen.noise(s + 11 * i + 8, k, .02, 1) * case['peaka'])
    v, y, o = np.concatenate(v), np.concatenate(y), np.concatenate(o)
    p = np.argsort(gen.noise(s + 3, len(v)), kind='stable')
    v, y, o = v[p], y[p], o[p]
    l = y
    if case['color']:
        c = gen.noise(s + 4, (len(v), 3), .2, 1)
        l = c * (y / (c @ np.array(case['vlambda'] or DEF)))[:, None]
    kw = {k: case[k] for k in ('scale', 'peaka', 'peakt', 'peakrad') if case['explicit'] or case[k] != DEFAULTS[k]}
    if case['color'] and case['vlambda']:
        kw['vlambda'] = case['vlambda']
    full = dict(DEFAULTS, **{k: case[k] for k in ('scale', 'peaka', 'peakt', 'peakrad')})
    pc, kind = select(v, o, y, full)
    if pc is None or np.any(np.abs(y / thr / 4 - 1) < 1e-9):
        rec.exclude('limit')
        return
    keep = v.copy(), o.copy(), l.copy()
    got = imagetools.normalize_peak(v, o, l, findsecondary=True, **kw)
    require(isinstance(got, tuple) and len(got) == 2, 'peak and secondary groups are returned')
    peak, found = got
    for a, b in zip((v, o, l), keep):
        equal(a, b, 'input changed')
    if kind == 'none':
        require(not np.any(peak) and not found, 'groups of a scene without a peak')
        return
    parts(peak, *imagetools.normalize_peak(v, o, l, returnall=False, **kw), 'peak with secondary groups')
    a = gen.ang(v[np.argmax(y)], v)
    want, near = groups(v, y, np.nonzero((a > 8 * rad) & (y > 4 * thr))[0], 8 * rad)
    if near or np.any(np.abs(a / rad / 8 - 1) < 1e-6):
        rec.exclude('radius')
        return
    rec.label(f'{min(len(want), 4)} groups', 'colour' if case['color'] else 'grey')
    rec.nontrivial(len(want) > 0)
    require(len(found) == len(want), 'number of secondary groups', got=len(found), expected=len(want))
    for g, f in zip(want, found):
        m = np.mean(v[g], axis=0)
        if np.linalg.norm(m) > 1e-3:
            close(unit(np.ravel(f[0])), unit(m), 'direction of a group', atol=1e-9)
        close(f[1], np.sum(o[g]), 'solid angle of a group', rtol=1e-9, atol=0)
        close(np.ravel(f[2]), np.atleast_1d(np.sum((l[g].T * o[g]).T, axis=0) / np.sum(o[g])), 'value of a group', rtol=1e-9, atol=0)
