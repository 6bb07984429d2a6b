import os
import warnings

import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, equal, HarnessError
import gen
import hdr
import views
from gen import d, seeds
from raytools import imagetools, io
from raytools import translate as tr
from raytools.evaluate import MetricSet, ColorMetricSet, BaseMetricSet, PositionIndex, retina, hvsgsm
from raytools.evaluate.hvsgsm import GSS
from raytools.mapper import Mapper, ViewMapper, SolidViewMapper
from raytools.utility import pool_call

CHECK = Check('C40', rule='cases: every public array function of translate, retina, the mappers, imagetools, io and the metric classes, with generated arrays of every memory layout '
              'including read-only and integer ones, under different numeric error settings and environments, and sequences of calls on shared mappers, metric sets and images. '
              'Non-trivial: the call returned at least two different values.',
              assumptions=['functions documented to draw into an image passed to them, and jitter, are outside of the domain', 'integer arrays are signed, of 32 or 64 bits, and hold the same values as the float arrays they are compared with'])
#: technique: property-based testing: metamorphic (repeated calls, read-only / integer / differently laid out copies of the same arguments), stateful sequences over shared objects


# --------------------------------------------------------------------- arguments: name -> (float values, integer values)
def a_dirs(s, n, whole):
    if whole:
        v = gen.ints(s, (n, 3), -3, 4)
        v[np.all(v == 0, 1)] = (0, 1, 0)
        return v
    return gen.sphere(s, n)


def a_up(s, n, whole):
    v = a_dirs(s, n, whole)
    v[:, 1] = np.abs(v[:, 1]) + (1 if whole else .1)
    return v if whole else gen.unit(v)


def a_axes(s, n, whole):
    v = np.array(gen.AXES)[gen.ints(s, n, 0, 6)]
    return v if whole else gen.sphere(s, n)


def a_axis(s, n, whole):
    return a_axes(s, 1, whole)[0]


def a_uv(s, n, whole):
    return gen.ints(s, (n, 2), 0, 2) if whole else gen.noise(s, (n, 2))


def a_tp(s, n, whole):
    return np.stack((gen.ints(s, n, 0, 4), gen.ints(s + 1, n, -3, 4)), 1) if whole else np.stack((gen.noise(s, n, 0, 3.1), gen.noise(s + 1, n, -3, 3)), 1)


def a_aa(s, n, whole):
    return np.stack((gen.ints(s, n, -90, 91), gen.ints(s + 1, n, -180, 181)), 1) if whole else np.stack((gen.noise(s, n, -90, 90), gen.noise(s + 1, n, -180, 180)), 1)


def a_deg(s, n, whole):
    return gen.ints(s, n, 0, 60) if whole else gen.noise(s, n, 0, 60)


def a_xy(s, n, whole):
    return gen.ints(s, (n, 2), -40, 41) if whole else gen.noise(s, (n, 2), -40, 40)


def a_chord(s, n, whole):
    return gen.ints(s, n, 0, 3) if whole else gen.noise(s, n, 0, 2)


def a_pos(s, n, whole):
    return gen.ints(s, n, 1, 50) if whole else gen.noise(s, n, .1, 50)


def a_grey(s, n, whole):
    n = 4 + n % 9
    return gen.ints(s, (n, n), 0, 50) if whole else gen.noise(s, (n, n), 0, 50)


def a_rgb(s, n, whole):
    n = 4 + n % 9
    return gen.ints(s, (3, n, n), 0, 50) if whole else gen.noise(s, (3, n, n), 0, 50)


def a_rows(s, n, whole):
    return gen.ints(s, (n, 3), 0, 300) if whole else gen.noise(s, (n, 3), 0, 300)


def a_pix(s, n, whole):
    return gen.ints(s, (n, 2), 0, 16) if whole else gen.noise(s, (n, 2), 0, 16)


def a_bins(s, n, whole):
    return gen.ints(s, n, 0, 64) if whole else None


def a_sorted(s, n, whole):
    return np.sort(gen.ints(s, n, -20, 20) * 2 + np.arange(n) % 2) if whole else np.sort(gen.noise(s, n, -20, 20))


def a_series(s, n, whole):
    return gen.ints(s, (2, n), -9, 10) if whole else gen.noise(s, (2, n), -9, 10)


def a_weights(s, n, whole):
    return gen.ints(s, n, 1, 5) if whole else gen.noise(s, n, .1, 5)


def a_row(s, n, whole):
    return gen.ints(s, n, -99, 100) if whole else gen.noise(s, n, -99, 100)


# ------------------------------------------------------------------- functions
#: name -> (argument kinds, function, works on integer arrays)
F = {}


def add(name, kinds, fn, whole=True):
    F[name] = (kinds, fn, whole)


add('norm', [a_dirs], lambda v: tr.norm(v))
add('norm1', [a_dirs], lambda v: tr.norm1(v[0]))
add('uv2xy', [a_uv], lambda v: tr.uv2xy(v))
add('uv2xyz', [a_uv], lambda v: tr.uv2xyz(v))
add('uv2xyz axes', [a_uv], lambda v: tr.uv2xyz(v, axes=(0, 2, 1), xsign=-1))
add('xyz2uv', [a_up], lambda v: tr.xyz2uv(v, normalize=True, axes=(0, 2, 1)))
add('xyz2uv unit', [a_axes], lambda v: tr.xyz2uv(v, flipu=True))
add('xyz2skybin', [a_dirs], lambda v: tr.xyz2skybin(v, 4, normalize=True))
add('skybin2xyz', [a_bins], lambda b: tr.skybin2xyz(b, 8))
add('xyz2xy', [a_axes], lambda v: tr.xyz2xy(v, flip=True))
add('tpnorm', [a_tp], lambda v: tr.tpnorm(v))
add('tp2xyz', [a_tp], lambda v: tr.tp2xyz(v))
add('tp2xyz raw', [a_tp], lambda v: tr.tp2xyz(v, normalize=False))
add('xyz2tp', [a_axes], lambda v: tr.xyz2tp(v))
add('aa2xyz', [a_aa], lambda v: tr.aa2xyz(v))
add('xyz2aa', [a_axes], lambda v: tr.xyz2aa(v))
add('chord2theta', [a_chord], lambda v: tr.chord2theta(v))
add('theta2chord', [a_chord], lambda v: tr.theta2chord(v))
add('ctheta', [a_axis, a_axes], lambda a, b: tr.ctheta(a, b))
add('radians', [a_axis, a_axes], lambda a, b: tr.radians(a, b))
add('degrees', [a_axis, a_axes], lambda a, b: tr.degrees(a, b))
add('uv2ij', [a_uv], lambda v: tr.uv2ij(v, 8))
add('uv2bin', [a_uv], lambda v: tr.uv2bin(v, 8))
add('bin2uv', [a_bins], lambda b: tr.bin2uv(b, 8))
add('resample up', [a_grey], lambda a: tr.resample(a, (2 * a.shape[0], 2 * a.shape[1])))
add('resample down', [a_grey], lambda a: tr.resample(a, (max(a.shape[0] // 2, 1), max(a.shape[1] // 2, 1))))
add('resample smooth', [a_grey], lambda a: tr.resample(a, gauss=True, radius=1.5))
add('resample linear', [a_grey], lambda a: tr.resample(a, (3 * a.shape[0], 3 * a.shape[1]), gauss=False))
add('weighted_quantile', [a_row, a_weights], lambda x, w: tr.weighted_quantile(x, w, q=np.array([.2, .5, .9])))
add('weighted_median', [a_row, a_weights], lambda x, w: tr.weighted_median(x, w))
add('filter', [a_sorted, a_series], lambda x, y: tr.non_uniform_gaussian_filter(x, y))
add('filter at', [a_row, a_series, a_row], lambda x, y, r: tr.non_uniform_gaussian_filter(x, y, r, sigma=3., bw=None))
add('filter median', [a_row, a_series], lambda x, y: tr.non_uniform_gaussian_filter(x, y, sigma=7., amethod='median'))
add('rotate_elem', [a_dirs], lambda v: tr.rotate_elem(v, 33, 0))
add('rmtx_yp', [a_dirs], lambda v: np.concatenate([np.ravel(i) for i in tr.rmtx_yp(v)]))
add('cull_vectors', [a_axes], lambda v: tr.cull_vectors(v, .2))
add('reflect', [a_axes, a_axes], lambda a, b: tr.reflect(a, b))
add('simple_take', [a_rows], lambda a: tr.simple_take(a, slice(0, 2), [0, 2]))
add('hpsf', [a_deg], lambda v: retina.hpsf(v))
add('blur_sun', [a_pos, a_pos], lambda o, l: retina.blur_sun(o * 1e-6, l * 1e6))
add('rgcf_density_xy', [a_xy], lambda v: retina.rgcf_density_xy(v))
add('rgcf_density', [a_xy], lambda v: retina.rgcf_density(v))
add('rgc_density', [a_xy], lambda v: retina.rgc_density(v))
add('binocular_density', [a_xy], lambda v: retina.binocular_density(v))
for _i in range(4):
    add(f'rgcf meridian {_i}', [a_deg], lambda v, i=_i: retina.rgcf_density_on_meridian(v, i))
    add(f'rgc meridian {_i}', [a_deg], lambda v, i=_i: retina.rgc_density_on_meridian(v, i))
add('PositionIndex', [a_up], lambda v: PositionIndex().positions(ViewMapper((0, 1, 0), 180), v))
add('PositionIndex kim', [a_up], lambda v: PositionIndex(guth=False).positions(ViewMapper((0, 1, 0), 180), v))
add('positions_vec', [a_up], lambda v: PositionIndex().positions_vec(np.array([[0., 1, 0]]), gen.unit(v)))
add('array_uv2ang', [a_grey], lambda a: imagetools.array_uv2ang(a))
add('array_uv2ang rgb', [a_rgb], lambda a: imagetools.array_uv2ang(a))
add('array_ang2uv', [a_rgb], lambda a: imagetools.array_ang2uv(a))
add('array_rotate', [a_grey], lambda a: imagetools.array_rotate(a, 20, center=(3, 2)))
add('array_rotate fill', [a_grey], lambda a: imagetools.array_rotate(a, 20, fill_value=0.))
add('array_rotate fill rgb', [a_rgb], lambda a: imagetools.array_rotate(a, -50, center=(3, 2), fill_value=7., rotate_first=False))
add('array_rotate turn', [a_grey], lambda a: imagetools.array_rotate(a, 90, nearest=True, fill_value=1.))
add('array_solid2ang fill', [a_rgb], lambda a: imagetools.array_solid2ang(a, viewangle=90, returnvm=True)[0])
add('rmtx_elem', [a_dirs], lambda v: tr.rotate_elem(v, 77.5, 1))
add('resample gauss radius', [a_grey], lambda a: tr.resample(a, (3 * a.shape[0], 3 * a.shape[1]), gauss=True, radius=.7))
add('weighted_quantile one', [a_row, a_weights], lambda x, w: tr.weighted_quantile(x, w, q=.3))
add('filter gaussian', [a_sorted, a_series], lambda x, y: tr.non_uniform_gaussian_filter(x, y, sigma=4., bw=2.))
add('array_rotate rgb', [a_rgb], lambda a: imagetools.array_rotate(a, 20, center=[1, 3], rotate_first=False, nearest=True))
add('array_rotate pair', [a_grey], lambda a: imagetools.array_rotate(a, 0, center=(2, 2, 3, 2)))
add('array_solid2ang', [a_rgb], lambda a: imagetools.array_solid2ang(a, returnvm=False))
add('array_solid2ang reverse', [a_grey], lambda a: imagetools.array_solid2ang(a, nearest=True, reverse=True, viewangle=120, returnvm=False))
add('rgb2rad', [a_rows], lambda a: io.rgb2rad(a))
add('rgb2lum', [a_rows], lambda a: io.rgb2lum(a))
add('rgb2rad weights', [a_rows], lambda a: io.rgb2rad(a, (.2, .7, .1)))


def _write(a, f, name):
    f(a, name, ['VIEW= -vta -vh 180 -vv 180', 'a line'])
    b = open(name, 'rb').read()
    os.remove(name)
    return np.frombuffer(b, np.uint8)


add('array2hdr', [a_grey], lambda a: _write(a, io.array2hdr, 'x.hdr'))
add('carray2hdr', [a_rgb], lambda a: _write(a, io.carray2hdr, 'x.hdr'))


def _peak(whole, **kw):
    def f(v, o, l):
        o = o[:len(v)]
        r = imagetools.normalize_peak(v, o, l, peakt=100, scale=1, peaka=.5, **kw)
        return np.concatenate([np.ravel(np.asarray(i, float)) for i in r])
    return f


def a_lum(s, n, whole):
    l = gen.ints(s, n, 0, 90) if whole else gen.noise(s, n, 0, 90)
    l[s % n] = 5000
    return l


def a_n(s, n, whole):
    return gen.ints(s, n, 1, 4) if whole else gen.noise(s, n, .01, .1)


add('normalize_peak', [a_axes, a_n, a_lum], _peak(True))
add('normalize_peak parts', [a_axes, a_n, a_lum], lambda v, o, l: np.concatenate([np.ravel(i) for i in imagetools.normalize_peak(v, o, l, peakt=100, scale=1, peaka=.5, returnparts=True)[1:]]))
add('normalize_peak zeros', [a_axes, a_n, a_lum], _peak(True, keepzeros=True))
add('normalize_peak rgb', [a_axes, a_n, a_rows], lambda v, o, l: np.concatenate([np.ravel(i) for i in imagetools.normalize_peak(v, o, l, peakt=100, scale=1, peaka=.5, blursun=True)]))


def _metrics(cls, metrics=None, vm=None, **kw):
    def f(v, o, l):
        m = cls(v, o, l, vm() if vm else ViewMapper((0, 1, 0), 180), **kw)
        names = [i for i in metrics or cls.allmetrics if i != 'irradiance']
        a = m(names)
        if 'backlum' in names and a[names.index('backlum')] * np.pi < 1e-9 * a[names.index('illum')]:
            # the illuminance without the sources is a rounding error when all rays are sources
            for i in ('backlum', 'ugr', 'ugp'):
                a[names.index(i)] = 0
        extra = [np.ravel(m(['irradiance']))] if 'irradiance' in cls.allmetrics else []
        return np.concatenate([a, *extra])
    return f


for _n, _k in (('area', {}), ('omega as area', dict(omega_as_view_area=True)), ('threshold', dict(threshold=60., lowlight=True, scale=2.)), ('kim', dict(guth=False))):
    add('MetricSet ' + _n, [a_up, a_n, a_lum], _metrics(MetricSet, **_k))
add('MetricSet stray', [a_dirs, a_n, a_lum], _metrics(MetricSet, vm=lambda: ViewMapper((0, 1, 0), 100)))
add('BaseMetricSet', [a_up, a_n, a_lum], _metrics(BaseMetricSet))
add('ColorMetricSet', [a_up, a_n, a_rows], _metrics(ColorMetricSet))


add('f_b', [a_deg], lambda v: hvsgsm.f_b(7, .5, v + 1))
add('l_b', [a_deg], lambda v: hvsgsm.l_b(7, .5, v + 1))
add('cone_response', [a_grey, a_grey], lambda a, b: GSS.cone_response(a + 1, b + 1))

NAMES = sorted(F)


# ------------------------------------------------------------------- mappers
def mapper(c):
    cls = {'m': Mapper, 'v': ViewMapper, 's': SolidViewMapper}[c['cls']]
    va = 180 if c['cls'] == 's' else c['va']
    dv = gen.unit(c['dxyz'])
    if cls is Mapper:
        return Mapper(dv)
    return cls(dv, va)


M = {
    'view2world': ([a_dirs], lambda m, v: m.view2world(v)),
    'world2view': ([a_dirs], lambda m, v: m.world2view(v)),
    'xyz2uv': ([a_axes], lambda m, v: m.xyz2uv(v)),
    'uv2xyz': ([a_uv], lambda m, v: m.uv2xyz(v)),
    'uv2xyz origin': ([a_uv], lambda m, v: m.uv2xyz(v, stackorigin=True)),
    'xyz2vxy': ([a_axes], lambda m, v: m.xyz2vxy(v)),
    'vxy2xyz': ([a_uv], lambda m, v: m.vxy2xyz(v)),
    'vxy2xyz origin': ([a_uv], lambda m, v: m.vxy2xyz(v, stackorigin=True)),
    'ray2pixel': ([a_axes], lambda m, v: m.ray2pixel(v, 16)),
    'ray2pixel float': ([a_axes], lambda m, v: m.ray2pixel(v, 16, integer=False)),
    'pixel2ray': ([a_pix], lambda m, v: m.pixel2ray(v, 16)),
    'pixel2omega': ([a_pix], lambda m, v: m.pixel2omega(v, 16)),
    'in_view': ([a_axes], lambda m, v: m.in_view(v, indices=False)),
    'in_view indices': ([a_axes], lambda m, v: m.in_view(v)[0]),
    'ctheta': ([a_axes], lambda m, v: m.ctheta(v)),
    'radians': ([a_axes], lambda m, v: m.radians(v)),
    'degrees': ([a_axes], lambda m, v: m.degrees(v)),
    'uv2idx': ([a_uv], lambda m, v: m.uv2idx(v, (16, 8))),
    'idx2uv': ([a_bins], lambda m, v: m.idx2uv(v, (16, 8), jitter=False)),
    'pixelrays': ([], lambda m: m.pixelrays(6)),
    'pixels': ([], lambda m: m.pixels(6)),
    'init_img': ([], lambda m: m.init_img(6)[1]),
    'header': ([], lambda m: np.frombuffer(m.header().encode(), np.uint8)),
    'transform_to': ([a_rgb], lambda m, a: m.transform_to(a, SolidViewMapper(m.dxyz, 180))),
    'transform_to nearest': ([a_grey], lambda m, a: m.transform_to(a, ViewMapper(m.dxyz, 180), nearest=True)),
    'array_ang2uv': ([a_grey], lambda m, a: imagetools.array_ang2uv(a, m)),
    'PositionIndex': ([a_axes], lambda m, v: PositionIndex().positions(m, v)),
    'MetricSet': ([a_dirs, a_n, a_lum], lambda m, v, o, l: MetricSet(v, o, l, m)(['illum', 'dgp', 'srcarea'])),
}
ANGULAR = {'ctheta', 'radians', 'degrees', 'transform_to', 'transform_to nearest', 'array_ang2uv', 'PositionIndex', 'MetricSet', 'pixel2omega', 'idx2uv', 'uv2idx'}
ONLY180 = {'transform_to', 'transform_to nearest'}
probe = np.array([[0, 1., 0], [.6, 0, .8], [-.48, .6, -.64], [0, 0, 1]])
puv = np.array([[.2, .3], [.5, .5], [.9, .1]])


def state(m):
    r = [np.array(m.dxyz), np.array(m.view2world(probe)), np.array(m.uv2xyz(puv)), np.array(m.bbox), np.array(m.aspect), np.array(m.pixelrays(3))]
    if not type(m) is Mapper:
        r += [np.array(m.viewangle), np.array(m.degrees(probe)), np.array(m.in_view(probe, indices=False))]
        if m.aspect == 2:
            r.append(np.array(m.ivm.dxyz))
    return r


# ------------------------------------------------------------------- settings
ERR = [dict(divide='warn', over='warn', under='ignore', invalid='warn'), dict(divide='ignore', over='warn', under='warn', invalid='ignore'), dict(divide='ignore', over='ignore', under='ignore', invalid='ignore')]


class Watch:
    """numeric error settings, environment and folder are as they were"""
    def __init__(self, k):
        self.k = k

    def __enter__(self):
        self.old = np.seterr(**ERR[self.k])
        os.environ['RAYTOOLS_TEST_SETTING'] = str(self.k)
        self.err, self.env, self.cwd = np.geterr(), dict(os.environ), os.getcwd()
        self.print = np.get_printoptions()
        self.filters = list(warnings.filters)
        return self

    def check(self, name):
        require(np.geterr() == self.err, 'numeric error settings changed', function=name, got=np.geterr(), was=self.err)
        require(dict(os.environ) == self.env, 'environment changed', function=name, got=sorted(set(os.environ.items()) ^ set(self.env.items())))
        require(os.getcwd() == self.cwd, 'working folder changed', function=name)
        require(np.get_printoptions() == self.print, 'print options changed', function=name)

    def __exit__(self, *a):
        np.seterr(**self.old)
        os.environ.pop('RAYTOOLS_TEST_SETTING', None)


def same(a, b, msg, exact=True, tol=1e-9, **info):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, msg + ': shape', got=a.shape, was=b.shape, **info)
    if exact:
        ok = (a == b) | ((a != a) & (b != b))
    else:
        a, b = a.astype(float), b.astype(float)
        with np.errstate(all='ignore'):
            ok = (a == b) | ((a != a) & (b != b)) | (np.abs(a - b) <= tol * (1 + np.abs(b)))
    require(np.all(ok), msg, got=a[~ok][:4], was=b[~ok][:4], **info)


def call(name, fn, args, watch):
    keep = [np.array(a) for a in args]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = fn(*args)
        out = np.concatenate([np.ravel(np.asarray(i, float)) for i in out]) if isinstance(out, (tuple, list)) else np.array(out)
    watch.check(name)
    for i, (a, k) in enumerate(zip(args, keep)):
        require(a.dtype == k.dtype and a.shape == k.shape, 'argument replaced', function=name, argument=i)
        same(a, k, 'argument changed', function=name, argument=i)
    return out


def variants(name, kinds, fn, case, watch, rec, whole=True):
    n, s = case['n'], case['seed']
    real = [k(s + i, n, False) for i, k in enumerate(kinds)]
    ints = [np.asarray(k(s + i, n, True)) for i, k in enumerate(kinds)] if whole else None
    out = None
    if all(a is not None for a in real):
        real = [np.asarray(a, float) for a in real]
        out = call(name, fn, [np.array(a) for a in real], watch)
        rec.nontrivial(out.size > 1 and len(np.unique(np.ravel(out))) > 1)
        args = [gen.lay(a, case['lay']) for a in real]
        same(call(name, fn, args, watch), out, f'{case["lay"]} arrays', exact=False, function=name)
        same(call(name, fn, args, watch), call(name, fn, args, watch), 'repeated call', function=name)
        ro = [gen.lay(a, 'readonly') for a in real]
        same(call(name, fn, ro, watch), out, 'read-only arrays', exact=False, function=name)
    if ints is not None:
        if a_n in kinds and n > 100:
            # whole steradians of more than a hundred rays are not solid angles of a view
            ints = [a / 1024 if k is a_n else a for a, k in zip(ints, kinds)]
        f = [a.astype(float) if k is not a_bins else a for a, k in zip(ints, kinds)]
        want = call(name, fn, f, watch)
        if out is None:
            rec.nontrivial(want.size > 1 and len(np.unique(np.ravel(want))) > 1)
        dt = np.dtype(case['dtype'])
        if np.any([np.any(a < 0) for a in ints]) and dt.kind == 'u':
            dt = np.dtype('int32')
        tol = 1e-6 if dt.itemsize < 4 else 1e-9
        i = [gen.lay(a if a.dtype.kind == 'f' else a.astype(dt if k is not a_bins else int), case['lay']) for a, k in zip(ints, kinds)]
        same(call(name, fn, i, watch), want, f'{dt} arrays', exact=False, tol=tol, function=name)
        one = case['seed'] % max(len(i), 1)
        mixed = [a if j == one else b for j, (a, b) in enumerate(zip(i, f))]
        same(call(name, fn, mixed, watch), want, f'{dt} argument {one}', exact=False, tol=tol, function=name)


arrays = dict(n=st.one_of(st.integers(3, 24), st.integers(3, 24), st.integers(25, 120)), seed=seeds, lay=gen.layout, dtype=st.sampled_from(['int64', 'int32']), err=st.integers(0, 2))


@CHECK.sub('functions', d(name=st.sampled_from(NAMES), **arrays), big=[(8, {'n': gen.some})], quick=1500, thorough=25000)
def functions(case, rec):
    kinds, fn, whole = F[case['name']]
    rec.label(case['name'])
    with Watch(case['err']) as w:
        variants(case['name'], kinds, fn, case, w, rec, whole)


@CHECK.sub('mappers', d(cls=st.sampled_from(['m', 'v', 'v', 'v', 's']), va=views.va_all, dxyz=views.vdir, names=st.lists(st.sampled_from(sorted(M)), min_size=1, max_size=4), **arrays), big=[(4, {'n': gen.some})], quick=500, thorough=10000)
def mappers(case, rec):
    """any sequence of calls leaves the mapper as it was"""
    m = mapper(case)
    with Watch(case['err']) as w:
        was = state(m)
        w.check('mapper properties')
        for name in case['names']:
            if name in ANGULAR and case['cls'] == 'm' or name in ONLY180 and (case['va'] != 180 and case['cls'] != 's'):
                continue
            if name == 'pixel2omega' and case['cls'] == 's':
                continue
            kinds, fn = M[name]
            rec.label(name)
            variants(name, kinds, lambda *a: fn(m, *a), case, w, rec)
            for a, b in zip(state(m), was):
                same(a, b, 'mapper changed', function=name)


@CHECK.sub('metrics', d(cls=st.sampled_from(['m', 'm', 'c', 'b']), order=st.lists(st.integers(0, 60), min_size=1, max_size=10), va=st.sampled_from([180, 360, 180, 100]), m=st.sampled_from([0, 120]), peak=st.booleans(), asarea=st.booleans(), **arrays), quick=600, thorough=5000)
def metrics(case, rec):
    """metrics in any order, repeated, on a set sharing its arrays and mapper with another"""
    cls = dict(m=MetricSet, c=ColorMetricSet, b=BaseMetricSet)[case['cls']]
    n, s = case['n'] + case['m'], case['seed']
    v = gen.sphere(s, n)
    v[0] = (0, 1, 0)
    o = gen.noise(s + 1, n, .01, .1)
    l = gen.noise(s + 2, (n, 3) if case['cls'] == 'c' else n, 0, 90)
    if case['peak']:
        l[s % n] = 4000
    v, o, l = (gen.lay(a, 'readonly' if case['lay'] == 'c' else case['lay']) for a in (v, o, l))
    vm = ViewMapper(gen.unit((.3, 1, .1)), case['va'])
    names = list(cls.allmetrics)
    with Watch(case['err']) as w, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        was = state(vm)
        keep = [np.array(a) for a in (v, o, l)]
        kw = dict(omega_as_view_area=case['asarea'])
        one, two = cls(v, o, l, vm, **kw), cls(v, o, l, vm, **kw)
        asked = [names[i % len(names)] for i in case['order']]
        rec.nontrivial(len(asked) > 1)
        rec.label(cls.__name__)
        first = {}
        for k in asked + asked[::-1]:
            r = np.array(one([k]), float)
            w.check(k)
            if k in first:
                same(r, first[k], 'metric computed again', metric=k)
            first[k] = r
        cancelled = cls is not BaseMetricSet and np.pi * float(one.backlum) < 1e-9 * float(one.illum)
        for k in first:
            if cancelled and k in ('backlum', 'ugr', 'ugp'):
                # a rounding error when all rays are sources
                rec.label('all sources')
                continue
            fresh = np.array(cls(v, o, l, vm, **kw)([k]), float)
            same(fresh, first[k], 'metric of a new set', metric=k, exact=False)
            same(np.array(two([k]), float), first[k], 'metric of another set', metric=k, exact=False)
        for a, k in zip((v, o, l), keep):
            same(a, k, 'argument changed')
        for a, b in zip(state(vm), was):
            same(a, b, 'mapper changed')


GSSCALLS = {
    'pupil': lambda g, a, k: np.array(g.pupil(k[0])),
    'retinal_irradiance': lambda g, a, k: g.retinal_irradiance(a, k[1]),
    'apply_psf': lambda g, a, k: g.apply_psf(a, k[2]),
    'psf_coef': lambda g, a, k: np.concatenate([np.ravel(i) for i in np.atleast_1d(g.psf_coef(k[2]))]),
    'apply_eye_movement_1': lambda g, a, k: g.apply_eye_movement_1(a),
    'apply_eye_movement_2': lambda g, a, k: g.apply_eye_movement_2(a, k[0]),
    'local_eye_adaptation': lambda g, a, k: g.local_eye_adaptation(a, k[0]),
    'field_response': lambda g, a, k: g.field_response(a),
    'normalized_field_response': lambda g, a, k: np.asarray(g.normalized_field_response(g.field_response(a))),
    'glare_response': lambda g, a, k: np.asarray(g.glare_response(a, k[0], k[1], k[2])),
    'adapt': lambda g, a, k: np.array(g.adapt()),
    'compute': lambda g, a, k: np.array([g.compute()]),
}


@CHECK.sub('sensation', d(res=st.sampled_from([16, 18, 24, 31]), names=st.lists(st.sampled_from(sorted(GSSCALLS)), min_size=1, max_size=5), psf=st.booleans(), **arrays), quick=60, thorough=1500)
def sensation(case, rec):
    """any sequence of the steps of the glare sensation model leaves the evaluator, its mapper and the arrays as they were"""
    r, s = case['res'], case['seed']
    hdr.write('g.hdr', gen.noise(s, (3, r, r), .1, 20), ['VIEW= -vta -vd 0 1 0 -vh 180 -vv 180'])
    vm = ViewMapper((0, 1, 0), 180)
    kw = {} if case['psf'] else dict(psf=False, adaptmove=False, directmove=False)
    with Watch(case['err']) as w, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        was = state(vm)
        g = GSS(vm, **kw)
        g.lum = 'g.hdr'
        w.check('lum')
        score = g.compute()
        w.check('compute')
        shown = [np.array(getattr(g, k)) for k in ('lum', 'vecs', 'omega', 'mask', 'ctheta', 'sigma_c')]
        e_g, pupa, pupd = g.adapt()
        k = (e_g, pupa, pupd)
        for name in case['names']:
            rec.label(name)
            fn = lambda a: GSSCALLS[name](g, a, k)
            real = gen.noise(s + 5, (r, r), .01, 9)
            out = call(name, fn, [np.array(real)], w)
            rec.nontrivial(out.size > 1)
            same(call(name, fn, [gen.lay(real, case['lay'])], w), out, case['lay'] + ' arrays', exact=False, function=name)
            same(call(name, fn, [gen.lay(real, 'readonly')], w), out, 'read-only arrays', exact=False, function=name)
            if name not in ('retinal_irradiance', 'glare_response'):
                # the other steps are defined for retinal irradiances
                continue
            whole = gen.ints(s + 6, (r, r), 1, 9)
            same(call(name, fn, [whole], w), call(name, fn, [whole.astype(float)], w), 'integer arrays', exact=False, function=name)
        for a, b in zip([getattr(g, j) for j in ('lum', 'vecs', 'omega', 'mask', 'ctheta', 'sigma_c')], shown):
            same(a, b, 'evaluator changed', functions=case['names'])
        same(g.compute(), score, 'score computed again')
        for a, b in zip(state(vm), was):
            same(a, b, 'mapper changed')


def bad_calls():
    return [
        ('metric', lambda: MetricSet(np.array([[0., 1, 0]]), np.array([1.]), np.array([1.]), ViewMapper((0, 1, 0), 180))(['nothing'])),
        ('image', lambda: imagetools.imgmetric('nothere.hdr', ['illum'])),
        ('array', lambda: io.hdr2array('nothere.hdr')),
        ('view', lambda: imagetools.hdr2vm('nothere.hdr')),
        ('quantile', lambda: tr.non_uniform_gaussian_filter(np.arange(4.), np.arange(4.), amethod='nothing')),
        ('pool', lambda: pool_call(fail_, [(1,), (2,)], cap=2)),
        ('shape', lambda: tr.xyz2uv(np.zeros((3, 1)))),
        ('txt', lambda: io.load_txt('nothere.txt')),
    ]


def fail_(x):
    raise ValueError(x)


@CHECK.sub('failures', d(k=st.integers(0, 7), err=st.integers(0, 2), cap=st.sampled_from([None, '2'])), quick=60, thorough=600)
def failures(case, rec):
    """calls that fail leave the settings as they were"""
    name, fn = bad_calls()[case['k']]
    rec.nontrivial()
    rec.label(name)
    old = os.environ.pop('RAYTOOLS_PROC_CAP', None)
    try:
        if case['cap']:
            os.environ['RAYTOOLS_PROC_CAP'] = case['cap']
        with Watch(case['err']) as w:
            try:
                fn()
            except Exception:
                pass
            else:
                rec.label(name + ' did not fail')
            w.check(name)
    finally:
        os.environ.pop('RAYTOOLS_PROC_CAP', None)
        if old is not None:
            os.environ['RAYTOOLS_PROC_CAP'] = old
