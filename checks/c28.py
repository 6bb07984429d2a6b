import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr, raises
import gen
import hdr
import views
from gen import d, seeds
from c23 import select, DEFAULTS
from raytools import imagetools
from raytools.evaluate import MetricSet, ColorMetricSet
from raytools.mapper import ViewMapper

CHECK = Check('C28', rule='cases: image files of 2-24 pixels side (2:1 for full-sphere views) with noise, a dark or bright background and a bright peak; '
              'with or without view, luminance coefficients in the header or as argument; any metrics in any order; scale, threshold, low light, peak '
              'parameters. Non-trivial: at least 3 metrics and an option that is not the default.',
              assumptions=['no pixel within 1e-5 (relative) of the glare threshold or of a limit of the peak normalisation',
                           'header coefficients within .001 of the default may be read as the default'])
#: technique: property-based testing: differential between the image function and the metric set built from independently decoded pixels

METRICS = list(MetricSet.allmetrics)
COLDEF = (0.265, 0.670, 0.065)
peak = d(peaka=st.one_of(st.sampled_from([None, 1e-3, 1e-2, .05]), gen.logfl(1e-4, .1)), peakt=st.one_of(st.sampled_from([None, 1e4, 2000.]), gen.logfl(300, 1e5)), peakr=st.one_of(st.sampled_from([None, 2., 10.]), st.floats(1, 30)),
         blursun=st.sampled_from([None, False, True]))


@CHECK.sub('image', d(res=st.integers(2, 24), seed=seeds, view=st.sampled_from([None, '180', 'dir', 'va', '360']), dxyz=views.vdir, va=views.va180,
                      head=st.sampled_from([None, None, [.2, .7, .1], [.3, .3, .4], [.2651, .6701, .0648], [.2655, .6698, .0652], [.28, .66, .06], [.2685, .6665, .065], [.267, .667, .066], [.6, 1.2, .2], [47.4, 119.9, 11.6], [0., 2., 0.], [.1, .1, .1], [.5, .5], []]),
                      lumrgb=st.sampled_from([None, None, None, [.1, .8, .1], [1 / 3, 1 / 3, 1 / 3], [.265, .67, .065], [.5, 1.4, .1], [0., .4, 0.]]),
                      metrics=st.lists(st.sampled_from(METRICS), min_size=1, max_size=8), color=st.sampled_from([None, None, 0, 1, 3]),
                      peakn=st.sampled_from([None, False, True, True]), peak=peak, scale=st.one_of(st.sampled_from([None, None, 1., 50.]), gen.logfl(.5, 500)),
                      threshold=st.one_of(st.sampled_from([None, None, 5., 1000., 100.5, 2., .8, 4., 12.]), gen.logfl(.5, 5000)), lowlight=st.sampled_from([None, True, False]), bright=st.sampled_from([-1, 0, 1.5, 3.]),
                      npeak=st.integers(0, 4), tup=st.booleans(), order=st.one_of(st.just('-Y+X'), st.just('-Y+X'), st.sampled_from(hdr.ORDERS))), big=[(3, {'res': st.integers(60, 120)})], quick=700, thorough=8000)
def image(case, rec):
    tmp = tempfile.mkdtemp(dir='.')
    try:
        one(case, rec, os.path.join(tmp, 'a b.hdr'))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def one(case, rec, f):
    res, s = case['res'], case['seed']
    ratio = 2 if case['view'] == '360' else 1
    rgb = np.moveaxis(10 ** gen.noise(s, (res * ratio, res, 3), -1, 1), -1, 0) * 10 ** case['bright']
    for k in range(case['npeak']):
        i = gen.ints(s + 50, 2, 0, res)
        i = np.minimum(i + gen.ints(s + 60 + k, 2, 0, 2), res - 1)
        rgb[:, i[0], i[1]] = 10 ** gen.noise(s + 70 + k, 1, 2, 5) * gen.noise(s + 80 + k, 3, .5, 1)
    head, va, dv = [], 180., np.array([0, 1., 0])
    if case['view'] is not None:
        if case['view'] in ('dir', 'va', '360'):
            dv = gen.unit(case['dxyz'])
        if case['view'] == 'va':
            va = float(case['va'])
        head.append('VIEW= -vta -vv {0!r} -vh {0!r} -vd {1!r} {2!r} {3!r} -vp 0 0 0'.format(va, *map(float, dv)))
    if case['head'] is not None:
        head.append('LuminanceRGB= ' + ' '.join(map(str, case['head'])))
    hdr.write(f, rgb, head, order=case.get('order', '-Y+X'))
    rgb = hdr.decode(f)[1]
    if case['view'] == '360':
        va = 360
    metrics = list(case['metrics'])
    color = case['color'] is not None
    if color:
        metrics.insert(min(case['color'], len(metrics)), 'irradiance')
    kw = {k: case[k] for k in ('scale', 'threshold', 'lowlight', 'lumrgb') if case[k] is not None}
    pk = {k: v for k, v in case['peak'].items() if v is not None} if case['peakn'] else {}
    if case['peakn'] is not None:
        kw['peakn'] = case['peakn']
    rec.nontrivial(len(metrics) > 2 and len(kw) + len(pk) > 0)
    rec.label('colour' if color else 'grey', f'view {case["view"]}', 'peak' if case['peakn'] else 'no peak')
    before = open(f, 'rb').read()
    got = imagetools.imgmetric(f, tuple(metrics) if case['tup'] else list(metrics), **kw, **pk)
    require(open(f, 'rb').read() == before, 'image file changed')
    got = arr(got, (len(metrics) + 2 * color,), 'metrics')
    # reference: rays of the pixels
    vm = ViewMapper(dv, va)
    v = np.asarray(vm.pixelrays(res)).reshape(-1, 3)
    o = np.tile(np.asarray(vm.pixel2omega(vm.pixels(res), res)).ravel(), ratio)
    cands = []
    if case['lumrgb'] is not None:
        cands = [case['lumrgb']]
        rec.label('coefficients: argument')
    elif case['head'] is not None and len(case['head']) == 3:
        cands = [case['head']]
        rec.label('coefficients: header')
        if not color and np.allclose(case['head'], gen.RADLUM, atol=.0011, rtol=1e-4):
            cands.append(gen.RADLUM)
    else:
        cands = [COLDEF if color else gen.RADLUM]
        rec.label('coefficients: default')
    scale = 179. if case['scale'] is None else case['scale']
    errs = []
    for c in cands:
        px = rgb.reshape(3, -1).T
        y = px @ np.asarray(c)
        vv, oo, ll = v, o, (px if color else y)
        if case['peakn']:
            par = dict(DEFAULTS, vlambda=c, **{k: x for k, x in pk.items() if k != 'blursun'})
            par['scale'] = scale
            if select(v, o, y, par)[0] is None:
                rec.exclude('peak not decided')
                return
            vv, oo, ll = imagetools.normalize_peak(v, o, ll, scale, **pk, **(dict(vlambda=tuple(c)) if color else {}))
            y = np.asarray(ll) @ np.asarray(c) if color else np.asarray(ll)
            rec.label('peak merged' if len(vv) < len(v) else 'peak kept')
        mk = {k: case[k] for k in ('threshold', 'lowlight') if case[k] is not None}
        if color:
            ms = ColorMetricSet(vv, oo, ll, vm, metrics, scale=scale, vlambda=c, **mk)
        else:
            ms = MetricSet(vv, oo, ll, vm, metrics, scale=scale, **mk)
        thr = float(ms.threshold)
        if np.any(np.abs(np.asarray(ms.lum) * scale / thr - 1) < 1e-5):
            rec.exclude('luminance at the glare threshold')
            return
        if ms.illum and abs(ms.illum - 500) < 1e-2 and case['lowlight']:
            rec.exclude('illuminance at the low light limit')
            return
        want = np.asarray(ms(), float)
        # background illuminance is a difference: its error scales with the whole
        # as is the illuminance of a full sphere
        tot = float(np.sum(np.abs(np.asarray(ms.ctheta)) * np.asarray(ms.lum) * np.asarray(ms.omega))) * scale
        tol = 1e-9 + 1e-6 * np.array([tot if m in ('illum', 'irradiance', 'srcillum', 'backlum', 'dgp_t1') else 0 for m in metrics for _ in range(3 if m == 'irradiance' else 1)])
        if not float(ms.illum) > 1e-2 * tot and {'dgp', 'dgp_t2', 'log_gc', 'ugr', 'ugp'} & set(metrics):
            rec.exclude('illuminance cancels')
            return
        if 'ugr' in metrics or 'ugp' in metrics:
            if not float(ms.backlum) > 1e-4 * float(ms.illum):
                rec.exclude('no background light')
                return
            tol = tol + 1e-3
        try:
            close(got, want, 'metrics of the image', rtol=2e-5, atol=tol)
            return
        except AssertionError as ex:
            errs.append(ex)
    raise errs[0]


@CHECK.sub('wrong', d(metrics=st.lists(st.sampled_from(METRICS + ['irradiance', 'bogus', 'ILLUM', '']), min_size=1, max_size=5), seed=seeds), quick=60, thorough=600)
def wrong(case, rec):
    f = f'wrong{os.getpid()}.hdr'
    hdr.write(f, gen.noise(case['seed'], (3, 9, 9), .1, 2))
    bad = any(m not in METRICS + ['irradiance'] for m in case['metrics'])
    rec.nontrivial(bad)
    if bad:
        raises(AttributeError, lambda: imagetools.imgmetric(f, case['metrics']), 'unknown metric')
    else:
        arr(imagetools.imgmetric(f, case['metrics']), None, 'metrics')
    os.remove(f)


# all pixels are part of the peak
CHECK.example('image', {"res": 2, "seed": 2, "view": "va", "dxyz": [0.0, 0.0, 1.0], "va": 1.0, "head": None, "lumrgb": None, "metrics": ["illum"], "color": None, "peakn": True, "peak": {"peaka": None, "peakt": None, "peakr": None, "blursun": None}, "scale": None, "threshold": None, "lowlight": None, "bright": 3.0, "npeak": 0, "tup": False})
