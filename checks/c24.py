import os

import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
import hdr
import views
from gen import d, seeds
from raytools import imagetools, io
from raytools.mapper import ViewMapper

CHECK = Check('C24', rule='cases: square and 2:1 images of 1-40 pixels side, grey or colour, noise with zeros, integer or float type, memory layouts; '
              'mappers of any direction and angle (1-180, 360); files with and without a view. Non-trivial: at least 3 pixels wide and '
              'not constant.',
              assumptions=['pixels whose direction is within 1e-7 of the border of two input pixels are not decided'])
#: technique: property-based testing: differential against an independent implementation of both projections, round trip


def image(case, ratio=1, color=None):
    res = case['res']
    sh = (res * ratio, res)
    if case['color'] if color is None else color:
        sh = (3, *sh)
    a = 10 ** gen.noise(case['seed'], sh, -2, 3)
    a[gen.noise(case['seed'] + 1, sh) < .1] = 0
    if case.get('int'):
        a = np.floor(a).astype(int)
    return gen.lay(a, case.get('lay', 'c'))


def pick(a, cell, n, ratio):
    """values of a (…,x,y) at the cells (float coordinates); mask of decided pixels"""
    clear = np.all(np.abs(cell - np.round(cell)) > 1e-7, -1)
    i = np.floor(cell).astype(int)
    ok = (i[..., 0] >= 0) & (i[..., 0] < n * ratio) & (i[..., 1] >= 0) & (i[..., 1] < n)
    i[..., 0] = np.clip(i[..., 0], 0, n * ratio - 1)
    i[..., 1] = np.clip(i[..., 1], 0, n - 1)
    return np.asarray(a)[..., i[..., 0], i[..., 1]], clear & ok


img = dict(res=st.one_of(st.integers(1, 40), st.integers(2, 9)), color=st.booleans(), int=st.booleans(), lay=gen.layout, seed=seeds)


@CHECK.sub('uv2ang', d(ratio=st.sampled_from([1, 1, 2]), **img), big=[(4, {'res': st.integers(60, 150)})], quick=600, thorough=12000)
def uv2ang(case, rec):
    res, ratio = case['res'], case['ratio']
    src = image(case, ratio)
    keep = np.array(src)
    rec.nontrivial(res > 2)
    rec.label(f'{ratio}:1', 'colour' if case['color'] else 'grey')
    out = arr(imagetools.array_uv2ang(src), src.shape, 'image')
    equal(src, keep, 'input image')
    va = 360 if ratio == 2 else 180
    v, ok = views.pixel_dirs((0, 1, 0), res, va)
    uv = views.dir2square((0, 1, 0), v, va)
    want, clear = pick(src, uv * res, res, ratio)
    m = ok & clear
    equal(out[..., m], want[..., m], 'pixel values')
    equal(out[..., ~ok], np.zeros_like(want[..., ~ok]), 'pixels outside of the view')


@CHECK.sub('ang2uv', d(va=st.one_of(st.none(), views.va_all), dxyz=views.vdir, scale=views.scales, wide=st.booleans(), **img), big=[(4, {'res': st.integers(60, 150)})], quick=600, thorough=12000)
def ang2uv(case, rec):
    res = case['res']
    va, dv = case['va'], case['dxyz']
    if va is None:
        kw, va, dv = [], 180, (0, 1, 0)
    else:
        kw = [ViewMapper(np.array(dv) * case['scale'], va)]
    ratio = 2 if va == 360 and case['wide'] else 1
    src = image(case, ratio)
    keep = np.array(src)
    rec.nontrivial(res > 2)
    rec.label(f'{ratio}:1', 'default' if not kw else '360' if va == 360 else '180' if va == 180 else '<180', 'colour' if case['color'] else 'grey')
    out = arr(imagetools.array_ang2uv(src, *kw), src.shape[:-2] + (res, res), 'image')
    equal(src, keep, 'input image')
    g = (np.stack(np.meshgrid(np.arange(res), np.arange(res), indexing='ij'), -1) + .5) / res
    want, m = pick(src, views.dir2view(dv, views.square2dir(dv, g, va), va) * res, res, 1)
    equal(out[..., m], want[..., m], 'pixel values')
    require(np.mean(m) > .5 or res < 12, 'pixels decided')


@CHECK.sub('trip', d(va=views.va_all, res=st.integers(20, 60), a=st.floats(-2, 2), b=st.floats(-2, 2)), quick=100, thorough=1500)
def trip(case, rec):
    """a smooth image survives both conversions up to two pixels of displacement"""
    res = case['res']
    x = (np.arange(res) + .5) / res
    src = case['a'] * x[:, None] + case['b'] * x[None, :] + 5
    slope = abs(case['a']) + abs(case['b'])
    rec.nontrivial(slope > .1)
    back = arr(imagetools.array_uv2ang(imagetools.array_ang2uv(src)), src.shape, 'image')
    g = np.hypot(x[:, None] - .5, x[None, :] - .5)
    ok = g < .5 - 3 / res
    require(np.all(np.abs(back - src)[ok] <= 6 * slope / res + 1e-9), 'angular -> square -> angular', off=np.abs(back - src)[ok].max())
    require(np.all(back[g > .5 + 1e-9] == 0), 'outside')


HDR = ['', 'LuminanceRGB= 0.2 0.7 0.1', 'TITLE= two words', 'rpict -ab 3 -aa .1 scene.oct']


def check_file(out, want, src, kept, rec):
    lines, rgb, _ = hdr.decode(out)
    require(rgb.shape == want.shape, 'image size', got=rgb.shape, want=want.shape)
    m = want.max(0)
    require(np.all(np.abs(rgb - want) <= m / 120 + 1e-30), 'pixels of the file', off=np.abs(rgb - want).max())
    text = [i.strip() for i in lines]
    for k in kept:
        require(k.strip() in text, 'header line lost', line=k, text=text[:12])


@CHECK.sub('files', d(op=st.sampled_from(['uv2ang', 'ang2uv']), ratio=st.sampled_from([1, 1, 2]), res=st.integers(2, 16), seed=seeds,
                      view=st.sampled_from([None, '180', 'view', 'view', 'other']), va=st.one_of(views.va180, st.sampled_from([20., 35., 50., 7.5])), dxyz=views.vdir, useview=st.sampled_from([None, True, False]),
                      out=st.sampled_from([None, None, 'named.hdr', 'sub/other.hdr']), name=hdr.name2, sub=hdr.subdir, extra=st.sampled_from(HDR)), quick=60, thorough=900)
def files(case, rec):
    import shutil
    import tempfile
    tmp = tempfile.mkdtemp(dir='.')
    try:
        one(case, rec, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def one(case, rec, tmp):
    res, ratio = case['res'], case['ratio']
    name = case['name'] if '.' in case['name'] else 'plain.hdr'
    folder = os.path.join(tmp, case['sub']) if case['sub'] else tmp
    os.makedirs(folder, exist_ok=True)
    os.makedirs(os.path.join(tmp, 'sub'), exist_ok=True)
    f = os.path.join(folder, name)
    src = np.moveaxis(10 ** gen.noise(case['seed'], (res * ratio, res, 3), -2, 3), -1, 0)
    src[:, gen.noise(case['seed'] + 1, src.shape[1:]) < .1] = 0
    va = case['va'] if ratio == 1 else 180.
    dv = np.array(case['dxyz'], float)
    dv = dv / np.linalg.norm(dv)
    kept = [case['extra']] if case['extra'] else []
    if case['view'] == '180':
        va, dv = 180., np.array([0., 1, 0])
        kept.append('VIEW= -vta -vv 180 -vh 180 -vd 0 1 0 -vp 0 0 0 -vu 0 0 1')
    elif case['view'] == 'view':
        kept.append('VIEW= -vta -vv {0!r} -vh {0!r} -vd {1!r} {2!r} {3!r} -vp 0 0 0 -vu 0 0 1'.format(va, *map(float, dv)))
    elif case['view'] == 'other':
        kept.append('VIEW= -vtv -vv 30 -vh 30 -vd 1 0 0 -vp 0 0 0 -vu 0 0 1')
    hdr.write(f, src, kept)
    before = open(f, 'rb').read()
    rgb = hdr.decode(f)[1]
    rec.nontrivial(res > 2)
    rec.label(case['op'], f'{ratio}:1', f'view {case["view"]}', 'default name' if case['out'] is None else 'named')
    kw = {}
    if case['out'] is not None:
        kw['outf'] = os.path.join(tmp, case['out'])
    if case['op'] == 'ang2uv' and case['useview'] is not None:
        kw['useview'] = case['useview']
    fn = getattr(imagetools, 'hdr_' + case['op'])
    got = fn(f, **kw)
    exp = kw.get('outf', f[:f.rindex('.')] + ('_ang.hdr' if case['op'] == 'uv2ang' else '_uv.hdr'))
    require(got == exp, 'name of the output', got=got, want=exp)
    require(open(f, 'rb').read() == before, 'input file changed')
    tree = sorted(os.path.join(a, x) for a, _, c in os.walk(tmp) for x in c)
    require(tree == sorted({f, exp}), 'files written', tree=tree)
    if case['op'] == 'uv2ang':
        va2 = 360 if ratio == 2 else 180
        v, ok = views.pixel_dirs((0, 1, 0), res, va2)
        want, clear = pick(rgb, views.dir2square((0, 1, 0), v, va2) * res, res, ratio)
        want = np.where(ok, want, 0)
        clear |= ~ok
    else:
        if case['view'] in (None, 'other') or case['useview'] is False:
            dv, va = np.array([0., 1, 0]), 180
        elif ratio == 2:
            va = 360
        g = (np.stack(np.meshgrid(np.arange(res), np.arange(res), indexing='ij'), -1) + .5) / res
        want, clear = pick(rgb, views.dir2view(dv, views.square2dir(dv, g, va), va) * res, res, 1)
    got = hdr.decode(exp)[1]
    require(got.shape == want.shape, 'size of the output', got=got.shape, want=want.shape)
    want = np.where(clear, want, got)
    check_file(exp, want, rgb, kept, rec)
