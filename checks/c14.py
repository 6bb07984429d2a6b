import os

import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
import hdr
import views
from gen import d, seeds
from raytools.mapper import Mapper, ViewMapper

CHECK = Check('C14', rule='cases: view, image size and content, directions inside and outside of the frame, channel values '
              'with None entries, growth 0-3, angular/square/planar projection, optional pixel mask. Non-trivial: at '
              'least one direction falls in the frame and one pixel stays unmarked.',
              assumptions=['directions within 1e-6 of a pixel border or of the view edge are outside the domain'])
chan = st.one_of(st.none(), st.floats(-5, 5), st.sampled_from([0, 1, 1.0, 0.0]))


def box(a, r):
    """sum over the r x r neighbourhood (mirrored at the border)"""
    h = r // 2
    p = np.pad(a, [(0, 0)] * (a.ndim - 2) + [(h, h), (h, h)], mode='symmetric')
    out = np.zeros_like(a)
    for i in range(r):
        for j in range(r):
            out += p[..., i:i + a.shape[-2], j:j + a.shape[-1]]
    return out


def background(case, sh):
    f = case['feat']
    s = (f, *sh) if f > 1 else sh
    return gen.noise(case['seed'] + 7, s, -1, 1) if case['back'] else np.zeros(s)


def run(case, rec, vm, v, pix, sh, mask=None, **kw):
    """draw and compare with marking one pixel at a time"""
    f, grow = case['feat'], case['grow']
    ch = case['ch']
    marked = np.zeros(sh, bool)
    ok = np.all((pix >= 0) & (pix < np.array(sh)), 1) if len(pix) else np.zeros(0, bool)
    for i, j in pix[ok]:
        marked[i, j] = True
    if mask is not None:
        m = np.zeros(sh, bool)
        m[mask] = True
        marked &= m
        kw['mask'] = mask
    rec.nontrivial(np.any(marked) and not np.all(marked))
    rec.label('grow' if grow else 'no grow', 'mask' if mask is not None else 'no mask', f'{f} channels')
    if not np.all(ok):
        rec.label('some out of frame')
    img = background(case, sh)
    want = img.copy()
    if f == 1:
        c = ch[0] if ch[0] is not None else 1.0
        want[marked] = c
        kw['channels'] = c if case['scalar'] else (c, 2, 3)
    else:
        for i in range(f):
            if ch[i] is not None:
                want[i][marked] = ch[i]
        kw['channels'] = tuple(ch[:f])
    if grow:
        kw['grow'] = grow
    vin = gen.lay(v, case['lay'])
    got = arr(vm.add_vecs_to_img(img, vin, **kw), want.shape, 'image')
    if grow == 0:
        close(got, want, 'marked image', atol=0, rtol=0)
        again = vm.add_vecs_to_img(got.copy(), v, **kw)
        close(again, got, 'drawing twice', atol=0, rtol=0)
    elif np.any(marked):
        close(got, box(want, int(2 * grow + 1)), 'grown image', atol=1e-9)
    o = np.argsort(gen.bits(case['seed'] + 11, len(v)))
    img2 = background(case, sh)
    got2 = vm.add_vecs_to_img(img2, v[o], **kw)
    close(got2, got, 'order of the directions', atol=1e-12)


common = dict(c=gen.dirs(60, 6), seed=seeds, feat=st.sampled_from([1, 1, 3, 2, 4]), back=st.booleans(), scalar=st.booleans(),
              ch=st.lists(chan, min_size=4, max_size=4), grow=st.sampled_from([0, 0, 0, 1, 2, 3]), lay=gen.layout)


@CHECK.sub('angular', d(dxyz=views.vdir, va=views.va_all, res=st.integers(1, 24), usemask=st.sampled_from(['no', 'no', 'view', 'some']),
                        near=st.integers(0, 20), **common), big=[(5, {'c.n': gen.some, 'res': gen.wide, 'grow': st.integers(0, 6)})], quick=900, thorough=20000)
def angular(case, rec):
    va, res = case['va'], case['res']
    dv = gen.unit(case['dxyz'])
    vm = ViewMapper(dv, va)
    a = 2 if va == 360 else 1
    v = np.concatenate((gen.mk_dirs(case['c']), gen.unit(dv + gen.noise(case['seed'], (case['near'], 3), -.3, .3))))
    rec.label('360' if a == 2 else '180' if va == 180 else '<180')
    ang = gen.ang(v, dv)
    pos = views.dir2view(dv, v, va) * res
    if a == 2:
        bk = ang > np.pi / 2
        pos[bk] = views.dir2view(-dv, v[bk], va) * res + [[res, 0]]
        keep = np.abs(ang - np.pi / 2) > 1e-6
    else:
        keep = ang < np.pi - 1e-3
    keep &= np.all(np.abs(pos - np.round(pos)) > 1e-6 * res, 1)
    v, pos = v[keep], pos[keep]
    if len(v) == 0:
        rec.exclude('no direction left')
        return
    mask = None
    if case['usemask'] == 'view':
        mask = vm.init_img(res)[2]
    elif case['usemask'] == 'some':
        mask = np.nonzero(gen.noise(case['seed'] + 5, (res * a, res)) > .4)
    if mask is not None and len(mask[0]) == 0:
        mask = None
    run(case, rec, vm, v, np.floor(pos).astype(int), (res * a, res), mask)


@CHECK.sub('square', d(dxyz=views.vdir, va=views.va_all, res=st.integers(1, 40), near=st.integers(0, 30), **common),
           big=[(5, {'c.n': gen.some, 'res': gen.wide})], quick=600, thorough=12000)
def square(case, rec):
    va, res = case['va'], case['res']
    dv = gen.unit(case['dxyz'])
    vm = ViewMapper(dv, va)
    a = 2 if va == 360 else 1
    rec.label(f'aspect {a}')
    n = case['near']
    lim = views.half(va)
    th = lim * (1 + gen.noise(case['seed'], n, -.05, .02))
    ph = gen.noise(case['seed'] + 1, n, 0, 2 * np.pi)
    e = np.stack((np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)), -1) @ views.frame(dv)
    v = np.concatenate((gen.mk_dirs(case['c']), e))
    ang = gen.ang(v, dv)
    pos = np.asarray(vm.xyz2uv(v)) * res
    keep = np.all(np.abs(pos - np.round(pos)) > 1e-5 * res, 1) & (np.abs(ang - lim) > 1e-6)
    keep &= np.all(np.isfinite(pos), 1)
    v, pos, ang = v[keep], pos[keep], ang[keep]
    if len(v) == 0:
        rec.exclude('no direction left')
        return
    if a == 1:
        pos = np.where((ang < lim)[:, None], pos, -1)
    run(case, rec, vm, v, np.floor(pos).astype(int), (res * a, res), None, fisheye=False)


@CHECK.sub('planar', d(w=st.floats(.2, 5), h=st.floats(.2, 5), res=st.integers(4, 40), n=st.integers(1, 40), **common),
           big=[(5, {'n': gen.some, 'res': gen.wide})], quick=400, thorough=8000)
def planar(case, rec):
    w, h, res = case['w'], case['h'], case['res']
    vm = Mapper(sf=(w, h), bbox=((0, 0), (w, h)))
    sh = tuple(vm.framesize(res))
    if min(sh) < 1:
        return
    uv = gen.noise(case['seed'], (case['n'], 2), -.4, 1.4)
    pos = uv * sh
    keep = np.all(np.abs(pos - np.round(pos)) > 1e-6 * res, 1)
    uv, pos = uv[keep], pos[keep]
    if len(uv) == 0:
        return
    v = np.concatenate((uv * [w, h], np.zeros((len(uv), 1))), 1)
    run(case, rec, vm, v, np.floor(pos).astype(int), sh)


@CHECK.sub('mark', d(va=st.one_of(st.sampled_from([180.0, 90.0, 360.0]), st.floats(2, 180)), dxyz=views.vdir, res=st.integers(16, 40), i=st.integers(0, 99),
                     j=st.integers(0, 99), grow=st.integers(1, 4), value=st.floats(.1, 9)), big=[(5, {'res': gen.wide, 'grow': st.integers(1, 12)})], quick=200, thorough=3000)
def mark(case, rec):
    """a grown mark is a square of the same value"""
    res, g = case['res'], case['grow']
    rec.nontrivial()
    vm = ViewMapper(case['dxyz'], case['va'])
    i, j = [g + k % (res - 2 * g) for k in (case['i'], case['j'])]
    if (i + .5 - res / 2) ** 2 + (j + .5 - res / 2) ** 2 > .24 * res * res:
        i = j = res // 2
    v = np.asarray(vm.pixelrays(res))[i, j].reshape(1, 3)
    img = vm.init_img(res)[0]
    got = vm.add_vecs_to_img(img, v, channels=(case['value'], 0, 0), grow=g)
    want = np.zeros(img.shape)
    want[i - g:i + g + 1, j - g:j + g + 1] = case['value']
    close(got, want, 'grown mark', atol=1e-9)


@CHECK.sub('plot', d(planar=st.booleans(), square=st.sampled_from([False, False, False, True]), dxyz=views.vdir, va=views.va_all, w=st.floats(.3, 4), h=st.floats(.3, 4), res=st.integers(2, 40), n=st.integers(1, 30),
                     seed=seeds, grow=st.sampled_from([None, 0, 1, 2]), value=st.one_of(st.none(), st.sampled_from([1, 3., .25, 1000.]))), big=[(4, {'res': gen.wide, 'n': gen.some})], quick=150, thorough=1500)
def plot(case, rec):
    """an image file of the directions"""
    res, n, s = case['res'], case['n'], case['seed']
    dv = gen.unit(case['dxyz'])
    if case['planar']:
        vm = Mapper(sf=(case['w'], case['h']), bbox=((0, 0), (case['w'], case['h'])))
        sh = tuple(vm.framesize(res))
        if min(sh) < 1:
            return
        uv = gen.noise(s, (n, 2), -.4, 1.4)
        pos = uv * sh
        v = np.concatenate((uv * [case['w'], case['h']], np.zeros((n, 1))), 1)
    else:
        va = case['va']
        vm = ViewMapper(dv, va)
        sh = (res * (2 if va == 360 else 1), res)
        v = gen.unit(dv + gen.noise(s, (n, 3), -1, 1) * min(2, va / 90))
        ang = gen.ang(v, dv)
        ok = ang < 3
        if case['square']:
            # square projection, the directions in view
            pos = np.asarray(vm.xyz2uv(v)) * res
            ok &= np.all(np.isfinite(pos), 1) & np.all(np.abs(pos - np.round(pos)) > 1e-5 * res, 1)
            if va != 360:
                ok &= ang < views.half(va) - 1e-6
        else:
            pos = views.dir2view(dv, v, va) * res
            if va == 360:
                bk = ang > np.pi / 2
                pos[bk] = views.dir2view(-dv, v[bk], va) * res + [[res, 0]]
                ok = np.abs(ang - np.pi / 2) > 1e-6
        v, pos = v[ok], pos[ok]
        rec.label('360' if va == 360 else '<=180', 'square' if case['square'] else 'angular')
    keep = np.all(np.abs(pos - np.round(pos)) > 1e-6 * res, 1)
    v, pos = v[keep], np.floor(pos[keep]).astype(int)
    if len(v) == 0:
        return
    pos = pos[np.all((pos >= 0) & (pos < sh), 1)]
    want = np.zeros(sh)
    want[pos[:, 0], pos[:, 1]] = 1 if case['value'] is None else case['value']
    rec.nontrivial(0 < len(pos) and np.any(want == 0))
    rec.label('planar' if case['planar'] else 'view', f'grow {case["grow"]}')
    g = 1 if case['grow'] is None else case['grow']
    if g and len(pos):
        want = box(want, 2 * g + 1)
    f = f'plot{os.getpid()}.hdr'
    kw = {} if case['grow'] is None else dict(grow=g)
    if case['square'] and not case['planar']:
        kw['fisheye'] = False
    if case['value'] is not None:
        kw['channels'] = (case['value'], 0, 0)
    keep = v.copy()
    vm.plot(v, f, res=res, **kw)
    equal(v, keep, 'directions')
    h, rgb, _ = hdr.decode(f)
    os.remove(f)
    for i in rgb:
        close(i, want, 'image', rtol=1 / 128, atol=1e-9)
    require(any(vm.header() in i for i in h), 'view of the image', header=h)
