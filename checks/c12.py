import os

import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
import views
from gen import d, seeds
from raytools import io, imagetools
from raytools.mapper import ViewMapper

CHECK = Check('C12', rule='cases: view direction, view angle, resolution (8-400), pixel positions; image files (grey and '
              'colour, 1:1 and 2:1) with a view header. Non-trivial: resolution of at least 8.',
              assumptions=['solid angles are compared to the quadrature of the projection with a tolerance of second '
                           'order in the pixel size'])
GL = np.polynomial.legendre.leggauss(6)


def omega_ref(va, res, pxy):
    """integral of sin(theta)/theta over each pixel (equidistant projection)"""
    h = 2 * views.half(va) / res
    x = (np.asarray(pxy, float) - res / 2) * h
    gx, gy = np.meshgrid(GL[0], GL[0])
    w = np.outer(GL[1], GL[1]) / 4
    th = np.hypot(x[..., 0, None, None] + gx * h / 2, x[..., 1, None, None] + gy * h / 2)
    return np.sum(np.sinc(th / np.pi) * w, (-1, -2)) * h * h


def theta(va, res, pxy):
    p = (np.asarray(pxy) / res - .5) * 2
    return np.hypot(p[..., 0], p[..., 1]) * views.half(va)


@CHECK.sub('omega', d(dxyz=gen.dir1, va=views.va_all, res=st.one_of(st.integers(8, 64), st.integers(8, 300)),
                      lay=gen.layout, n=st.integers(0, 30), seed=seeds), big=[(3, {'res': st.integers(500, 3000), 'n': gen.some})], quick=500, thorough=8000)
def omega(case, rec):
    va, res = case['va'], case['res']
    rec.nontrivial()
    rec.label('360' if va == 360 else '180' if va == 180 else '<180')
    vm = ViewMapper(case['dxyz'], va)
    ij = np.stack(np.meshgrid(np.arange(res) + .5, np.arange(res) + .5, indexing='ij'), -1)
    if res > 64:
        # a band of rows
        k = (case['seed'] % (res - 8))
        ij = ij[k:k + 8]
    o = arr(vm.pixel2omega(gen.lay(ij, case['lay']), res), ij.shape[:-1], 'pixel2omega')
    th = theta(va, res, ij)
    ins = th <= views.half(va)
    require(np.all(o[ins] > 0), 'solid angle is not positive')
    ref = omega_ref(va, res, ij)
    h = 2 * views.half(va) / res
    err = np.abs(o / ref - 1)
    lim = .5 * h * h + 1e-6
    require(np.all(err[ins] <= lim), 'solid angle differs from the pixel area', error=float(err[ins].max()), limit=lim,
            res=res, va=va)
    if np.any(~ins):
        c = ~ins & (th < 2.2)
        require(np.all(err[c] <= 12 * h * h + 1e-6), 'solid angle of corner pixels', error=float(np.max(err[c], initial=0)))
    # other direction, same solid angle
    vm2 = ViewMapper((0, 1, 0), va)
    close(vm2.pixel2omega(ij, res), o, 'solid angle depends on the view direction', rtol=1e-6, atol=1e-9 * h * h)
    # only the distance matters (reflections of the square)
    for m in (ij[..., ::-1], res - ij, np.stack((res - ij[..., 1], ij[..., 0]), -1)):
        close(np.asarray(vm.pixel2omega(m, res))[ins], o[ins], 'solid angle of a mirrored pixel', rtol=1e-6, atol=1e-9 * h * h)
    if case['n']:
        p = gen.noise(case['seed'], (case['n'], 2), .3 * res, .7 * res)
        got = arr(vm.pixel2omega(p, res), (len(p),), 'pixel2omega of a list')
        require(np.all(np.abs(got / omega_ref(va, res, p) - 1) < lim), 'solid angle of fractional positions')


@CHECK.sub('tiling', d(dxyz=gen.dir1, res=st.integers(16, 400), va=st.sampled_from([180, 180.0, 360])), big=[(2, {'res': st.integers(500, 900)})], quick=150, thorough=2000)
def tiling(case, rec):
    """solid angles of the pixels in view sum to 2 pi"""
    res = case['res']
    rec.nontrivial()
    vm = ViewMapper(case['dxyz'], case['va'])
    o = np.asarray(vm.pixel2omega(vm.pixels(res), res))
    m = vm.in_view(np.asarray(vm.pixelrays(res))[:res], indices=False).reshape(res, res)
    n = np.sum(m)
    # pixels in the circle against its area: lattice points in a circle
    s = np.sum(o[m])
    require(abs(s / (2 * np.pi) - 1) < 1.2 / res ** 1.3 + 3 / res ** 2, 'sum of solid angles', total=s, n=int(n), res=res)
    require(abs(vm.area - 2 * np.pi * (2 if case['va'] == 360 else 1)) < 1e-9, 'view area', area=vm.area)


@CHECK.sub('image', d(dxyz=views.vdir, va=st.one_of(st.just(180.0), st.just(360.0), st.floats(20, 180)),
                      res=st.integers(2, 24), seed=seeds, color=st.booleans(), given=st.sampled_from(['no', 'same', 'other']), dir2=views.vdir,
                      vl=st.one_of(st.none(), st.lists(st.floats(.01, 1), min_size=3, max_size=3))), big=[(4, {'res': gen.wide})], quick=300, thorough=5000)
def image(case, rec):
    """rays, solid angles and values of an image file, in the same order"""
    va, res, color = case['va'], case['res'], case['color']
    a = 2 if va == 360 else 1
    vm = ViewMapper(case['dxyz'], va)
    rec.nontrivial(res > 2)
    rec.label('colour' if color else 'grey', f'aspect {a}', f"mapper: {case['given']}")
    img = np.exp(gen.noise(case['seed'], (3, res * a, res), -3, 3))
    io.carray2hdr(img, 'img.hdr', header=[vm.header()])
    if case['given'] == 'other':
        # the mapper given counts, not the view of the header
        va = va if a == 2 else max(va / 2, 10)
        vm = ViewMapper(case['dir2'], va)
    back = io.hdr2carray('img.hdr')
    require(np.all(np.abs(back - img) <= .01 * img.max(0)), 'image file')
    kw = dict(color=True) if color else {}
    if not color and case['vl'] is not None:
        kw['vlambda'] = case['vl']
    if case['given'] != 'no':
        kw['vm'] = vm
    v, o, l = imagetools.hdr2vol('img.hdr', **kw)
    n = res * res * a
    v = arr(v, (n, 3), 'vectors')
    o = arr(o, (n,), 'solid angles')
    l = arr(l, (n, 3) if color else (n,), 'values')
    ij = np.stack(np.meshgrid(np.arange(res) + .5, np.arange(res) + .5, indexing='ij'), -1) / res
    ref = views.view2dir(vm.dxyz, ij, va).reshape(-1, 3)
    w = omega_ref(va, res, ij * res).ravel()
    if a == 2:
        ref = np.concatenate((ref, views.view2dir(-np.asarray(vm.dxyz), ij, va).reshape(-1, 3)))
        w = np.tile(w, 2)
    close(v, ref, 'direction of each pixel', atol=1e-6)
    h = 2 * views.half(va) / res
    th = np.tile(theta(va, res, ij * res).ravel(), a)
    k = th < views.half(va)
    require(np.all(np.abs(o / w - 1)[k] < .5 * h * h + 1e-5), 'solid angle of each pixel', err=np.abs(o / w - 1)[k].max())
    close(o, np.tile(np.asarray(ViewMapper((0, 1, 0), va).pixel2omega(ij * res, res)).ravel(), a), 'solid angles', rtol=1e-5)
    if color:
        close(l, back.reshape(3, -1).T, 'values', rtol=1e-6)
    else:
        c = case['vl'] or gen.RADLUM
        close(l, np.einsum('i,ijk->jk', c, back).ravel(), 'values', rtol=1e-5)
    os.remove('img.hdr')
