import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
import views
from gen import d, seeds
from raytools.mapper import Mapper, ViewMapper, SolidViewMapper

CHECK = Check('C10', rule='cases: view direction, view angle (1-180 or 360), projection, resolution 1-48 (thorough: '
              'same), fractional pixel positions, jitter. Non-trivial: resolution of at least 2.',
              assumptions=['directions within 1e-4 of (but not exactly) vertical are outside the domain'])
res_ = st.one_of(st.sampled_from([2, 3, 8, 16, 1]), st.integers(2, 48), st.integers(5, 48))


def tol(va):
    return 1e-6 if va >= 10 else 1e-4


@CHECK.sub('angular', d(dxyz=views.vdir, va=views.va_all, res=res_, n=st.integers(1, 40), seed=seeds, lay=gen.layout),
           big=[(5, {'res': gen.wide, 'n': gen.some})], quick=900, thorough=20000)
def angular(case, rec):
    """pixel rays against the projection definition; pixel->ray->pixel"""
    va, res, n = case['va'], case['res'], case['n']
    dv = gen.unit(case['dxyz'])
    rec.nontrivial(res > 1)
    rec.label('360' if va == 360 else '180' if va == 180 else '<180', 'odd' if res % 2 else 'even')
    vm = ViewMapper(dv, va)
    a = 2 if va == 360 else 1
    rays = arr(vm.pixelrays(res), (res * a, res, 3), 'pixelrays')
    close(np.linalg.norm(rays, axis=-1), np.ones((res * a, res)), 'unit rays', atol=1e-10)
    ij = np.stack(np.meshgrid(np.arange(res), np.arange(res), indexing='ij'), -1)
    ctr = (ij + .5) / res
    close(rays[:res], views.view2dir(dv, ctr, va), 'rays of the projection', atol=1e-7)
    if a == 2:
        close(rays[res:], views.view2dir(-dv, ctr, va), 'rays of the opposite hemisphere', atol=1e-7)
    # pixel of every ray (both hemispheres inside the circle for 360)
    inside = np.ones((res, res), bool)
    if a == 2:
        inside = np.sum((2 * ctr - 1) ** 2, -1) < .9999
    r = rays[:res][inside].reshape(-1, 3)
    want = ij[inside]
    if a == 2:
        r = np.concatenate((r, rays[res:][inside]))
        want = np.concatenate((want, want + [[res, 0]]))
    if len(r):
        got = arr(vm.ray2pixel(gen.lay(r, case['lay']), res), (len(r), 2), 'ray2pixel')
        require(got.dtype.kind in 'iu', 'integer pixels', dtype=got.dtype)
        equal(got, want, 'pixel of the ray of a pixel')
        close(vm.ray2pixel(r, res, False), want + .5, 'fractional pixel of the ray of a pixel', atol=tol(va) * res)
    # fractional positions
    p = gen.noise(case['seed'], (n, 2), 0, res)
    if a == 2:
        rr = np.sqrt(np.sum((p / res * 2 - 1) ** 2, -1, keepdims=True))
        p = np.where(rr > .999, (p / res * 2 - 1) / np.where(rr > 0, rr, 1) * .99 * res / 2 + res / 2, p)
    r = arr(vm.pixel2ray(gen.lay(p, case['lay']), res), (n, 3), 'pixel2ray')
    close(r, views.view2dir(dv, p / res, va), 'ray of a fractional position', atol=1e-7)
    close(vm.ray2pixel(r, res, integer=False), p, 'position of the ray of a position', atol=tol(va) * res)
    f = np.asarray(vm.ray2pixel(r, res, integer=False))
    clear = np.abs(f - np.round(f)) > 1e-9
    equal(np.asarray(vm.ray2pixel(r, res))[clear], np.floor(f[clear]), 'integer position')
    # any direction
    v = gen.sphere(case['seed'] + 1, n)
    ang = gen.ang(v, dv)
    if a == 2:
        k = np.abs(ang - np.pi / 2) > 1e-6
        v, ang = v[k], ang[k]
        if not len(v):
            return
        want = views.dir2view(dv, v, va)
        bk = ang > np.pi / 2
        want[bk] = views.dir2view(-dv, v[bk], va) + [[1, 0]]
    else:
        want = views.dir2view(dv, v, va)
    k = ang < np.pi - 1e-3
    close(np.asarray(vm.xyz2vxy(v))[k], want[k], 'image position of a direction', atol=1e-6)
    close(np.asarray(vm.ray2pixel(v, res, False))[k], want[k] * res, 'pixel of a direction', atol=1e-6 * res)
    w = want * res
    k = k & np.all(np.abs(w - np.round(w)) > 1e-5 * res, 1)
    equal(np.asarray(vm.ray2pixel(v, res))[k], np.floor(w[k]), 'integer pixel of any direction')
    rec.label('outside' if np.any(w[k] < 0) else 'inside')
    # whole images of positions
    pp = np.stack((p, p[::-1]))
    close(vm.pixel2ray(pp, res), np.stack((r, r[::-1])), 'rays of an array of positions', atol=1e-12)


@CHECK.sub('orientation', d(dxyz=views.vdir, va=views.va180, seed=seeds), quick=200, thorough=4000)
def orientation(case, rec):
    """image right is to the right of an observer, image up is up"""
    dv = gen.unit(case['dxyz'])
    rec.nontrivial()
    vm = ViewMapper(dv, case['va'])
    y = views.frame(dv)[1]
    right = np.cross(dv, y)
    v = vm.vxy2xyz(np.array([[.5, .5], [.75, .5], [.25, .5], [.5, .75], [.5, .25]]))
    s = np.sin(views.half(case['va']) / 2)
    close(v @ right, [0, s, -s, 0, 0], 'right', atol=1e-7)
    close(v @ y, [0, 0, 0, s, -s], 'up', atol=1e-7)


@CHECK.sub('equisolid', d(dxyz=views.vdir, va=views.va180, res=res_, n=st.integers(1, 40), seed=seeds,
                          cls=st.sampled_from(['solid', 'view'])), big=[(5, {'res': gen.wide, 'n': gen.some})], quick=500, thorough=10000)
def equisolid(case, rec):
    """the equisolid pixel mapping is invertible, keeps the azimuth and is monotone in radius"""
    va, res, n = case['va'], case['res'], case['n']
    dv = gen.unit(case['dxyz'])
    rec.nontrivial(res > 1)
    rec.label(case['cls'])
    if case['cls'] == 'solid':
        vm = SolidViewMapper(dv, va)
        p2r, r2p, rays = vm.pixel2ray, vm.ray2pixel, vm.pixelrays(res)
    else:
        vm = ViewMapper(dv, va)
        p2r, r2p, rays = vm.solid_pixel2ray, vm.solid_ray2pixel, vm.solid_pixelrays(res)
    rays = arr(rays, (res, res, 3), 'pixelrays')
    close(np.linalg.norm(rays, axis=-1), np.ones((res, res)), 'unit rays', atol=1e-9)
    ij = np.stack(np.meshgrid(np.arange(res), np.arange(res), indexing='ij'), -1)
    ctr = (ij + .5).reshape(-1, 2)
    c = np.max(np.abs(ctr - res / 2), 1) > 1e-6
    equal(r2p(rays.reshape(-1, 3)[c], res), ij.reshape(-1, 2)[c], 'pixel of the ray of a pixel')
    p = gen.noise(case['seed'], (n, 2), 0, res)
    r = arr(p2r(p, res), (n, 3), 'pixel2ray')
    close(r2p(r, res, False), p, 'position of the ray of a position', atol=1e-5 * res if va > 10 else 1e-3 * res)
    w = r @ views.frame(dv).T
    q = (p / res - .5)
    rho = np.hypot(q[:, 0], q[:, 1])
    k = rho > 1e-3
    az = w[:, :2] / np.hypot(w[:, 0], w[:, 1])[:, None]
    close(az[k], (q * [[-1, 1]] / rho[:, None])[k], 'azimuth', atol=1e-6)
    a = gen.ang(r, dv)
    o = np.argsort(rho)
    require(np.all(np.diff(a[o]) > -1e-7), 'angle does not grow with the distance from the centre')
    e = np.array([[res, res / 2], [res / 2, res], [0, res / 2], [res / 2, 0]], float)
    close(gen.ang(p2r(e, res), dv), np.full(4, gen.ang(p2r(e[:1], res), dv)[0]), 'angle at the edge', atol=1e-7)
    if va == 180:
        close(gen.ang(p2r(e, res), dv), np.full(4, np.pi / 2), 'view edge', atol=1e-6)


@CHECK.sub('grid', d(dxyz=views.vdir, va=views.va_all, res=res_, jitter=st.one_of(st.just(0.0), st.floats(0, 1)),
                     cls=st.sampled_from(['view', 'view', 'solid', 'plane']), asp=st.one_of(st.sampled_from([1, 2, .5, 1.7]), st.floats(.2, 5))),
           big=[(5, {'res': gen.wide})], quick=400, thorough=8000)
def grid(case, rec):
    """every pixel once, at its centre or inside its cell"""
    res, j = case['res'], case['jitter']
    rec.nontrivial(res > 1)
    rec.label(case['cls'], 'jitter' if j > 0 else 'centres')
    if case['cls'] == 'plane':
        res = max(res, 4)
        vm = Mapper(bbox=((0, 0), (case['asp'], 1)), sf=(case['asp'], 1))
        sh = vm.framesize(res)
    else:
        cls = ViewMapper if case['cls'] == 'view' else SolidViewMapper
        vm = cls(case['dxyz'], case['va'] if case['cls'] == 'view' else min(180, case['va']))
        sh = (res, res)
        equal(vm.framesize(res), sh, 'framesize')
    p = arr(vm.pixels(res) if j == 0 else vm.pixels(res, jitter=j), (*sh, 2), 'pixels')
    ctr = np.stack(np.meshgrid(np.arange(sh[0]) + .5, np.arange(sh[1]) + .5, indexing='ij'), -1)
    require(np.all(np.abs(p - ctr) <= j / 2 + 1e-9), 'pixel position outside of its jittered cell',
            off=np.abs(p - ctr).max())
    if j > .01 and min(sh) > 3:
        require(np.std((p - ctr)[..., 0]) > 0 and np.std((p - ctr)[..., 1]) > 0, 'jitter does not vary')
        dx, dy = (p - ctr)[..., 0].ravel(), (p - ctr)[..., 1].ravel()
        require(not np.allclose(dx, dy), 'both coordinates share the jitter')
    if case['cls'] == 'view' and j > 0 and case['va'] != 360:
        r = arr(vm.solid_pixelrays(res, jitter=j), (res, res, 3), 'solid_pixelrays')
        px = np.asarray(vm.solid_ray2pixel(r.reshape(-1, 3), res, False)).reshape(ctr.shape)
        require(np.all(np.abs(px - ctr) <= j / 2 + 1e-4 * res), 'jittered ray outside of its cell')


@CHECK.sub('square', d(dxyz=gen.dir1, va=views.va_all, res=st.integers(1, 20), pt=st.lists(st.floats(-9, 9), min_size=3, max_size=3),
                       proj=st.sampled_from(['vuv', 'u', 'uv', 'UV', 'square', 'Shirley'])), big=[(4, {'res': gen.wide})], quick=250, thorough=4000)
def square(case, rec):
    """square projection: each pixel looks through the centre of its cell"""
    va, res = case['va'], case['res']
    rec.nontrivial(res > 1)
    vm = ViewMapper(case['dxyz'], va)
    a = 2 if va == 360 else 1
    rec.label(case['proj'], f'aspect {a}')
    img, vecs, mask, mask2, header = vm.init_img(res, viewproj=case['proj'], pt=tuple(case['pt']))
    require(img.shape == (res * a, res) and not np.any(img), 'image', shape=img.shape)
    vecs = arr(vecs, (res * a, res, 3), 'vectors')
    i, j = np.meshgrid(np.arange(res * a), np.arange(res), indexing='ij')
    uv = np.stack(((i + .5) / res, (j + .5) / res), -1).reshape(-1, 2)
    close(vecs.reshape(-1, 3), vm.uv2xyz(uv), 'ray of a square pixel', atol=1e-10)
    require('-vuv' in header.split(), 'projection in the header', header=header)
