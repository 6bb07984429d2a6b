import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
import views
from gen import d, seeds
from raytools.mapper import ViewMapper, SolidViewMapper

CHECK = Check('C09', rule='cases: view direction (axis, near-axis, lattice, generic; scaled), view angle (1-180, 360), '
              'sets of square coordinates and directions. Non-trivial: the direction is not a coordinate axis or '
              'the view angle is not 180.',
              assumptions=['view directions within 1e-4 of (but not exactly) vertical are outside the domain of the '
                           'frame reference (still inside the round-trip and setter relations)'])


def nt(case, rec):
    v = case['dxyz']
    rec.nontrivial(sum(1 for i in v if i != 0) > 1 or case['va'] != 180)
    rec.label('360' if case['va'] == 360 else '180' if case['va'] == 180 else '<180')


def uvs(seed, n, va, m=1e-3):
    uv = gen.noise(seed, (n, 2), m, 1 - m)
    if va == 360:
        uv[:, 0] += (gen.bits(seed + 3, n) & np.uint64(1)).astype(float)
    return uv


def ref_uv2xyz(dxyz, va, uv):
    s = 1 if va == 360 else va / 180
    second = uv[:, 0] > 1
    sq = np.stack((uv[:, 0] - second, uv[:, 1]), -1)
    if va != 360:
        sq = .5 - s / 2 + sq * s
    p = views.disk(sq)
    r2 = np.sum(p * p, 1)
    n = np.where(second, -1, 1)
    v = np.stack((-n * p[:, 0] * np.sqrt(2 - r2), p[:, 1] * np.sqrt(2 - r2), n * (1 - r2)), -1)
    return v @ views.frame(dxyz)


@CHECK.sub('frame', d(dxyz=gen.dir1, scale=views.scales, va=views.va_all, c=gen.dirs(60, 6), lay=gen.layout,
                      origin=st.lists(st.floats(-50, 50), min_size=3, max_size=3), order=st.sampled_from('Cn')),
           big=[(5, {'c.n': gen.many})], quick=900, thorough=20000)
def frame(case, rec):
    """rotation to the view frame and back; angles to the view direction"""
    nt(case, rec)
    dv = gen.unit(case['dxyz'])
    vm = ViewMapper(np.array(case['dxyz']) * case['scale'], case['va'])
    close(vm.dxyz, dv, 'view direction', atol=1e-12)
    v = gen.mk_dirs(case['c'])
    src = gen.lay(v, case['lay'])
    w = arr(vm.world2view(src), v.shape, 'world2view')
    close(vm.world2view(dv.reshape(1, 3)), [[0, 0, 1]], 'view direction in the view frame', atol=1e-7)
    up = arr(vm.world2view(np.array([[0, 0, 1.]])), (1, 3), 'world up')[0]
    require(abs(up[0]) < 1e-7 and up[1] > -1e-7, 'world up is not up in the view frame', up=up)
    require(np.linalg.det(vm.world2view(np.eye(3))) > 0, 'view frame is mirrored')
    close(w[:300] @ w[:300].T, v[:300] @ v[:300].T, 'angles between vectors', atol=1e-7)
    close(vm.view2world(gen.lay(w, case['lay'])), v, 'view2world(world2view(v))', atol=1e-10)
    close(vm.world2view(vm.view2world(src)), v, 'world2view(view2world(v))', atol=1e-10)
    if not views.near_vertical(dv):
        close(w, v @ views.frame(dv).T, 'view frame', atol=1e-7)
    else:
        rec.label('near vertical')
    # angles: (N,3) and image shaped
    a = gen.ang(v, dv)
    c = v @ dv
    close(vm.ctheta(src), c, 'ctheta', atol=1e-9)
    close(np.cos(vm.radians(src)), np.cos(a), 'radians', atol=1e-9)
    close(vm.radians(src), a, 'radians', atol=1e-7)
    close(vm.degrees(src), np.degrees(a), 'degrees', atol=1e-5)
    if len(v) % 2 == 0:
        close(vm.degrees(v.reshape(2, -1, 3)), np.degrees(a), 'degrees of an image', atol=1e-5)
        rec.label('image shaped')
    # lists and one vector are vectors as well
    k = len(v) - 1
    for f, r in ((vm.ctheta, c), (vm.degrees, np.degrees(a))):
        close(np.ravel(f(v[k].tolist())), r[k:], f'{f.__name__} of one listed vector', atol=1e-5)
        close(f(v[:9].tolist()), r[:9], f'{f.__name__} of a list', atol=1e-5)
    for f, r in ((vm.world2view, w), (vm.view2world, vm.view2world(v))):
        close(np.ravel(f(v[k].tolist())), r[k], f'{f.__name__} of one listed vector', atol=1e-9)
        close(f(v[:9].tolist()), r[:9], f'{f.__name__} of a list', atol=1e-9)
    for x in (vm.radians(-dv[None]), vm.radians(dv[None])):
        require(np.all(np.isfinite(x)), 'angle of the view axis is not finite')


@CHECK.sub('square', d(dxyz=gen.dir1, scale=views.scales, va=views.va_all, n=st.integers(1, 80), seed=seeds,
                       border=st.sampled_from([1e-3, 1e-6]), c=gen.dirs(40, 6), lay=gen.layout), big=[(5, {'n': gen.many})], quick=900, thorough=20000)
def square(case, rec):
    """square coordinates <-> directions"""
    nt(case, rec)
    va = case['va']
    dv = gen.unit(case['dxyz'])
    vm = ViewMapper(np.array(case['dxyz']) * case['scale'], va)
    uv = uvs(case['seed'], case['n'], va, case['border'])
    xyz = arr(vm.uv2xyz(gen.lay(uv, case['lay'])), (len(uv), 3), 'uv2xyz')
    close(np.linalg.norm(xyz, axis=1), np.ones(len(uv)), 'norm', atol=1e-10)
    close(vm.xyz2uv(gen.lay(xyz, case['lay'])), uv, 'xyz2uv(uv2xyz(uv))', atol=1e-6 if va > 20 else 1e-4, rtol=0)
    centre = [[.5, .5]]
    close(vm.uv2xyz(np.array(centre)), dv[None], 'centre of the square', atol=1e-7)
    close(vm.xyz2uv(dv[None]), centre, 'view direction', atol=1e-5 if va > 5 else 1e-3)
    a = gen.ang(xyz, dv)
    second = uv[:, 0] > 1
    if va == 360:
        require(np.all(a[~second] <= np.pi / 2 + 1e-7) and np.all(a[second] >= np.pi / 2 - 1e-7), 'half of the square')
        close(vm.uv2xyz(np.array([[1.5, .5]])), -dv[None], 'centre of the second square', atol=1e-7)
        v = gen.mk_dirs(case['c'])
        z = v @ dv
        t = arr(vm.xyz2uv(v), (len(v), 2), 'xyz2uv')
        require(np.all((t > -1e-9) & (t < [[2 + 1e-9, 1 + 1e-9]])), 'every direction has square coordinates', uv=t)
        clear = np.abs(z) > 1e-6
        equal(t[clear, 0] > 1, z[clear] < 0, 'half of the sphere')
        close(vm.uv2xyz(t[clear]), v[clear], 'uv2xyz(xyz2uv(v))', atol=1e-6)
    else:
        lim = views.half(va)
        require(np.all(a <= lim + 1e-7), 'square coordinate outside of the view', angle=a.max(), limit=lim)
        require(np.all(vm.in_view(xyz, indices=False) | (a > lim - 1e-6)), 'in_view of square coordinates')
    if not views.near_vertical(dv):
        close(xyz, ref_uv2xyz(dv, va, uv), 'uv2xyz reference', atol=1e-7)
    # one coordinate at a time
    close(vm.uv2xyz(uv[0]), xyz[:1], 'flat coordinate', atol=1e-12)
    close(vm.xyz2uv(xyz[0]), vm.xyz2uv(xyz)[:1], 'flat direction', atol=1e-12)


@CHECK.sub('origin', d(dxyz=gen.dir1, va=views.va_all, n=st.integers(1, 20), seed=seeds,
                       origin=st.lists(st.floats(-50, 50), min_size=3, max_size=3)), big=[(3, {'n': gen.some})], quick=200, thorough=4000)
def origin(case, rec):
    nt(case, rec)
    vm = ViewMapper(case['dxyz'], case['va'], origin=tuple(case['origin']))
    uv = uvs(case['seed'], case['n'], case['va'])
    v = arr(vm.uv2xyz(uv), (len(uv), 3), 'uv2xyz')
    r = arr(vm.uv2xyz(uv, stackorigin=True), (len(uv), 6), 'uv2xyz with origin')
    close(r[:, 3:], v, 'direction of ray', atol=0, rtol=0)
    close(r[:, :3], np.broadcast_to(case['origin'], v.shape), 'origin of ray', atol=0, rtol=0)
    uv = uvs(case['seed'], case['n'], 180)
    v = arr(vm.vxy2xyz(np.array(uv)), (len(uv), 3), 'vxy2xyz')
    r = arr(vm.vxy2xyz(np.array(uv), stackorigin=True), (len(uv), 6), 'vxy2xyz with origin')
    close(r[:, 3:], v, 'direction of ray', atol=0, rtol=0)
    close(r[:, :3], np.broadcast_to(case['origin'], v.shape), 'origin of ray', atol=0, rtol=0)
    v = arr(vm.solid_vxy2xyz(np.array(uv)), (len(uv), 3), 'solid_vxy2xyz')
    r = arr(vm.solid_vxy2xyz(np.array(uv), stackorigin=True), (len(uv), 6), 'solid_vxy2xyz with origin')
    close(r[:, 3:], v, 'direction of ray (equisolid)', atol=0, rtol=0)
    close(r[:, :3], np.broadcast_to(case['origin'], v.shape), 'origin of ray (equisolid)', atol=0, rtol=0)
    # what is not given: rays from the world origin, views of 360 degrees along y
    for cls in (ViewMapper, SolidViewMapper):
        w = cls(case['dxyz'], case['va'] if cls is ViewMapper else 180)
        close(w.uv2xyz(uv, stackorigin=True)[:, :3], np.zeros((len(uv), 3)), 'default origin', atol=0, rtol=0)
        close(w.vxy2xyz(np.array(uv), stackorigin=True)[:, :3], np.zeros((len(uv), 3)), 'default origin', atol=0, rtol=0)
        close(cls().dxyz, [0, 1, 0], 'default direction', atol=0)
        equal(cls().viewangle, cls((0, 1, 0), viewangle=360 if cls is ViewMapper else 180).viewangle, 'default angle')
    equal(ViewMapper().aspect, 2, 'default aspect')
    o = [1.0, 2.0, 3.0]
    vm.origin = o
    close(vm.uv2xyz(uv, True)[:, :3], np.broadcast_to(o, v.shape), 'changed origin', atol=0, rtol=0)


op = st.one_of(st.tuples(st.just('set'), gen.dir1, views.scales).map(list),
               st.tuples(st.just('use'), st.sampled_from(['rays', 'uv', 'mask', 'header', 'frame', 'img'])).map(list))


def observe(vm, case, res=5):
    va = case['va']
    uv = uvs(case['seed'], 9, va)
    v = gen.sphere(case['seed'] + 1, 9)
    o = dict(uv2xyz=vm.uv2xyz(uv), xyz2uv=vm.xyz2uv(v), w2v=vm.world2view(v), v2w=vm.view2world(v),
             rays=vm.pixelrays(res), pix=vm.ray2pixel(v, res, False), mask=vm.in_view(v, indices=False),
             ang=vm.degrees(v), omega=vm.pixel2omega(vm.pixels(res), res), dxyz=np.asarray(vm.dxyz),
             size=np.array(vm.framesize(res)), header=np.array(vm.header()), area=np.array(vm.area),
             va=np.array(vm.viewangle), aspect=np.array(vm.aspect))
    img = vm.init_img(res, indices=False)
    o['img'] = img[1]
    o['imgmask'] = img[2]
    o['imghdr'] = np.array(img[4])
    if va == 360:
        o['ivm'] = np.asarray(vm.ivm.dxyz)
        o['ivmrays'] = vm.ivm.pixelrays(res)
    else:
        require(vm.ivm is None, 'opposite mapper of a view that is not 360 degrees')
    return o


@CHECK.sub('history', d(dxyz=gen.dir1, va=views.va_all, kind=st.sampled_from(['view', 'view', 'solid']), seed=seeds,
                        ops=st.lists(op, min_size=1, max_size=6)), quick=400, thorough=8000)
def history(case, rec):
    """a mapper whose direction is changed behaves like one built for the direction"""
    cls = ViewMapper
    va = case['va']
    if case['kind'] == 'solid':
        cls = SolidViewMapper
        va = min(180, va)
    case = dict(case, va=va)
    nt(case, rec)
    rec.label(case['kind'])
    cur = np.array(case['dxyz'])
    vm = cls(cur, va)
    sets = 0
    for o in case['ops']:
        if o[0] == 'set':
            cur = np.array(o[1]) * o[2]
            vm.dxyz = cur
            sets += 1
            fresh = observe(cls(cur, va), case)
            now = observe(vm, case)
            require(set(now) == set(fresh), 'attributes')
            for k in now:
                if fresh[k].dtype.kind in 'Ub':
                    equal(now[k], fresh[k], f'{k} after changing the direction')
                else:
                    close(now[k], fresh[k], f'{k} after changing the direction', atol=1e-12)
        elif o[1] == 'rays':
            vm.pixelrays(5)
        elif o[1] == 'uv':
            vm.xyz2uv(vm.uv2xyz(np.array([[.3, .4]])))
        elif o[1] == 'mask':
            vm.in_view(gen.sphere(1, 5))
        elif o[1] == 'header':
            vm.header()
        elif o[1] == 'img':
            vm.init_img(5)
        else:
            vm.framesize(5), vm.pixels(5)
    rec.label(f'{min(sets, 3)} changes')
