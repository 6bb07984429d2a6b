import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
import views
from gen import d, seeds
from raytools.mapper import Mapper, ViewMapper

CHECK = Check('C15', rule='cases: bounding box, scale, plane height, grid shape (1-60 by 1-60), indices, jitter rate, '
              'resolution, changed aspect. Non-trivial: the box is not square or the grid is not square.',
              assumptions=['resolutions for which the shorter side has no pixel are outside the domain'])
num = st.one_of(st.floats(-20, 20), st.sampled_from([0, 1, -1, .5]))
size = st.one_of(st.floats(.05, 20), st.sampled_from([1, 2, .5, 10]))


@CHECK.sub('plane', d(b=st.lists(num, min_size=2, max_size=2), wh=st.lists(size, min_size=2, max_size=2),
                      sf=st.one_of(st.none(), st.lists(size, min_size=2, max_size=2)), z=st.one_of(st.none(), num),
                      asp=st.one_of(st.none(), st.none(), size), n=st.integers(1, 40), seed=seeds, lay=gen.layout,
                      shape=st.sampled_from(['list', 'image']), origin=st.lists(num, min_size=3, max_size=3)), big=[(4, {'n': gen.many})], quick=600, thorough=12000)
def plane(case, rec):
    b, wh = np.array(case['b'], float), np.array(case['wh'], float)
    rec.nontrivial(wh[0] != wh[1])
    kw = {}
    sf = np.ones(2) if case['sf'] is None else np.array(case['sf'], float)
    if case['sf'] is not None:
        kw['sf'] = tuple(case['sf'])
    z = 0 if case['z'] is None else case['z']
    if case['z'] is not None:
        kw['uvz'] = z
    if case['asp'] is not None:
        kw['aspect'] = case['asp']
    vm = Mapper(bbox=(tuple(b), tuple(b + wh)), origin=tuple(case['origin']), **kw)
    uv = gen.noise(case['seed'], (case['n'], 2), -.2, 1.2)
    want = np.concatenate((b + uv * sf, np.full((len(uv), 1), z)), 1)
    got = arr(vm.uv2xyz(gen.lay(uv, case['lay'])), want.shape, 'uv2xyz')
    close(got, want, 'uv2xyz', atol=1e-9)
    close(vm.uv2xyz(uv, stackorigin=True), np.concatenate((np.broadcast_to(case['origin'], want.shape), want), 1), 'origin')
    close(vm.uv2xyz(uv[0]), want[:1], 'one coordinate')
    r = Mapper(bbox=(tuple(b), tuple(b + wh)), **kw).uv2xyz(uv, stackorigin=True)
    close(r, np.concatenate((np.zeros(want.shape), want), 1), 'default origin', atol=1e-9)
    r = Mapper()
    close(np.concatenate([np.ravel(i) for i in (r.bbox, r.dxyz, r.aspect, r.uv2xyz([[.25, .75]], stackorigin=True))]), [0, 0, 1, 1, 0, 0, 1, 1, 0, 0, 0, .25, .75, 0], 'default mapper', atol=1e-12)
    src = want.copy()
    src[:, 2] = gen.noise(case['seed'] + 1, len(src), -5, 5)
    if case['shape'] == 'image' and len(uv) % 2 == 0:
        rec.label('image shaped')
        src, uv = src.reshape(2, -1, 3), uv.reshape(2, -1, 2)
    tol = 1e-10 * (1 + np.max(np.abs(b))) / np.min(sf)
    close(vm.xyz2uv(gen.lay(src, case['lay'])), uv, 'xyz2uv', atol=max(tol, 1e-9))
    close(vm.xyz2vxy(src), uv, 'xyz2vxy', atol=max(tol, 1e-9))
    close(vm.bbox, np.stack((b, b + wh)), 'bounding box', atol=1e-12)
    ext = vm.bbox[1] - vm.bbox[0]
    close(vm.area, ext[0] * ext[1], 'area')
    close(vm.aspect, ext[0] / ext[1] if case['asp'] is None else case['asp'], 'aspect')


@CHECK.sub('frame', d(wh=st.lists(size, min_size=2, max_size=2), res=st.integers(1, 60), asp=st.lists(size, max_size=3),
                      touch=st.booleans()), big=[(4, {'res': st.integers(100, 600)})], quick=500, thorough=10000)
def frame(case, rec):
    w, h = case['wh']
    vm = Mapper(sf=(w, h), bbox=((0, 0), (w, h)))
    aspects = [None] + case['asp']
    for asp in aspects:
        if asp is not None:
            vm.aspect = asp
            rec.label('aspect changed')
        asp = w / h if asp is None else asp
        for res in ([case['res'], case['res'] + 3] if case['touch'] else [case['res']]):
            x, y = vm.framesize(res)
            require(max(x, y) == res, 'longest side', size=(x, y), res=res, aspect=asp)
            short = res * min(asp, 1 / asp)
            require(abs(min(x, y) - short) <= .5 + 1e-9, 'shorter side', size=(x, y), want=short)
            require((asp < 1 and y == res) or (asp >= 1 and x == res), 'orientation', size=(x, y), aspect=asp)
            if min(x, y) < 1:
                rec.exclude('no pixel on the shorter side')
                continue
            rec.nontrivial(x != y)
            p = arr(vm.pixels(res), (x, y, 2), 'pixels').reshape(-1, 2)
            equal(p, np.stack(np.divmod(np.arange(x * y), y), -1) + .5, 'pixel centres')
            o = arr(vm.pixel2omega(p, res), (len(p),), 'pixel areas')
            close(np.sum(o), w * h, 'sum of pixel areas', rtol=1e-9)
            close(o, np.full(len(o), w * h / (x * y)), 'pixel area')
            # the rays of the pixels are the centres of the cells (in any order of columns)
            r = arr(vm.pixelrays(res), None, 'pixelrays').reshape(-1, 3)
            r = r[:, :2] / [w, h] * [x, y]
            require(len(r) == len(p) and np.all(np.abs(r % 1 - .5) < 1e-6), 'rays of pixels')
            require(len({tuple(i) for i in np.floor(r).astype(int).tolist()}) == x * y, 'rays of pixels cover the frame')
            px = arr(vm.ray2pixel(np.asarray(vm.uv2xyz(p / [x, y])), res), p.shape, 'ray2pixel')
            equal(px, np.floor(p), 'pixel of a cell centre')
            equal(vm.ray2pixel(np.asarray(vm.uv2xyz(p / [x, y])), (x, y)), np.floor(p), 'pixel for a given frame size')


@CHECK.sub('index', d(shape=st.lists(st.integers(1, 60), min_size=2, max_size=2), cls=st.sampled_from(['plane', 'plane', 'view', 'view2', 'square']),
                      rate=st.one_of(st.sampled_from([0, .5, 1.0]), st.floats(0, .999)), jitter=st.booleans(), n=st.integers(1, 80),
                      seed=seeds, dt=st.sampled_from(['i8', 'i4', 'u4'])), big=[(4, {'n': gen.many, 'shape': st.lists(st.integers(100, 40000), min_size=2, max_size=2)}), (10, {'n': gen.many, 'shape': st.lists(st.integers(47000, 200000), min_size=2, max_size=2)})], quick=800, thorough=15000)
def index(case, rec):
    sh = tuple(case['shape'])
    if case['cls'] == 'plane':
        vm = Mapper(jitterrate=case['rate'])
        den = np.array(sh, float)
    else:
        if case['cls'] == 'view2':
            sh = (2 * sh[1], sh[1])
        elif case['cls'] == 'square':
            sh = (sh[1], sh[1])
        vm = ViewMapper(jitterrate=case['rate'], viewangle=360 if case['cls'] == 'view2' else 180)
        den = np.array([sh[1], sh[1]], float)
    rec.nontrivial(sh[0] != sh[1])
    rec.label(case['cls'], 'jitter' if case['jitter'] and case['rate'] else 'centres')
    n = sh[0] * sh[1]
    if n >= 2 ** 31:
        case['dt'] = 'i8'
        rec.label('more than 2^31 cells')
    idx = gen.ints(case['seed'], case['n'], 0, n).astype(case['dt'])
    if n < 200:
        idx = np.arange(n).astype(case['dt'])
        rec.label('all')
    uv = arr(vm.idx2uv(idx, sh, jitter=case['jitter']), (len(idx), 2), 'idx2uv')
    ctr = np.stack((idx // sh[1], idx % sh[1]), -1) + .5
    j = case['rate'] / 2 if case['jitter'] else 0
    require(np.all(np.abs(uv * den - ctr) <= j + 1e-9), 'coordinate outside of its (jittered) cell',
            off=np.abs(uv * den - ctr).max(), limit=j)
    if j > .01 and len(idx) > 20:
        off = uv * den - ctr
        require(np.all(np.std(off, 0) > 0) and not np.allclose(off[:, 0], off[:, 1]), 'jitter does not vary')
    near = np.any(np.abs(np.abs(uv * den - ctr) - .5) < 1e-9, 1)
    equal(np.asarray(vm.uv2idx(uv, sh))[~near], idx[~near], 'uv2idx(idx2uv(i))')
    # any coordinate of the cell
    off = gen.noise(case['seed'] + 1, (len(idx), 2), 1e-6, 1 - 1e-6)
    equal(vm.uv2idx((ctr - .5 + off) / den, sh), idx, 'index of a coordinate')
    if case['rate'] == 0 and not case['jitter']:
        close(vm.idx2uv(idx, sh), uv, 'no jitter', atol=0)


@CHECK.sub('viewarea', d(va=views.va_all, dxyz=gen.dir1), quick=150, thorough=2000)
def viewarea(case, rec):
    """view mappers: bounding box and area of the cone"""
    va = case['va']
    vm = ViewMapper(case['dxyz'], va)
    rec.nontrivial(va != 180)
    s = va / 180
    close(vm.bbox, [[0, 0], [2, 1]] if va == 360 else [[.5 - s / 2] * 2, [.5 + s / 2] * 2], 'bounding box', atol=1e-12)
    close(vm.aspect, 2 if va == 360 else 1, 'aspect')
    close(vm.area, 2 * np.pi * (1 - np.cos(np.radians(va) / 2)), 'area of the view', rtol=1e-9)
    close(vm.viewangle, min(va, 180), 'view angle')
