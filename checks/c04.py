import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
from gen import d, fl, seeds
from raytools import translate as tr

CHECK = Check('C04', rule='cases: directions (axes, +-z, near-pole, lattice, noise), angles, axes, batches. '
              'Non-trivial: angle not a multiple of 360 / direction not exactly +z.')
angle = st.one_of(st.floats(-720, 720), st.sampled_from([0., 90., -90., 180., 360., 45.]))


def rodrigues(k, t):
    x, y, z = k
    K = np.array(((0, -z, y), (z, 0, -x), (-y, x, 0)))
    return np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K @ K


@CHECK.sub('elementary', d(t=angle, t2=angle, axis=st.sampled_from([0, 1, 2]), c=gen.dirs(50, 5),
                           rad=st.booleans(), lay=gen.layout), big=[(5, {'c.n': gen.many})], quick=800, thorough=10000)
def elementary(case, rec):
    t, axis = case['t'], case['axis']
    v = gen.mk_dirs(case['c']) * 2.5
    rec.nontrivial(t % 360 != 0)
    rec.label(f'axis {axis}')
    kw = dict(axis=axis)
    a, a2 = t, case['t2']
    if case['rad']:
        a, a2 = np.radians(t), np.radians(a2)
        kw['degrees'] = False
    m = arr(tr.rmtx_elem(a, **kw), (3, 3), 'rmtx_elem')
    ref = rodrigues(np.eye(3)[axis], np.radians(t))
    close(m, ref, 'rmtx_elem', atol=1e-10)
    r = arr(tr.rotate_elem(gen.lay(v, case['lay']), a, **kw), v.shape, 'rotate_elem')
    close(r, v @ ref.T, 'rotate_elem', atol=1e-9)
    close(tr.rotate_elem(r, a2, **kw), tr.rotate_elem(v, a + a2, **kw), 'rotations add', atol=1e-9)
    close(tr.rotate_elem(r, -a, **kw), v, 'rotation is undone', atol=1e-9)
    if axis == 2 and not case['rad']:
        close(tr.rotate_elem(v, a), r, 'default axis and unit', atol=1e-12)


@CHECK.sub('view_rotation', d(c=gen.dirs(30, 5), single=st.booleans(), keep=st.booleans(), scale=gen.logfl(1e-3, 1e3),
                              w=gen.dirs(10, 3), aslist=st.booleans()), big=[(5, {'c.n': gen.some})], quick=1000, thorough=20000)
def view_rotation(case, rec):
    v = gen.mk_dirs(case['c'])
    if case['single']:
        v = v[:1]
    n = len(v)
    src = v * case['scale']
    if case['single'] and not case['keep']:
        src = src[0]
    if case['aslist']:
        src = src.tolist()
    w = gen.mk_dirs(case['w'])
    ym, pm = tr.rmtx_yp(src, keepdims=True) if case['keep'] else tr.rmtx_yp(src)
    shp = (n, 3, 3) if case['keep'] or n > 1 else (3, 3)
    ym = arr(ym, shp, 'yaw matrices').reshape(-1, 3, 3)
    pm = arr(pm, shp, 'pitch matrices').reshape(-1, 3, 3)
    for i in range(n):
        z = np.hypot(v[i, 0], v[i, 1]) < 1e-12
        rec.label('vertical' if z else 'oblique')
        rec.nontrivial(v[i, 2] < 1)
        for m in (ym[i], pm[i]):
            close(m @ m.T, np.eye(3), 'orthonormal', atol=1e-9)
            require(abs(np.linalg.det(m) - 1) < 1e-9, 'determinant')
        R = pm[i] @ ym[i]
        h = np.hypot(v[i, 0], v[i, 1])
        tol = 1e-7 if h > 1e-5 else 2e-5
        close(R @ v[i], (0, 0, 1), 'view direction goes to +z', atol=tol)
        if z:
            if v[i, 2] > 0:
                close(ym[i], np.eye(3), 'yaw for +z')
                close(pm[i], np.eye(3), 'pitch for +z')
            else:
                close(ym[i], np.diag((-1, -1, 1)), 'yaw for -z')
                close(pm[i], np.diag((1, -1, -1)), 'pitch for -z')
        elif h > 1e-5:
            # image right = v x up, image up = right x v
            up = R @ (0, 0, 1)
            require(abs(up[0]) < 1e-7 and up[1] > 0, 'world up is not up in the view', up=up)
            right = gen.unit(np.cross(v[i], (0, 0, 1)))
            # RHS frame looking along +z with y up: x points to the left
            close(R @ right, (-1, 0, 0), 'handedness', atol=1e-7)
        close(w @ R.T @ R, w, 'rotation and transpose undo each other', atol=1e-9)


@CHECK.sub('norms', d(c=gen.dirs(200, 6), scale=gen.logfl(1e-100, 1e100), lay=gen.layout, zero=st.booleans(),
                      kind=st.sampled_from(['float', 'list', 'int'])), big=[(5, {'c.n': gen.many})], quick=400, thorough=10000)
def norms(case, rec):
    v = gen.mk_dirs(case['c'])
    s = case['scale'] * gen.noise(case['c']['seed'], (len(v), 1), .5, 2)
    rec.nontrivial()
    if case['kind'] == 'int':
        v = np.concatenate((np.array([[3, 0, 4]]), np.round(v * 50))).astype(int)
        v = v[np.any(v != 0, 1)]
        got = arr(tr.norm(gen.lay(v, case['lay'])), v.shape, 'norm')
        close(got, gen.unit(v), 'norm of integers')
        close(tr.norm1(v[0]), gen.unit(v[0]), 'norm1 of integers')
        return
    w = v * s
    src = gen.lay(w, case['lay'])
    got = arr(tr.norm(src), v.shape, 'norm')
    close(got, v, 'norm', atol=1e-12)
    one = w[0].tolist() if case['kind'] == 'list' else w[0]
    close(arr(tr.norm1(one), (3,), 'norm1'), v[0], 'norm1', atol=1e-12)
    if case['zero']:
        close(arr(tr.norm1(np.zeros(3)), (3,), 'norm1'), np.zeros(3), 'norm1 of zero')


@CHECK.sub('mirror', d(c=gen.dirs(30, 5), nrm=gen.dirs(5, 3), single=st.booleans(), len=st.sampled_from([3.0, 3.0, .5, 1.003, .997, 1e-3, 1.0003])), big=[(5, {'c.n': gen.some})], quick=400, thorough=10000)
def mirror(case, rec):
    v = gen.mk_dirs(case['c'])
    nn = gen.mk_dirs(case['nrm'])
    if case['single']:
        nn = nn[:1]
    if len(v) == 1 and len(nn) > 1:
        rec.label('one ray')
    rec.nontrivial()
    r, m = tr.reflect(v, nn)
    shape = (len(v), len(nn), 3)
    r = arr(r, None, 'reflect')
    require(r.shape == (shape[1:] if len(v) == 1 else shape), 'reflect shape', got=r.shape, want=shape)
    r = r.reshape(shape)
    m = np.asarray(m).reshape(shape[:2])
    require(np.all(m), 'reflected rays of unit vectors are not flagged as unit length')
    for j, k in enumerate(nn):
        dn = v @ k
        close(r[:, j], v - 2 * dn[:, None] * k, 'mirror image', atol=1e-10)
        close(r[:, j] @ k, -dn, 'normal component', atol=1e-9)
        back, _ = tr.reflect(np.ascontiguousarray(r[:, j]), nn[j:j + 1])
        close(np.asarray(back).reshape(-1, 3), v, 'mirroring twice', atol=1e-9)
    # only unit vectors survive masking
    scale = np.where(gen.bits(case['c']['seed'], len(v)) % np.uint64(2), 1.0, case['len'])
    r2 = arr(tr.reflect(v * scale[:, None], nn, returnmasked=True), None, 'reflect masked').reshape(-1, 3)
    close(r2, r[scale == 1].reshape(-1, 3), 'masked reflection keeps unit rays only', atol=1e-9)
