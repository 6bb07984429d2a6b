import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, arr, fail
import gen
from gen import d, fl, seeds
from raytools import translate as tr

CHECK = Check('C01', rule='cases: coordinate/direction sets from explicit special values (edges, diagonals, '
              'centre, axes, lattice and near-axis directions) plus hash noise, with axis order, flip and layout. '
              'Non-trivial: the set contains a special value or more than 8 generic ones.')

AX = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]
axes = st.sampled_from(AX)
GRID = [0.0, 0.25, 0.5, 0.75, 1.0, 1e-9, 1 - 1e-9, 0.5 + 1e-9, 0.5 - 1e-9, 1e-3]
coord = st.one_of(st.floats(0, 1), st.sampled_from(GRID))
diag = coord.map(lambda a: (a, a))
adiag = coord.map(lambda a: (a, 1 - a))
pt = st.one_of(st.tuples(coord, coord), diag, adiag)
pts = d(p=st.lists(pt, max_size=8), h=st.lists(st.booleans(), min_size=8, max_size=8),
        n=st.one_of(st.just(0), st.integers(0, 300), st.integers(0, 20000)), seed=seeds)


def mk_uv(c, sphere=True):
    p = np.array(c['p'], float).reshape(-1, 2)
    g = gen.noise(c['seed'], (c['n'], 2))
    if sphere:
        # second square: (1,2], coordinates on u=1 belong to the first
        p = p.copy()
        h = np.array(c['h'][:len(p)], float).reshape(-1)
        p[:, 0] += h * (p[:, 0] > 0)
        g[:, 0] *= 2
    return np.concatenate((p, g), 0)


def ref_disk(uv):
    """Shirley-Chiu concentric map, written per point from the four triangle
    regions (independent of the two-branch form)"""
    out = np.zeros((len(uv), 2))
    for i, (u, v) in enumerate(uv):
        a, b = 2 * u - 1, 2 * v - 1
        if a > -b:
            if a > b:
                r, phi = a, (np.pi / 4) * (b / a)
            else:
                r, phi = b, (np.pi / 4) * (2 - a / b)
        else:
            if a < b:
                r, phi = -a, (np.pi / 4) * (4 + b / a)
            else:
                r = -b
                phi = (np.pi / 4) * (6 - a / b) if b != 0 else 0
        out[i] = r * np.cos(phi), r * np.sin(phi)
    return out


def nt(c, rec):
    rec.nontrivial(c['n'] > 8 or len(c.get('p', c.get('v', []))) > 0)
    if c['n'] > 2000:
        rec.label('large')
    if c['n'] == 0:
        rec.label('explicit-only')


@CHECK.sub('uv_xyz', d(c=pts, axes=axes, xsign=st.sampled_from([1, -1]), lay=gen.layout, f32=st.booleans()),
           big=[(6, {'c.n': gen.many})], quick=500, thorough=20000)
def uv_xyz(case, rec):
    """unit norm, hemisphere, reference map, return trip"""
    uv = mk_uv(case['c'])
    if len(uv) == 0:
        return
    if case['f32']:
        uv = uv.astype(np.float32)
        # keep points on their side of the seam
    nt(case['c'], rec)
    ax = tuple(case['axes'])
    xs = case['xsign']
    rec.label(f'xsign={xs}')
    src = gen.lay(uv, case['lay'])
    if (ax, xs) == ((0, 1, 2), 1):
        xyz = tr.uv2xyz(src)
    else:
        xyz = tr.uv2xyz(src, axes=ax, xsign=xs)
    xyz = arr(xyz, (len(uv), 3), 'uv2xyz')
    uv = np.asarray(uv, float)
    t = 1e-6 if case['f32'] else 1e-11
    close(np.linalg.norm(xyz, axis=1), np.ones(len(uv)), 'norm of uv2xyz', atol=t)
    second = uv[:, 0] > 1
    z = xyz[:, ax[2]]
    require(np.all(z[~second] >= -t) and np.all(z[second] <= t), 'hemisphere of uv2xyz')
    sq = np.stack((np.where(second, uv[:, 0] - 1, uv[:, 0]), uv[:, 1]), 1)
    k = slice(None, None, max(1, len(uv) // 300))
    disk = ref_disk(sq[k])
    r2 = np.sum(disk ** 2, 1)
    s = np.where(second[k], -1.0, 1.0)
    f = np.sqrt(np.maximum(0, 2 - r2))
    ref = np.zeros((len(disk), 3))
    ref[:, ax[0]] = xs * s * disk[:, 0] * f
    ref[:, ax[1]] = disk[:, 1] * f
    ref[:, ax[2]] = s * (1 - r2)
    close(xyz[k], ref, 'uv2xyz reference', atol=max(t, 1e-10))
    # return trip, away from the border of the squares (shared by both) and
    # from the triangle centre where the angle is undefined
    back = arr(tr.xyz2uv(xyz, axes=ax, flipu=(xs == -1)), (len(uv), 2), 'xyz2uv')
    m = np.max(np.abs(2 * sq - 1), 1)
    inside = (m < 1 - 1e-6)
    # the unflipped pair is an inverse on the positive hemisphere, the flipped
    # pair on the whole sphere
    close(back[inside, 0] > 1, second[inside], 'xyz2uv changes the square', atol=0, rtol=0)
    inside &= ~second | (xs == -1)
    close(back[inside], uv[inside], 'xyz2uv(uv2xyz(uv))', atol=2e-3 if case['f32'] else 1e-7, rtol=0)


@CHECK.sub('xyz_uv', d(c=gen.dirs(2000, 8), axes=axes, flipu=st.booleans(), lay=gen.layout,
                       scale=st.one_of(st.none(), gen.logfl(1e-6, 1e6)), unit=st.sampled_from([0, 0, .2, .8]), single=st.booleans()),
           big=[(6, {'c.n': gen.many})], quick=500, thorough=20000)
def xyz_uv(case, rec):
    v = gen.mk_dirs(case['c'])
    nt(case['c'], rec)
    ax = tuple(case['axes'])
    if case['single']:
        v = v[:1]
    src = v
    kw = {}
    if case['scale'] is not None:
        rec.label('unnormalised')
        k = case['scale'] * gen.noise(case['c']['seed'], (len(v), 1), .5, 2)
        # some (or the first) are unit vectors already
        k[gen.noise(case['c']['seed'] + 3, len(v)) < case['unit']] = 1
        if case['unit']:
            k[0] = 1
        src = v * k
        kw['normalize'] = True
    src = gen.lay(src, case['lay'])
    if case['single']:
        rec.label('flat vector')
        src = src[0]
    uv = arr(tr.xyz2uv(src, axes=ax, flipu=case['flipu'], **kw), (len(v), 2), 'xyz2uv')
    require(np.all((uv >= -1e-12) & (uv <= [[2 + 1e-12, 1 + 1e-12]])), 'uv outside [0,2]x[0,1]', uv=uv)
    n = v[:, ax[2]]
    up = n > 1e-12
    dn = n < -1e-12
    require(np.all(uv[up, 0] <= 1 + 1e-12) and np.all(uv[dn, 0] >= 1 - 1e-12), 'square of hemisphere')
    back = tr.uv2xyz(uv, axes=ax, xsign=-1 if case['flipu'] else 1)
    # on the equator the two squares touch; both descriptions must agree in
    # the direction they denote except that u=1 of the second square belongs
    # to the first one
    ok = np.abs(n) > 1e-12
    rec.label('on equator' if np.any(~ok) else 'off equator')
    rec.label(f'flipu={case["flipu"]}')
    if case['flipu']:
        close(back[ok], v[ok], 'uv2xyz(xyz2uv(v))', atol=1e-7)
    else:
        close(back[up], v[up], 'uv2xyz(xyz2uv(v)), positive hemisphere', atol=1e-7)
    # the flip mirrors the positive square only
    other = tr.xyz2uv(v, axes=ax, flipu=not case['flipu'])
    close(other[up], np.stack((1 - uv[up, 0], uv[up, 1]), 1), 'flipu mirrors u', atol=1e-9)
    close(other[dn], uv[dn], 'flipu keeps the second square', atol=1e-9)


@CHECK.sub('area', d(k=st.integers(1, 6), i=st.integers(0, 10 ** 6), axes=axes, xsign=st.sampled_from([1, -1]),
                     m=st.sampled_from([24, 32, 48])), quick=250, thorough=4000)
def area(case, rec):
    """solid angle of an aligned cell = 2 pi times its area; disk likewise"""
    side = 2 ** case['k']
    i = case['i'] % (2 * side * side)
    j = i % side
    i = i // side
    rec.nontrivial(True)
    rec.label(f'side {side}')
    m = case['m']
    ax = tuple(case['axes'])

    def polygon(n):
        t = np.linspace(0, 1, n + 1)[:-1]
        o = np.zeros_like(t)
        e = np.concatenate([np.stack((t, o), 1), np.stack((o + 1, t), 1),
                            np.stack((1 - t, o + 1), 1), np.stack((o, 1 - t), 1)])
        uv = (e + (i, j)) / side
        if i >= side:
            # stay in the second square on its left border
            uv[:, 0] = np.maximum(uv[:, 0], 1 + 1e-13)
        return uv

    def solid(xyz):
        # fan of spherical triangles (Van Oosterom-Strackee), signed
        c = gen.unit(np.mean(xyz, 0))
        a, b = xyz, np.roll(xyz, -1, 0)
        num = np.einsum('i,ji->j', c, np.cross(a, b))
        den = 1 + a @ c + b @ c + np.sum(a * b, 1)
        return abs(np.sum(2 * np.arctan2(num, den)))

    got = []
    for n in (m, 2 * m):
        got.append(solid(arr(tr.uv2xyz(polygon(n), axes=ax, xsign=case['xsign']), (4 * n, 3), 'uv2xyz')))
    # Richardson extrapolation of the O(1/n^2) polygon error
    a = (4 * got[1] - got[0]) / 3
    close(a, 2 * np.pi / side ** 2, 'solid angle of a cell', rtol=2e-4, atol=0)
    got = []
    for n in (m, 2 * m):
        xy = arr(tr.uv2xy(polygon(n) - ([[1, 0]] if i >= side else 0)), (4 * n, 2), 'uv2xy')
        x, y = xy.T
        got.append(abs(np.sum(x * np.roll(y, -1) - y * np.roll(x, -1))) / 2)
    a = (4 * got[1] - got[0]) / 3
    close(a, np.pi / side ** 2, 'disk area of a cell', rtol=2e-4, atol=0)


@CHECK.sub('disk', d(c=pts, lay=gen.layout), big=[(5, {'c.n': gen.many})], quick=300, thorough=10000)
def disk(case, rec):
    """uv2xy is the concentric map to the unit disk (u>1: mirrored in x)"""
    uv = mk_uv(case['c'])
    if len(uv) == 0:
        return
    nt(case['c'], rec)
    k = slice(None, None, max(1, len(uv) // 400))
    uv = uv[k]
    xy = arr(tr.uv2xy(gen.lay(uv, case['lay'])), (len(uv), 2), 'uv2xy')
    second = uv[:, 0] > 1
    ref = ref_disk(np.stack((uv[:, 0] - second, uv[:, 1]), 1))
    ref[second, 0] *= -1
    close(xy, ref, 'uv2xy', atol=1e-10)
    m = np.max(np.abs(2 * (uv - np.stack((second, 0 * second), 1)) - 1), 1)
    close(np.linalg.norm(xy, axis=1), m, 'disk radius', atol=1e-10)
