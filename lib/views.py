"""Independent reference geometry of view mappers, and strategies for them."""
import numpy as np
from hypothesis import strategies as st
import gen
from gen import unit


def near_vertical(d):
    """direction close to, but not exactly, vertical"""
    s = np.hypot(d[0], d[1]) / np.linalg.norm(d)
    return 0 < s < 1e-4


def frame(d):
    """rows x, y, z of the view frame: z = direction, y = up"""
    z = unit(d)
    if np.hypot(z[0], z[1]) < 1e-9:
        y = np.array([0., 1, 0])
        z = np.array([0, 0, np.sign(z[2])])
    else:
        y = np.array([0., 0, 1]) - z[2] * z
        y = unit(y)
    return np.stack((np.cross(y, z), y, z))


def half(va):
    """effective half view angle (radians); below 180 degrees the documented mapping is adjusted by
    the ratio of chord to arc"""
    if va == 360:
        return np.pi / 2
    h = np.radians(va) / 2
    return h * (np.sqrt(2) / (np.pi / 2)) / (2 * np.sin(h / 2) / h)


def view2dir(d, xy, va=180):
    """world direction at image positions xy in [0,1]: angle proportional to the distance from the centre"""
    p = (np.asarray(xy, float) - .5) * 2
    r = np.sqrt(np.sum(p * p, -1))
    th = r * half(va)
    s = np.where(r > 0, np.sin(th) / np.where(r > 0, r, 1), 0)
    v = np.stack((-p[..., 0] * s, p[..., 1] * s, np.cos(th)), -1)
    return v @ frame(d)


def dir2view(d, v, va=180):
    w = np.asarray(v, float) @ frame(d).T
    rho = np.hypot(w[..., 0], w[..., 1])
    th = np.arctan2(rho, w[..., 2]) / half(va)
    s = np.where(rho > 0, th / np.where(rho > 0, rho, 1), 0)
    return np.stack((-w[..., 0] * s, w[..., 1] * s), -1) / 2 + .5


def disk(uv):
    """concentric map (Shirley & Chiu 1997) of the unit square to the disk"""
    a, b = 2 * np.asarray(uv, float)[..., 0] - 1, 2 * np.asarray(uv, float)[..., 1] - 1
    horiz = np.abs(a) > np.abs(b)
    with np.errstate(all='ignore'):
        r = np.where(horiz, a, b)
        ph = np.where(horiz, np.pi / 4 * b / a, np.pi / 2 - np.pi / 4 * a / b)
    ph = np.where((a == 0) & (b == 0), 0, ph)
    return np.stack((r * np.cos(ph), r * np.sin(ph)), -1)


va180 = st.one_of(st.sampled_from([180.0, 180, 90.0, 120.0, 60]), st.floats(1.0, 180.0))
va_all = st.one_of(st.sampled_from([180.0, 360.0, 360, 180, 90.0, 60]), st.floats(1.0, 180.0))
#: view directions: anything, not within 1e-4 of (but possibly exactly) vertical
vdir = gen.dir1.filter(lambda v: not near_vertical(v))
#: any nonzero scaling of a direction
scales = st.sampled_from([1.0, 1.0, 2.5, .01, 300.0])


def inv_disk(p):
    """inverse of disk()"""
    x, y = p[..., 0], p[..., 1]
    r = np.hypot(x, y)
    horiz = np.abs(x) > np.abs(y)
    with np.errstate(all='ignore'):
        # the angle within the wedge, folded to (-pi/4, pi/4)
        a = np.where(horiz, np.sign(x) * r, np.sign(y) * r * 4 / np.pi * np.arctan(x / y))
        b = np.where(horiz, np.sign(x) * r * 4 / np.pi * np.arctan(y / x), np.sign(y) * r)
    a, b = np.where(r > 0, a, 0), np.where(r > 0, b, 0)
    return np.stack((a, b), -1) / 2 + .5


def square2dir(d, uv, va=180):
    """world direction of square coordinates (second half of a 360 degree view: u in 1..2)"""
    uv = np.asarray(uv, float)
    s = 1 if va == 360 else va / 180
    second = (uv[..., 0] > 1) & (va == 360)
    sq = np.stack((uv[..., 0] - second, uv[..., 1]), -1)
    if va != 360:
        sq = .5 - s / 2 + sq * s
    p = disk(sq)
    r2 = np.sum(p * p, -1)
    n = np.where(second, -1, 1)
    q = np.sqrt(np.maximum(2 - r2, 0))
    v = np.stack((-n * p[..., 0] * q, p[..., 1] * q, n * (1 - r2)), -1)
    return v @ frame(d)


def dir2square(d, v, va=180):
    """square coordinates of world directions (inverse of square2dir)"""
    w = np.asarray(v, float) @ frame(d).T
    n = np.where(w[..., 2] < 0, -1, 1) if va == 360 else np.ones(w.shape[:-1])
    q = np.sqrt(1 + n * w[..., 2])
    uv = inv_disk(np.stack((-n * w[..., 0] / q, w[..., 1] / q), -1))
    if va == 360:
        uv[..., 0] += n < 0
    else:
        s = va / 180
        uv = (uv - .5 + s / 2) / s
    return uv


def pixel_dirs(d, res, va=180):
    """(ratio*res, res, 3) directions of the pixel centres, and the mask of those in the view"""
    g = np.stack(np.meshgrid(np.arange(res), np.arange(res), indexing='ij'), -1) + .5
    ok = np.hypot(*np.moveaxis(g - res / 2, -1, 0)) < res / 2
    v = view2dir(d, g / res, va)
    if va == 360:
        return np.concatenate((v, view2dir(-np.asarray(d), g / res, 360))), np.concatenate((ok, ok))
    return v, ok
