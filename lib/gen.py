"""Strategies for json cases and the pure functions that expand them."""
import numpy as np
import pbt  # noqa: F401  (sets sys.path)
from hypothesis import strategies as st

M64 = (1 << 64) - 1


# --------------------------------------------------- pure pseudo-noise (hash)
def bits(seed, n):
    """n uint64 hash values of (seed, index): splitmix64"""
    with np.errstate(over='ignore'):
        z = (np.arange(n, dtype=np.uint64) + np.uint64(1)) * np.uint64(0x9E3779B97F4A7C15)
        z += np.uint64((seed * 0xD1342543DE82EF95 + 0x2545F4914F6CDD1D) & M64)
        z = (z ^ (z >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
        z = (z ^ (z >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
        return z ^ (z >> np.uint64(31))


def noise(seed, shape, lo=0.0, hi=1.0):
    """uniform [lo,hi) noise, a pure function of seed and shape"""
    n = int(np.prod(shape))
    u = (bits(seed, n) >> np.uint64(11)).astype(float) * 2.0 ** -53
    return (lo + u * (hi - lo)).reshape(shape)


def ints(seed, shape, lo, hi):
    """uniform integers lo..hi-1"""
    return np.minimum(np.floor(noise(seed, shape, lo, hi)), hi - 1).astype(int)


def normal(seed, shape):
    n = int(np.prod(shape))
    a = noise(seed * 2 + 1, n)
    b = noise(seed * 2 + 2, n)
    return (np.sqrt(-2 * np.log(1 - a)) * np.cos(2 * np.pi * b)).reshape(shape)


def unit(v):
    v = np.asarray(v, float)
    return v / np.sqrt(np.sum(v * v, axis=-1, keepdims=True))


def sphere(seed, n):
    """n directions uniform on the sphere"""
    z = noise(seed * 2 + 1, n, -1, 1)
    p = noise(seed * 2 + 2, n, 0, 2 * np.pi)
    r = np.sqrt(1 - z * z)
    return unit(np.stack((r * np.cos(p), r * np.sin(p), z), -1))


def ang(a, b):
    """angle between vectors (accurate for small and near-pi angles)"""
    a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
    return np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1), np.sum(a * b, -1))


# ------------------------------------------------------------------ strategies
seeds = st.integers(0, 2 ** 31 - 1)


def fl(lo, hi, special=()):
    """finite floats of [lo,hi], boundary and special values boosted"""
    base = st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)
    sp = [float(s) for s in (lo, hi, *special)]
    return st.one_of(base, base, st.sampled_from(sp))


def logfl(lo, hi):
    """floats spread over the decades of [lo,hi]"""
    a, b = np.log10(lo), np.log10(hi)
    return st.floats(float(a), float(b)).map(lambda e: float(10.0 ** e))


def d(**kw):
    """fixed-key dictionary strategy"""
    return st.fixed_dictionaries(kw)


AXES = [[1.0, 0.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, -1.0, 0.0],
        [0.0, 0.0, 1.0], [0.0, 0.0, -1.0]]
_lattice = st.tuples(*[st.integers(-3, 3)] * 3).map(
    lambda t: [float(x) for x in t] if any(t) else [0.0, 0.0, 1.0])


def _tp(t):
    th, ph = t
    return [float(np.sin(th) * np.cos(ph)), float(np.sin(th) * np.sin(ph)), float(np.cos(th))]


_angles = st.tuples(st.floats(0, 3.141592653589793), st.floats(-6.3, 6.3)).map(_tp)


def _near(t):
    ax, e, i, s = t
    v = list(ax)
    v[i] += s * 10.0 ** -e
    return v


_near_axis = st.tuples(st.sampled_from(AXES), st.integers(1, 6), st.integers(0, 2),
                       st.sampled_from([1, -1])).map(_near)
#: one raw (not necessarily unit) direction
dir1 = st.one_of(_angles, _lattice, st.sampled_from(AXES), _near_axis)


def dirs(max_noise=200, max_list=6, min_total=1):
    """case for an (N,3) array of directions"""
    return d(v=st.lists(dir1, min_size=min_total, max_size=max(max_list, min_total)),
             n=st.one_of(st.just(0), st.integers(0, max_noise)), seed=seeds)


def mk_dirs(c):
    v = np.array(c['v'], float).reshape(-1, 3)
    return unit(np.concatenate((v, sphere(c['seed'], c['n'])), 0))


LAYOUTS = ['c', 'f', 'strided', 'reversed', 'readonly']
layout = st.sampled_from(LAYOUTS)


def lay(a, kind):
    """same values, other memory layout"""
    a = np.ascontiguousarray(a)
    if kind == 'f':
        return np.asfortranarray(a)
    if kind == 'strided':
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if kind == 'reversed':
        return np.ascontiguousarray(a[::-1])[::-1]
    if kind == 'readonly':
        a = a.copy()
        a.flags.writeable = False
    return a


#: view angles: everything in (0,180] plus 360; degenerate tiny views avoided
viewangles = st.one_of(st.sampled_from([180.0, 180, 360.0, 360, 90.0, 120.0, 60]),
                       st.floats(1.0, 180.0))
viewangles180 = st.one_of(st.sampled_from([180.0, 180, 90.0, 120.0, 60]), st.floats(1.0, 180.0))


#: luminance coefficients of the bundled Radiance (pvalue -b), measured once by least squares
RADLUM = np.array([0.26510582, 0.67010581, 0.06478836])


#: sizes for a few cases of each run (the `big` argument of Check.sub)
many = st.one_of(st.sampled_from([1001, 1025, 4097, 10001, 65537, 70000]), st.integers(300, 70000))
some = st.one_of(st.sampled_from([1001, 1025, 2049, 4097]), st.integers(300, 5000))
wide = st.one_of(st.sampled_from([100, 128, 129, 255, 256, 257, 300]), st.integers(60, 300))
