import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
from gen import d, fl, seeds
from raytools import translate as tr
from scipy.spatial import cKDTree

CHECK = Check('C05', rule='cases: base points (noise on the sphere or in a box) followed by derived points: exact '
              'duplicates, points at a fraction of the tolerance, chains of steps shorter than the tolerance, in '
              'shuffled order. Non-trivial: at least one culled and one kept besides the first.')


@CHECK.sub('cull', d(n=st.integers(1, 60), extra=st.integers(0, 120), seed=seeds,
                     kind=st.sampled_from(['sphere', 'box', 'line', 'grid']), tol=st.one_of(
                         st.just(0.0), gen.logfl(1e-4, 1.5)), big=st.booleans()), big=[(4, {'n': st.integers(200, 1200), 'tol': gen.logfl(1e-4, .2)})], quick=1200, thorough=20000)
def cull(case, rec):
    s, tol = case['seed'], case['tol']
    n = case['n'] * (8 if case['big'] else 1)
    if case['kind'] == 'sphere':
        p = gen.sphere(s, n)
    elif case['kind'] == 'box':
        p = gen.noise(s, (n, 3), -1, 1)
    elif case['kind'] == 'line':
        p = np.zeros((n, 3))
        p[:, 0] = np.arange(n) * tol * .7
    else:
        k = int(np.ceil(n ** .5))
        g = np.stack(np.meshgrid(np.arange(k), np.arange(k)), -1).reshape(-1, 2)[:n]
        p = np.concatenate((g * tol * .8, np.zeros((n, 1))), 1)
    m = case['extra']
    src = gen.ints(s + 1, (m,), 0, n)
    f = gen.noise(s + 2, (m, 1), 0, 1.6)
    f[gen.bits(s + 3, m) % np.uint64(3) == 0] = 0
    q = p[src] + f * tol * gen.sphere(s + 4, m)
    p = np.concatenate((p, q))
    p = p[np.argsort(gen.bits(s + 5, len(p)))]
    # tolerance decisions on the exact limit are not specified
    D = np.linalg.norm(p[:, None] - p[None], axis=-1)
    near = np.abs(D - tol) < 1e-9 * (1 + tol)
    if tol > 0 and np.any(near):
        p = p[~np.any(np.triu(near, 1), 0)]
        D = np.linalg.norm(p[:, None] - p[None], axis=-1)
    src = p.copy()
    mask = np.asarray(tr.cull_vectors(src, tol))
    require(mask.shape == (len(p),) and mask.dtype == bool, 'mask', shape=mask.shape, dtype=str(mask.dtype))
    equal(src, p, 'vectors are unchanged')
    kept = np.flatnonzero(mask)
    rec.nontrivial(1 < len(kept) < len(p))
    rec.label(case['kind'])
    require(len(p) == 0 or mask[0], 'the first vector is culled')
    W = D <= tol
    kk = W[np.ix_(kept, kept)] & ~np.eye(len(kept), dtype=bool)
    require(not np.any(kk), 'two kept vectors are within tolerance')
    for i in np.flatnonzero(~mask):
        require(np.any(W[i, kept[kept < i]]), 'a culled vector has no earlier kept vector within tolerance', i=int(i))
    t2 = np.asarray(tr.cull_vectors(cKDTree(p), tol))
    equal(t2, mask, 'same result for a prebuilt tree')
    require(np.all(tr.cull_vectors(p[mask], tol)), 'culling twice removes more')
