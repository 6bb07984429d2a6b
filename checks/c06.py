import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr, raises
import gen
from gen import d, fl, seeds
from raytools import translate as tr

CHECK = Check('C06', rule='cases: array shape of 1-3 dimensions, whole-number factor per axis (1-130), hash-noise '
              'content. Non-trivial: some factor > 1.')
factor = st.one_of(st.integers(1, 5), st.sampled_from([1, 2, 3, 7, 10, 16, 93, 99, 105, 117, 123]), st.integers(1, 130))


def fit(dims, fac, limit=300000):
    """bound the size of the big array by lowering factors"""
    fac = list(fac)
    while np.prod([a * b for a, b in zip(dims, fac)]) > limit:
        fac[int(np.argmax(fac))] //= 2
    return tuple(max(1, f) for f in fac)


def content(case, dims, lo=-5):
    if case['ints']:
        return gen.ints(case['seed'], dims, lo, 6)
    return gen.noise(case['seed'], dims, lo, 5)


def up(a, f):
    return np.kron(a, np.ones(f))


shapes = st.lists(st.tuples(st.integers(1, 12), factor), min_size=1, max_size=3)


@CHECK.sub('updown', d(s=shapes, seed=seeds, lay=gen.layout, const=st.booleans(), ints=st.sampled_from([False, False, True])), big=[(4, {'s': st.lists(st.tuples(st.integers(20, 60), st.integers(1, 4)).map(list), min_size=2, max_size=2)})], quick=500, thorough=10000)
def updown(case, rec):
    dims = tuple(a for a, _ in case['s'])
    fac = fit(dims, [b for _, b in case['s']])
    a = content(case, dims)
    if case['const']:
        a[:] = a.flat[0]
    big = tuple(x * y for x, y in zip(dims, fac))
    rec.nontrivial(np.prod(fac) > 1)
    rec.label(f'{len(dims)}d', 'large factor' if max(fac) > 64 else 'small factor')
    src = gen.lay(a, case['lay'])
    u = arr(tr.resample(src, big, gauss=False), big, 'upsampled')
    equal(u, up(a, fac), 'upsampling repeats samples')
    w = arr(tr.resample(gen.lay(u, case['lay']), dims), dims, 'downsampled')
    close(w, a, 'down after up', atol=1e-10)
    if case['const'] and np.prod(fac) > 1:
        close(arr(tr.resample(src, big), big, 'upsampled'), np.full(big, a.flat[0]), 'smooth upsampling of a constant',
              atol=1e-9)


@CHECK.sub('blockmean', d(s=shapes, seed=seeds, lay=gen.layout, gauss=st.booleans(), ints=st.booleans()),
           big=[(4, {'s': st.lists(st.tuples(st.integers(20, 60), st.integers(1, 4)).map(list), min_size=2, max_size=2)})], quick=500, thorough=10000)
def blockmean(case, rec):
    dims = tuple(a for a, _ in case['s'])
    fac = fit(dims, [b for _, b in case['s']])
    big = tuple(x * y for x, y in zip(dims, fac))
    a = content(case, big)
    rec.nontrivial(np.prod(fac) > 1)
    rec.label('integers' if case['ints'] else 'floats')
    w = arr(tr.resample(gen.lay(a, case['lay']), dims, gauss=case['gauss']), dims, 'downsampled')
    r = a
    for i, f in enumerate(fac):
        r = np.moveaxis(np.moveaxis(r, i, -1).reshape(*np.moveaxis(r, i, -1).shape[:-1], -1, f).mean(-1), -1, i)
    close(w, r, 'downsampling returns block means', atol=1e-9)


def gaussian(a, sigmas):
    """gaussian of the array reflected at its borders, cut at four sigma"""
    for ax, sg in enumerate(sigmas):
        if sg <= 1e-15:
            continue
        n = int(4 * sg + .5)
        w = np.exp(-.5 * (np.arange(-n, n + 1) / sg) ** 2)
        w = w / w.sum()
        m = a.shape[ax]
        i = np.arange(-n, m + n) % (2 * m)
        i = np.where(i < m, i, 2 * m - 1 - i)
        e = np.take(a, i, ax)
        a = sum(w[k] * np.take(e, np.arange(k, k + m), ax) for k in range(2 * n + 1))
    return a


@CHECK.sub('smooth', d(s=st.one_of(st.lists(st.tuples(st.integers(3, 12), st.integers(1, 4)), min_size=1, max_size=3), st.lists(st.tuples(st.integers(3, 12), st.integers(1, 12)), min_size=1, max_size=2)), seed=seeds,
                       radius=st.one_of(st.none(), st.floats(0.3, 3)), box=st.integers(1, 5), ints=st.sampled_from([False, False, True])), quick=200, thorough=4000)
def smooth(case, rec):
    """smoothing preserves the sum (reflected borders), range, and shape"""
    dims = tuple(a for a, _ in case['s'])
    fac = tuple(b for _, b in case['s'])
    big = tuple(x * y for x, y in zip(dims, fac))
    a = content(case, dims, 0)
    rec.nontrivial(np.prod(fac) > 1 or case['radius'] is not None)
    r = case['radius']
    same = np.prod(fac) == 1
    rec.label('filter only' if same else 'upsample')
    w = arr(tr.resample(a, None if same else big, radius=r), big, 'smoothed')
    close(np.mean(w), np.mean(a), 'mean is preserved', rtol=1e-6)
    require(w.min() >= a.min() - 1e-9 and w.max() <= a.max() + 1e-9, 'range of the smoothed array')
    if same and r is None:
        equal(w, a, 'nothing to do')
    if same and r is not None:
        b = arr(tr.resample(a, gauss=False, radius=1.2), dims, 'box of one sample')
        close(b, a, 'box filter of size 1', atol=1e-12)
    if not same:
        # the filter acts on the repeated samples, by default with the scale less one along each axis
        rep = np.asarray(tr.resample(a, big, gauss=False), float)
        equal(rep, up(a, fac), 'upsampling repeats samples')
        for rr in (r, 0, 0.0, 1.5):
            k = tuple(f - 1 for f in fac) if rr is None else (rr,) * len(fac)
            close(arr(tr.resample(a, big, radius=rr), big, 'smoothed'), gaussian(rep, k), 'gaussian of the repeated samples', atol=1e-4)
    if same:
        # the shape of the array itself is no change of shape
        for g in (True, False):
            rr = case['box'] if not g and r is not None else r
            close(arr(tr.resample(a, dims, gauss=g, radius=rr), dims, 'same shape'), tr.resample(a, gauss=g, radius=rr),
                  'the shape of the array itself', atol=1e-12)
        if r is not None:
            k = case['box']
            b = arr(tr.resample(a, dims, gauss=False, radius=float(k)), dims, 'box')
            ref = np.asarray(a, float)
            for ax in range(len(dims)):
                p = [(k // 2, k - 1 - k // 2) if x == ax else (0, 0) for x in range(len(dims))]
                e = np.pad(ref, p, mode='symmetric')
                ref = sum(np.take(e, np.arange(x, x + dims[ax]), ax) for x in range(k)) / k
            close(b, ref, 'mean of a box', atol=1e-6)


ix = st.one_of(st.none(), st.integers(0, 3), st.lists(st.integers(-4, 3), min_size=1, max_size=4),
               # several axes are taken as one
               st.lists(st.lists(st.integers(-4, 3), min_size=2, max_size=2), min_size=1, max_size=3),
               st.tuples(st.one_of(st.none(), st.integers(-5, 5)), st.one_of(st.none(), st.integers(-5, 5)),
                         st.sampled_from([None, 1, 2, -1])).map(lambda t: {'slice': list(t)}))


@CHECK.sub('take', d(dims=st.lists(st.integers(4, 6), min_size=1, max_size=4), ix=st.lists(ix, min_size=1, max_size=4),
                     axes=st.one_of(st.none(), st.permutations([0, 1, 2, 3])), kind=st.sampled_from(
                         ['list', 'tuple', 'array'])), quick=600, thorough=10000)
def take(case, rec):
    dims = case['dims']
    a = np.arange(np.prod(dims)).reshape(dims)
    sl = case['ix'][:len(dims)]
    axes = None
    order = list(range(len(sl)))
    if case['axes'] is not None:
        order = [i for i in case['axes'] if i < len(dims)][:len(sl)]
        sl = sl[:len(order)]
        axes = order if len(order) > 1 or case['kind'] != 'tuple' else order[0]
        rec.label('axes given')
    full = [np.arange(n) for n in dims]
    args = []
    for i, k in zip(sl, order):
        if isinstance(i, dict):
            i = slice(*i['slice'])
            full[k] = full[k][i]
        elif i is not None:
            full[k] = full[k][np.ravel(i)]
            if isinstance(i, list):
                i = dict(list=list, tuple=tuple, array=np.array)[case['kind']](i)
        args.append(i)
    rec.nontrivial(any(i is not None for i in args))
    got = np.asarray(tr.simple_take(a, *args, axes=axes))
    for k, n in enumerate(dims[:len(sl)] if axes is None else []):
        # an index outside of the axis is an error, like in plain indexing
        for j in (n, -n - 1, [0, n + 3]):
            raises(IndexError, lambda: tr.simple_take(a, *[None] * k, j), 'an index outside of the axis')
    equal(got, a[np.ix_(*full)] if all(len(f) for f in full) else a[np.ix_(*[f.astype(int) for f in full])],
          'simple_take')
