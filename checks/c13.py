import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
import views
from gen import d, seeds
from raytools.mapper import Mapper, ViewMapper, SolidViewMapper

CHECK = Check('C13', rule='cases: view direction, view angle, sets of directions (with many next to the view edge) flat or '
              'image shaped, tolerance; images with resolution 1-24, 1-5 channels, angular/equisolid/square projection. '
              'Non-trivial: the set has rays on both sides of the edge, or the image has at least 4 pixels.',
              assumptions=['rays within 1e-7 radians of the view edge are not decided',
                           'equisolid images exist for views up to 180 degrees only'])


def edge_dirs(dv, va, n, seed):
    """directions at angles close to the view edge"""
    f = views.frame(dv)
    a = views.half(va) + 10.0 ** gen.noise(seed, n, -5, -1) * gen.noise(seed + 1, n, -1, 1)
    p = gen.noise(seed + 2, n, 0, 2 * np.pi)
    a = np.clip(a, 0, np.pi)
    return np.stack((np.sin(a) * np.cos(p), np.sin(a) * np.sin(p), np.cos(a)), -1) @ f


@CHECK.sub('rays', d(dxyz=gen.dir1, va=views.va_all, c=gen.dirs(60, 6), ne=st.integers(0, 40), seed=seeds,
                     tol=st.one_of(st.none(), st.sampled_from([0.0, .1, -.05, .01]), st.floats(-.3, .5)),
                     shape=st.sampled_from(['flat', 'image', 'image', '3d']), lay=gen.layout), big=[(5, {'c.n': gen.many})], quick=900, thorough=20000)
def rays(case, rec):
    va, dv = case['va'], gen.unit(case['dxyz'])
    vm = ViewMapper(dv, va)
    v = np.concatenate((gen.mk_dirs(case['c']), edge_dirs(dv, va, case['ne'], case['seed'])))
    v = v[np.argsort(gen.bits(case['seed'] + 9, len(v)))]
    n = len(v)
    sh = (n,)
    if case['shape'] == 'image' and n % 2 == 0:
        sh = (2, n // 2) if case['seed'] % 2 else (n // 2, 2)
    elif case['shape'] == '3d' and n % 4 == 0:
        sh = (2, n // 4, 2)
    rec.label(f'{len(sh)}-d', 'tol' if case['tol'] else 'no tol')
    kw = {} if case['tol'] is None else dict(tol=case['tol'])
    t = case['tol'] or 0
    src = gen.lay(v.reshape(*sh, 3), case['lay'])
    m = vm.in_view(src, indices=False, **kw)
    m = arr(m, (n,), 'mask')
    require(m.dtype == bool, 'mask type', dtype=m.dtype)
    a = gen.ang(v, dv)
    lim = views.half(va) + t
    clear = np.abs(a - lim) > (1e-7 if lim > .01 else 1e-5)
    if lim >= np.pi - 1e-4 or lim < .01:
        rec.exclude('view edge at a pole')
        clear &= np.abs(a - lim) > 1e-3
    equal(m[clear], (a < lim)[clear], 'in view')
    rec.nontrivial(np.any(m) and not np.all(m))
    idx = vm.in_view(src, **kw)
    require(isinstance(idx, tuple) and len(idx) == len(sh), 'indices', n=len(idx))
    m2 = np.zeros(sh, bool)
    m2[idx] = True
    equal(m2.ravel(), m, 'indices and mask')
    require(len(idx[0]) == np.sum(m), 'repeated indices')
    equal(np.asarray(src)[idx], v[m], 'rays selected by the indices, in order')
    if case['tol'] is None:
        equal(vm.in_view(src, True, 0.0)[0], idx[0], 'explicit arguments')


PROJ = ['vta', 'vta', 'a', 'A', 'Angular', 'fisheye', 'vte', 'e', 'Equi', 'vuv', 'u', 'square']


@CHECK.sub('image', d(dxyz=gen.dir1, va=views.va_all, res=st.one_of(st.integers(2, 24), st.integers(1, 24)),
                      feat=st.sampled_from([1, 1, 3, 2, 5]), proj=st.sampled_from(PROJ), cls=st.sampled_from(['view', 'view', 'solid']),
                      indices=st.booleans()), big=[(5, {'res': gen.wide})], quick=900, thorough=15000)
def image(case, rec):
    va, res, feat, proj = case['va'], case['res'], case['feat'], case['proj']
    kind = dict(v=proj[-1]).get(proj[0], proj[0].lower())
    kind = {'a': 'a', 'f': 'a', 'e': 'e'}.get(kind, 'u')
    if kind == 'e' or case['cls'] == 'solid':
        va = min(va, 180)
    if case['cls'] == 'solid' and kind == 'e':
        kind = 'a'
        proj = 'vta'
    cls = ViewMapper if case['cls'] == 'view' else SolidViewMapper
    vm = cls(case['dxyz'], va)
    a = 2 if va == 360 else 1
    rec.nontrivial(res > 1)
    rec.label(kind, f'aspect {a}', f'{feat} channels', case['cls'], 'indices' if case['indices'] else 'mask')
    kw = {}
    if feat > 1:
        kw['features'] = feat
    if proj != 'vta' or case['res'] % 2:
        kw['viewproj'] = proj
    if not case['indices']:
        kw['indices'] = False
    img, vecs, mask, mask2, header = vm.init_img(res, **kw)
    sh = (res * a, res)
    require(img.shape == ((feat,) + sh if feat > 1 else sh) and not np.any(img), 'image', shape=img.shape)
    require(img.dtype.kind == 'f', 'image type', dtype=img.dtype)
    vecs = arr(vecs, (*sh, 3), 'vectors')
    if kind == 'u':
        return
    # pixels and rays
    want = np.asarray(vm.pixelrays(res) if kind == 'a' else vm.solid_pixelrays(res))
    close(vecs, want, 'ray of each pixel', atol=1e-12)
    dirs = [vm.dxyz] if a == 1 else [vm.dxyz, -np.asarray(vm.dxyz)]
    inside = np.concatenate([vm.in_view(vecs[i * res:(i + 1) * res], indices=False).reshape(res, res) if i == 0 else
                             ViewMapper(dv, 180).in_view(vecs[i * res:(i + 1) * res], indices=False).reshape(res, res)
                             for i, dv in enumerate(dirs)])
    ang = np.concatenate([gen.ang(vecs[i * res:(i + 1) * res], dv) for i, dv in enumerate(dirs)])
    lim = views.half(va)
    clear = np.abs(ang - lim) > 1e-6
    equal(inside[clear], (ang < lim)[clear], 'pixels in view')
    if case['indices']:
        require(isinstance(mask, tuple) and len(mask) == 2, 'mask indices')
        m = np.zeros(sh, int)
        np.add.at(m, mask, 1)
        equal(m, inside.astype(int), 'mask marks exactly the pixels in view')
        if feat > 1:
            require(len(mask2) == 3, 'colour mask')
            m = np.zeros((feat, *sh), int)
            np.add.at(m, mask2, 1)
            equal(m, np.broadcast_to(inside, m.shape).astype(int), 'colour mask')
            # (pixels, channels) values assigned through the colour mask
            val = np.arange(np.sum(inside) * feat, dtype=float).reshape(-1, feat)
            img[mask2] = val.ravel()
            for i in range(feat):
                equal(img[i][mask], val[:, i], 'values through the colour mask')
        else:
            equal(np.stack(mask2), np.stack(mask), 'second mask')
    else:
        equal(np.asarray(mask).reshape(sh), inside, 'mask marks exactly the pixels in view')
        equal(np.asarray(mask2).reshape(sh), inside, 'second mask')
        equal(vecs.reshape(-1, 3)[np.ravel(mask)], vecs[inside], 'masked rays')


@CHECK.sub('planar', d(bx=st.floats(-5, 5), by=st.floats(-5, 5), w=st.floats(.1, 9), h=st.floats(.1, 9), n=st.integers(1, 60),
                       res=st.integers(8, 40), seed=seeds), big=[(4, {'n': gen.some, 'res': gen.wide})], quick=200, thorough=4000)
def planar(case, rec):
    """planar mapper: in view is inside of the unit square"""
    b, w, h = np.array([case['bx'], case['by']]), case['w'], case['h']
    rec.nontrivial()
    vm = Mapper(sf=(w, h), bbox=((b[0], b[1]), (b[0] + w, b[1] + h)))
    uv = gen.noise(case['seed'], (case['n'], 2), -.5, 1.5)
    v = np.concatenate((b + uv * [w, h], gen.noise(case['seed'] + 1, (case['n'], 1), -3, 3)), 1)
    want = np.all((uv > 0) & (uv < 1), 1)
    equal(vm.in_view(v, indices=False), want, 'in view')
    equal(vm.in_view(v)[0], np.nonzero(want)[0], 'indices in view')
    # edges belong to the view: coordinates without any rounding
    b, w, h = np.round(b), 2. ** np.round(np.log2(w)), 2. ** np.round(np.log2(h))
    em = Mapper(sf=(w, h), bbox=((b[0], b[1]), (b[0] + w, b[1] + h)))
    uv = np.array([-.25, 0, .25, .5, 1, 1, 1.25])[gen.ints(case['seed'] + 2, (case['n'], 2), 0, 7)]
    e = np.concatenate((b + uv * [w, h], gen.noise(case['seed'] + 1, (case['n'], 1), -3, 3)), 1)
    want = np.all((uv >= 0) & (uv <= 1), 1)
    equal(em.in_view(e, indices=False), want, 'in view, edges')
    equal(em.in_view(e)[0], np.nonzero(want)[0], 'indices in view, edges')
    w, h = case['w'], case['h']
    aspect = w / h
    if max(aspect, 1 / aspect) > case['res']:
        return
    img, vecs, mask, mask2, hdr = vm.init_img(case['res'])
    require(img.shape == tuple(vm.framesize(case['res'])) and not np.any(img), 'image', shape=img.shape)
