import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
import hdr
import views
from gen import d, seeds
from c24 import check_file, HDR
from raytools import imagetools

CHECK = Check('C25', rule='cases: images of 2-40 pixels side, grey or colour, noise with zeros, constant; rotation angles (zero, quarter turns, '
              'any), centre pixels, pixel pairs, both interpolations, files. Non-trivial: a rotation or centre that moves pixels.',
              assumptions=['the view is 180 degrees', 'output pixels whose scene is outside of the input image are not decided',
                           'centre pixels within 1e-4 of vertical are outside of the domain'])
#: technique: property-based testing: differential against an independent sampling of the rotated scene, exact permutations, composition

Y = np.array([0., 1, 0])


def image(case, color=None):
    res = case['res']
    sh = (3, res, res) if (case['color'] if color is None else color) else (res, res)
    k = case['kind']
    if k == 'const':
        return np.full(sh, case['seed'] % 97 / 7.)
    a = 10 ** gen.noise(case['seed'], sh, -2, 2 if k == 'noise' else 1)
    a[gen.noise(case['seed'] + 1, sh) < .1] = 0
    return gen.lay(a, case['lay'])


def sample(a, pos, nearest):
    """a (…,x,y) at continuous pixel positions (centres at .5), linear with linear extrapolation or nearest -> values, decided"""
    n = a.shape[-1]
    g = pos - .5
    clear = np.ones(g.shape[:-1], bool)
    if nearest:
        f = np.clip(g, 0, n - 1)
        clear = np.all((np.abs(f % 1 - .5) > 1e-6), -1)
        i = np.clip(np.round(f).astype(int), 0, n - 1)
        return a[..., i[..., 0], i[..., 1]], clear
    i = np.clip(np.floor(g).astype(int), 0, n - 2)
    t = g - i
    i, j, s, t = i[..., 0], i[..., 1], t[..., 0], t[..., 1]
    return ((1 - s) * (1 - t) * a[..., i, j] + s * (1 - t) * a[..., i + 1, j] +
            (1 - s) * t * a[..., i, j + 1] + s * t * a[..., i + 1, j + 1]), clear


def roll(v, deg):
    """ray to sample for an image rotated by deg about the view direction (0,1,0)"""
    c, s = np.cos(np.radians(deg)), np.sin(np.radians(deg))
    return v @ np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]]).T


def aim(v, frm, to):
    """rotation taking frm to to, both with up vertical"""
    return (v @ views.frame(frm).T) @ views.frame(to)


def decide(a, out, sdir, ok, nearest, msg, rec):
    res = a.shape[-1]
    inside = ok & (gen.ang(sdir, Y) < np.pi / 2 - 1e-9)
    want, clear = sample(np.asarray(a, float), views.dir2view(Y, sdir) * res, nearest)
    m = inside & clear
    sc = np.max(np.abs(a)) + 1e-300
    close(out[..., m] / sc, want[..., m] / sc, msg, atol=1e-7)
    return m


img = dict(res=st.one_of(st.integers(2, 40), st.integers(2, 9)), color=st.booleans(), kind=st.sampled_from(['noise', 'noise', 'noise', 'const']),
           lay=gen.layout, seed=seeds, nearest=st.sampled_from([None, True, False]))
angle = st.one_of(st.sampled_from([0, 0.0, 90, 90.0, 180, 270, -90, 360, 45, 30]), st.floats(-400, 400))


def call(case, a, ang, **kw):
    if case['nearest'] is not None:
        kw['nearest'] = case['nearest']
    keep = np.array(a)
    out = arr(imagetools.array_rotate(a, ang, **kw), a.shape, 'image')
    equal(a, keep, 'input image')
    return out


def const(case, a, out, ok, fill=None):
    if case['kind'] == 'const':
        c = np.max(a)
        close(out[..., ok], np.full(out[..., ok].shape, c), 'constant image', rtol=1e-6)


def per_channel(case, a, out, ang, **kw):
    if case['color']:
        for i in range(3):
            close(call(case, a[i], ang, **kw), out[i], 'channel alone', atol=1e-12)


@CHECK.sub('rotate', d(ang=angle, fill=st.one_of(st.sampled_from([None, None, 0., 7.5]), st.floats(-50, 50)), order=st.sampled_from([None, True, False]), **img), big=[(4, {'res': st.integers(60, 150)})], quick=700, thorough=15000)
def rotate(case, rec):
    a, ang, res = image(case), case['ang'], case['res']
    rec.nontrivial(ang % 360 != 0)
    kw = {}
    if case['order'] is not None:
        kw['rotate_first'] = case['order']
    if case['order'] is False:
        # resampled twice: pixels at the border of the grid are a matter of rounding
        case = dict(case, fill=None)
    if case['fill'] is not None:
        kw['fill_value'] = case['fill']
    rec.label('nearest' if case['nearest'] else 'linear', 'colour' if case['color'] else 'grey', 'fill' if case['fill'] is not None else 'extrapolate')
    out = call(case, a, ang, **kw)
    v, ok = views.pixel_dirs(Y, res)
    if case['fill'] is None:
        m = decide(a, out, roll(v, ang), ok, case['nearest'], 'rotated image', rec)
        const(case, a, out, ok)
    else:
        pos = views.dir2view(Y, roll(v, ang)) * res - .5
        grid = np.all((pos > 1e-6) & (pos < res - 1 - 1e-6), -1)
        decide(a, out, roll(v, ang), ok & grid, case['nearest'], 'rotated image', rec)
        beyond = np.any((pos < -1e-6) | (pos > res - 1 + 1e-6), -1) & ok
        close(out[..., beyond], np.full(out[..., beyond].shape, case['fill']), 'fill value')
        ok = ok & grid
    per_channel(case, a, out, ang, **kw)
    if ang % 90 == 0:
        rec.label('quarter turn')
        k = int(round(ang / 90)) % 4
        # the sample of pixel (x, z) is taken at R(x, z)
        want = np.rot90(a, k, axes=(-2, -1))
        one = views.dir2view(Y, roll(v, 90)) * res
        i = np.floor(one).astype(int)
        if res > 1 and res % 2 == 1 or res > 3:
            q = a
            for _ in range(k):
                q = np.asarray(q)[..., np.clip(i[..., 0], 0, res - 1), np.clip(i[..., 1], 0, res - 1)]
            sc = np.max(np.abs(a)) + 1e-300
            core = ok
            close(out[..., core] / sc, q[..., core] / sc, 'quarter turn', atol=1e-6)
            require(any(np.allclose(np.where(core, q, 0), np.where(core, r, 0)) for r in (want, np.rot90(a, -k, axes=(-2, -1)))), 'permutation')


@CHECK.sub('centre', d(cx=st.floats(0, 1), cy=st.floats(0, 1), whole=st.booleans(), ang=st.sampled_from([0, 0, 0.0]), **img), big=[(4, {'res': st.integers(60, 150)})], quick=600, thorough=12000)
def centre(case, rec):
    a, res = image(case), case['res']
    c = np.array([case['cx'], case['cy']]) * (res - 1)
    if case['whole']:
        c = np.round(c).astype(int)
    if np.hypot(*(np.asarray(c, float) - res / 2)) > res / 2 * .999:
        rec.exclude('pixel outside of the view')
        return
    dv = views.view2dir(Y, np.asarray(c, float) / res)
    if views.near_vertical(dv):
        rec.exclude('vertical')
        return
    rec.nontrivial(gen.ang(dv, Y) > .01)
    ctr = tuple(int(i) if case['whole'] else float(i) for i in c)
    if case['seed'] % 2:
        ctr = list(ctr)
    rec.label('nearest' if case['nearest'] else 'linear', 'whole' if case['whole'] else 'fraction')
    out = call(case, a, case['ang'], center=ctr)
    v, ok = views.pixel_dirs(Y, res)
    decide(a, out, aim(v, Y, dv), ok, case['nearest'], 'centred image', rec)
    const(case, a, out, ok & (gen.ang(aim(v, Y, dv), Y) < np.pi / 2))
    per_channel(case, a, out, 0, center=ctr)
    # the scene at the pixel is at the image centre
    if res % 2:
        k = res // 2
        want, clear = sample(np.asarray(a, float), np.asarray(c, float), case['nearest'])
        if clear:
            close(out[..., k, k], want, 'value at the centre', rtol=1e-6, atol=1e-6 * np.max(a))


@CHECK.sub('pair', d(p=st.lists(st.floats(0, 1), min_size=4, max_size=4), whole=st.booleans(), **img), big=[(3, {'res': st.integers(60, 150)})], quick=500, thorough=10000)
def pair(case, rec):
    a, res = image(case), case['res']
    c = np.array(case['p']) * (res - 1)
    if case['whole']:
        c = np.round(c)
    p = c.reshape(2, 2)
    if np.any(np.hypot(*(p - res / 2).T) > res / 2 * .999):
        rec.exclude('pixel outside of the view')
        return
    t = views.view2dir(Y, p / res)
    if views.near_vertical(t[0]) or views.near_vertical(t[1]):
        rec.exclude('vertical')
        return
    if np.any(np.hypot(t[:, 0], t[:, 1]) < 1e-4):
        rec.exclude('vertical')
        return
    rec.nontrivial(gen.ang(t[0], t[1]) > .01)
    ctr = tuple(int(i) if case['whole'] else float(i) for i in c)
    out = call(case, a, 0, center=ctr)
    v, ok = views.pixel_dirs(Y, res)
    decide(a, out, aim(v, t[1], t[0]), ok, case['nearest'], 'aligned image', rec)
    const(case, a, out, ok & (gen.ang(aim(v, t[1], t[0]), Y) < np.pi / 2))
    per_channel(case, a, out, 0, center=ctr)


@CHECK.sub('order', d(p=st.sampled_from([2, 2, 4]).flatmap(lambda n: st.lists(st.floats(.15, .85), min_size=n, max_size=n)), ang=angle, first=st.just(False),
                      fill=st.one_of(st.sampled_from([None, None, 0., 7.5]), st.floats(-50, 50)), **img), big=[(3, {'res': st.integers(60, 150)})], quick=300, thorough=6000)
def order(case, rec):
    """both: applied one after the other in the requested order"""
    a, res, ang = image(case), case['res'], case['ang']
    c = np.array(case['p']) * res
    dv = views.view2dir(Y, c[:2] / res)
    rec.nontrivial(ang % 360 != 0 and gen.ang(dv, Y) > .01)
    kw = {}
    if case.get('fill') is not None:
        kw['fill_value'] = case['fill']
    out = call(case, a, ang, center=tuple(c.tolist()), rotate_first=case['first'], **kw)
    rec.label(f'centre {len(c)}', 'fill' if kw else 'extrapolate')
    if not case['first']:
        two = call(case, a, 0, center=tuple(c.tolist()), **kw)
        if ang != 0:
            two = call(case, two, ang, **kw)
        close(out, two, 'centred, then rotated', atol=1e-9 * (1 + np.abs(two)))
        return
    v, ok = views.pixel_dirs(Y, res)
    # centre on where the rotation puts the pixel
    c2 = roll(dv, -ang)
    decide(a, out, roll(aim(v, Y, c2), ang), ok, case['nearest'], 'rotated, then centred', rec)


CHECK.finding('rotate-first-ignored', 'order', dict(p=[.3, .7], ang=40.0, first=True, res=12, color=False, kind='noise', lay='c', seed=3, nearest=False))


@CHECK.sub('files', d(ang=st.one_of(st.sampled_from([0, 0., 90, 45.]), st.floats(-180, 180)), ctr=st.sampled_from([0, 0, 2, 4]), p=st.lists(st.floats(.2, .8), min_size=4, max_size=4),
                      first=st.sampled_from([None, False]), out=st.sampled_from([None, None, 'named.hdr']), name=hdr.name2, extra=st.sampled_from(HDR),
                      view=st.booleans(), res=st.integers(2, 16), seed=seeds, nearest=st.sampled_from([None, True, False])), quick=50, thorough=700)
def files(case, rec):
    tmp = tempfile.mkdtemp(dir='.')
    try:
        f = os.path.join(tmp, case['name'] if '.' in case['name'] else 'plain.hdr')
        res = case['res']
        src = np.moveaxis(10 ** gen.noise(case['seed'], (res, res, 3), -2, 3), -1, 0)
        kept = [case['extra']] if case['extra'] else []
        if case['view']:
            kept.append('VIEW= -vta -vv 180 -vh 180 -vd 0 1 0 -vp 0 0 0 -vu 0 0 1')
        hdr.write(f, src, kept)
        before = open(f, 'rb').read()
        rgb = hdr.decode(f)[1]
        kw, akw = {}, {}
        if case['nearest'] is not None:
            kw['nearest'] = akw['nearest'] = case['nearest']
        first = True
        if case['first'] is not None:
            kw['rotate_first'] = akw['rotate_first'] = first = case['first']
        ang = case['ang']
        r = '' if ang == 0 else f'_r{int(ang):02d}'
        c = ''
        if ang != 0 or case['seed'] % 2:
            kw['rotate'] = ang
        if case['ctr']:
            ctr = [int(x * res) for x in case['p'][:case['ctr']]]
            kw['center'] = akw['center'] = ctr
            c = f'_{ctr[0]}-{ctr[1]}'
        rec.nontrivial(bool(r or c))
        rec.label('rotate' if r else '', f'centre {case["ctr"]}', 'default name' if case['out'] is None else 'named')
        if case['out']:
            kw['outf'] = os.path.join(tmp, case['out'])
        got = imagetools.hdr_rotate(f, **kw)
        exp = kw.get('outf', f[:f.rindex('.')] + ((r + c if first else c + r) or '_r00') + '.hdr')
        require(got == exp, 'name of the output', got=got, want=exp)
        tree = sorted(os.path.join(tmp, x) for x in os.listdir(tmp))
        require(tree == sorted({f, exp}), 'files written', tree=tree)
        require(open(f, 'rb').read() == before, 'input file changed')
        want = np.asarray(imagetools.array_rotate(rgb, ang, **akw), float)
        got = hdr.decode(exp)[1]
        require(got.shape == want.shape, 'size', got=got.shape)
        v, ok = views.pixel_dirs(Y, res)
        ok &= np.all(want >= 0, 0) & (want.max(0) > 1e-6) & (want.max(0) < 1e6)
        check_file(exp, np.where(ok, want, got), rgb, kept, rec)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
