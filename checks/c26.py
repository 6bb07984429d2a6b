import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
import hdr
import views
from gen import d, seeds
from c24 import check_file, HDR
from c25 import sample
from raytools import imagetools, io
from raytools.mapper import ViewMapper, SolidViewMapper

CHECK = Check('C26', rule='cases: images of 2-48 pixels side, 1-5 channels or grey, noise with zeros, smooth and constant, integer and float types, '
              'view angles 1-180, both directions and interpolations, files with and without a view. Non-trivial: at least 4 pixels wide and '
              'not constant.',
              assumptions=['below 180 degrees the equisolid image has the focal length of the 180 degree image: output pixels for '
                           'which the input circle has no value are not decided'])
#: technique: property-based testing: differential against independent sampling by the projection laws, round trip, metamorphic


def image(case):
    res, c = case['res'], case['chan']
    sh = (res, res) if c == 0 else (c, res, res)
    if case['kind'] == 'const':
        return np.full(sh, (case['seed'] % 97 + 1) / 7.)
    a = 10 ** gen.noise(case['seed'], sh, -2, 3)
    a[gen.noise(case['seed'] + 1, sh) < .1] = 0
    if case['kind'] == 'int':
        a = np.floor(a).astype(int)
    elif case['kind'] == 'f4':
        a = a.astype(np.float32)
    return gen.lay(a, case['lay'])


def law(res, va, reverse):
    """position of the input sample of each output pixel; in the output circle, in the input circle"""
    g = np.stack(np.meshgrid(np.arange(res), np.arange(res), indexing='ij'), -1) + .5 - res / 2
    out = np.hypot(g[..., 0], g[..., 1]) / (res / 2)
    h = np.radians(va) / 2
    with np.errstate(all='ignore'):
        if reverse:
            # equisolid radius out -> angle
            src = 2 * np.arcsin(np.minimum(out * h * np.sqrt(2) / np.pi, 1)) / h
        else:
            src = np.pi / np.sqrt(2) * np.sin(out * h / 2) / h
        f = np.where(out > 0, src / out, 1)
    return g * f[..., None] + res / 2, out, src


img = dict(res=st.one_of(st.integers(2, 48), st.integers(2, 9)), chan=st.sampled_from([0, 0, 3, 3, 1, 2, 5]), lay=gen.layout, seed=seeds,
           kind=st.sampled_from(['noise', 'noise', 'noise', 'const', 'int', 'f4']), va=st.one_of(st.just(180), st.just(180.), views.va180),
           nearest=st.sampled_from([None, True, False]), reverse=st.sampled_from([None, True, False]))


def call(case, a):
    kw = {}
    if case['nearest'] is not None:
        kw['nearest'] = case['nearest']
    if case['reverse'] is not None:
        kw['reverse'] = case['reverse']
    if case['va'] != 180 or case['seed'] % 2:
        kw['viewangle'] = case['va']
    keep = np.array(a)
    if case['seed'] % 3:
        out, vm = imagetools.array_solid2ang(a, **kw)
        cls = SolidViewMapper if case['reverse'] else ViewMapper
        require(type(vm) is cls, 'mapper of the output', got=type(vm))
        close(vm.viewangle, case['va'], 'view angle of the output')
        close(vm.dxyz, (0, 1, 0), 'direction of the output')
    else:
        out = imagetools.array_solid2ang(a, returnvm=False, **kw)
    equal(a, keep, 'input image')
    return arr(out, a.shape, 'image')


@CHECK.sub('array', d(**img), big=[(5, {'res': st.integers(60, 200)})], quick=900, thorough=20000)
def array(case, rec):
    a, res = image(case), case['res']
    rec.nontrivial(res > 3 and case['kind'] != 'const')
    rec.label('reverse' if case['reverse'] else 'forward', 'nearest' if case['nearest'] else 'linear', f'{case["chan"]} channels', case['kind'],
              '180' if case['va'] == 180 else '<180')
    out = call(case, a)
    pos, ro, ri = law(res, case['va'], case['reverse'])
    want, clear = sample(np.asarray(a, float), pos, case['nearest'])
    if case['va'] == 180:
        require(np.all((ri < 1 + 1e-9)[ro <= 1]), 'reference law')
    m = (ro < 1 - 1e-9) & (ri < 1 - 1e-9) & clear
    sc = np.max(np.abs(a)) + 1e-300
    close(out[..., m] / sc, want[..., m] / sc, 'pixel values', atol=1e-5 if case['kind'] == 'f4' or case['va'] < 30 else 1e-6)
    o = ro > 1 + 1e-9
    equal(out[..., o], np.zeros_like(out[..., o]), 'pixels outside of the circle')
    if case['kind'] == 'const':
        close(out[..., m], np.full(out[..., m].shape, np.max(a)), 'constant image', rtol=1e-6)
    if case['chan'] and case['kind'] != 'f4':
        for i in range(case['chan']):
            close(call(case, a[i]), out[i], 'channel alone', atol=1e-12)


@CHECK.sub('trip', d(a=st.floats(-2, 2), b=st.floats(-2, 2), res=st.integers(12, 60), nearest=st.booleans(), first=st.booleans()), quick=150, thorough=3000)
def trip(case, rec):
    res = case['res']
    x = (np.arange(res) + .5) / res
    src = case['a'] * x[:, None] + case['b'] * x[None, :] + 5
    slope = abs(case['a']) + abs(case['b'])
    rec.nontrivial(slope > .1)
    kw = dict(nearest=case['nearest'], returnvm=False)
    one = imagetools.array_solid2ang(src, reverse=case['first'], **kw)
    back = arr(imagetools.array_solid2ang(one, reverse=not case['first'], **kw), src.shape, 'image')
    g = np.hypot(x[:, None] - .5, x[None, :] - .5)
    ok = g < .5 - 3 / res
    lim = 2.5 * slope / res if case['nearest'] else .5 * slope / res
    require(np.all(np.abs(back - src)[ok] <= lim + 1e-6), 'there and back', off=np.abs(back - src)[ok].max(), limit=lim)


@CHECK.sub('files', d(reverse=st.sampled_from([None, True, False]), nearest=st.sampled_from([None, True, False]), override=st.one_of(st.none(), st.none(), views.va180),
                      view=st.one_of(st.none(), views.va180), dxyz=views.vdir, pt=st.lists(st.sampled_from([0., 1.5, -2.25, 100.]), min_size=3, max_size=3),
                      out=st.sampled_from([None, None, 'named.hdr']), name=hdr.name2, extra=st.sampled_from(HDR), res=st.integers(2, 16), seed=seeds), quick=60, thorough=900)
def files(case, rec):
    tmp = tempfile.mkdtemp(dir='.')
    try:
        f = os.path.join(tmp, case['name'] if '.' in case['name'] else 'plain.hdr')
        res = case['res']
        src = np.moveaxis(10 ** gen.noise(case['seed'], (res, res, 3), -2, 3), -1, 0)
        kept = [case['extra']] if case['extra'] else []
        va, dv, pt = 180, np.array([0, 1., 0]), [0, 0, 0]
        if case['view'] is not None:
            va, dv, pt = case['view'], gen.unit(case['dxyz']), case['pt']
            kept.append('VIEW= -vta -vv {0!r} -vh {0!r} -vd {1!r} {2!r} {3!r} -vp {4!r} {5!r} {6!r}'.format(float(va), *map(float, dv), *map(float, pt)))
        hdr.write(f, src, kept)
        before = open(f, 'rb').read()
        rgb = hdr.decode(f)[1]
        kw = {k: case[k] for k in ('reverse', 'nearest') if case[k] is not None}
        if case['override'] is not None:
            kw['viewangle'] = va = case['override']
        rec.nontrivial(case['view'] is not None)
        rec.label('reverse' if case['reverse'] else 'forward', 'view' if case['view'] else 'no view', 'override' if case['override'] else '')
        if case['out']:
            kw['outf'] = os.path.join(tmp, case['out'])
        got = imagetools.hdr_solid2ang(f, **kw)
        exp = kw.get('outf', f[:f.rindex('.')] + ('_2vts.hdr' if case['reverse'] else '_2vta.hdr'))
        require(got == exp, 'name of the output', got=got, want=exp)
        require(open(f, 'rb').read() == before, 'input file changed')
        tree = sorted(os.path.join(tmp, x) for x in os.listdir(tmp))
        require(tree == sorted({f, exp}), 'files written', tree=tree)
        pos, ro, ri = law(res, va, case['reverse'])
        want, clear = sample(rgb, pos, case['nearest'])
        got = hdr.decode(exp)[1]
        require(got.shape == want.shape, 'size', got=got.shape)
        ok = clear & (ro < 1 - 1e-9) & (ri < 1 - 1e-9) & np.all(want >= 0, 0) & (want.max(0) > 1e-6) & (want.max(0) < 1e6)
        want = np.where(ok, want, got)
        want[:, ro > 1] = 0
        check_file(exp, want, rgb, kept[:1] if case['extra'] else [], rec)
        vm, p = imagetools.hdr2vm(exp, vpt=True)
        require(vm is not None, 'no view in the output')
        close(vm.viewangle, va, 'view angle in the output header', rtol=1e-6)
        close(vm.dxyz, dv, 'view direction in the output header', atol=1e-6)
        close(p, pt, 'view point in the output header')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
