import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, raises
import gen
import hdr
import views
from gen import d, seeds
from raytools import imagetools, io
from raytools.mapper import ViewMapper

CHECK = Check('C27', rule='cases: headers and view files with 0-4 fisheye views and views of other types between other lines, options in any order, '
              'left out options, several number formats, rvu command lines, nested and wrapped headers, any size and pixel order, broken files. '
              'Non-trivial: at least two views or a left out or reordered option.',
              assumptions=['the view type is the first option of a view, as Radiance writes it', 'views have a -vh option',
                           'the horizontal view angle of an image that is not square is scaled by its width over its height'])
#: technique: property-based testing: model of the header written by the generator, round trip, error injection

num = st.one_of(st.floats(-100, 100), st.sampled_from([0., 1., -2.5, 1e-7, 12345.678]))
view = d(type=st.sampled_from(['vta', 'vta', 'vta', 'vtv', 'vth', 'vtl', 'vtc', 'vts']), va=views.va180, dxyz=views.vdir, pt=st.lists(num, min_size=3, max_size=3),
         novd=st.booleans(), novp=st.booleans(), more=st.booleans(), perm=seeds, fmt=st.sampled_from(['r', 'r', 'g', 'e']), src=st.sampled_from(['V', 'V', 'V', 'rvu']),
         nest=st.integers(0, 2), dup=st.booleans())
NOISE = ['rpict -vta scene.oct', 'oconv a.rad b.rad', 'EXPOSURE=1.5', 'SOFTWARE= RADIANCE 5.3', 'LuminanceRGB= 0.2 0.7 0.1', 'CAPDATE= 2020:01:01 10:10:10',
         'comment -vh 33 -vd 1 1 1', 'pfilt -x /2 -y /2', 'VIEWPOINTS= 3', 'DESCRIPTION= not a -vta view']


def fmt(x, k):
    x = float(x)
    return {'r': repr(x), 'g': '%.17g' % x, 'e': '%.17e' % x}[k]


def text(v):
    o = [['-vh', fmt(v['va'], v['fmt'])], ['-vv', fmt(v['va'] / 2 if v['more'] else v['va'], v['fmt'])]]
    if not v['novd']:
        o.append(['-vd', *(fmt(i, v['fmt']) for i in v['dxyz'])])
    if not v['novp']:
        o.append(['-vp', *(fmt(i, v['fmt']) for i in v['pt'])])
    if v['more']:
        o += [['-vu', '0', '0', '1'], ['-vo', '0'], ['-va', '0'], ['-vs', '0'], ['-vl', '0']]
    order = np.argsort(gen.noise(v['perm'], len(o)), kind='stable')
    return ' '.join([f'-{v["type"]}', *(' '.join(o[i]) for i in order)])


def expect(v):
    dv = (0, 1, 0) if v['novd'] else gen.unit(v['dxyz'])
    return v['va'], dv, [0, 0, 0] if v['novp'] else v['pt']


def same(vm, va, dv, msg):
    require(isinstance(vm, ViewMapper), msg, got=vm)
    close(vm.viewangle, min(va, 180), f'{msg}: view angle', rtol=1e-9)
    close(vm.aspect, 2 if va == 360 else 1, f'{msg}: full sphere or not')
    close(vm.dxyz, dv, f'{msg}: view direction', atol=1e-9)


def put(f, lines, res, w=4, h=4, magic='#?RADIANCE'):
    with open(f, 'wb') as o:
        o.write('\n'.join([magic, *lines, 'FORMAT=32-bit_rle_rgbe', '', res, '']).encode())
        o.write(bytes([128, 128, 128, 129]) * (w * h))


def folder(fn):
    def wrapped(case, rec):
        tmp = tempfile.mkdtemp(dir='.')
        try:
            fn(case, rec, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    wrapped.__name__ = fn.__name__
    return wrapped


@CHECK.sub('image', d(views=st.lists(view, max_size=4), noise=st.lists(st.sampled_from(NOISE), max_size=4), perm=seeds, res=st.integers(1, 40),
                      ratio=st.sampled_from([1, 1, 2, 2, 3, .5]), name=hdr.name, crlf=st.just(False), flip=st.sampled_from(['-Y h +X w', '-Y h +X w', '+Y h +X w', '+X w -Y h', '-Y h -X w'])),
           quick=250, thorough=4000)
@folder
def image(case, rec, tmp):
    f = os.path.join(tmp, case['name'])
    vs = [dict(v) for v in case['views']]
    n = case['res']
    k = case['ratio']
    w, h = (n, 2 * n) if k == .5 else (n * k, n)
    if k == 2 and case['perm'] % 2:
        for v in vs:
            v['va'] = 180.
    elif k > 1:
        # no more than the whole sphere
        for v in vs:
            v['va'] = v['va'] / k
    body = []
    slots = sorted(gen.ints(case['perm'], len(case['noise']), 0, len(vs) + 1).tolist())
    for k in range(len(vs) + 1):
        body += [nz for nz, s in zip(case['noise'], slots) if s == k]
        if k < len(vs):
            v = vs[k]
            body.append('\t' * v['nest'] + ('VIEW= ' if v['src'] == 'V' else 'rvu ') + text(v))
    put(f, body, case['flip'].replace('w', str(w)).replace('h', str(h)), w, h)
    vta = [v for v in vs if v['type'] == 'vta' and v['src'] == 'V'] or [v for v in vs if v['type'] == 'vta']
    before = open(f, 'rb').read()
    got = imagetools.hdr2vm(f)
    got2 = imagetools.hdr2vm(f, vpt=True)
    require(open(f, 'rb').read() == before and os.listdir(tmp) == [case['name']], 'files changed')
    rec.label(f'{len(vta)} fisheye', f'{len(vs) - len(vta)} others', case['flip'], f'{case["ratio"]}:1')
    require(tuple(imagetools.img_size(f)) == (w, h), 'image size', got=imagetools.img_size(f), want=(w, h))
    if not vta:
        require(got is None and got2 == (None, None), 'view without a fisheye view in the header', got=got)
        return
    v = vta[-1]
    rec.nontrivial(len(vs) > 1 or v['novd'] or v['novp'] or v['more'])
    va, dv, pt = expect(v)
    va = va * w / h
    same(got, va, dv, 'view of the image')
    same(got2[0], va, dv, 'view of the image (with point)')
    close(got2[1], pt, 'view point', rtol=1e-12)


@CHECK.sub('size', d(w=st.one_of(st.integers(1, 5000), st.integers(1, 9)), h=st.one_of(st.integers(1, 5000), st.integers(1, 9)), name=hdr.name,
                     flip=st.sampled_from(['-Y h +X w', '-Y h +X w', '+Y h +X w', '+X w -Y h', '-Y h -X w'])), quick=150, thorough=3000)
@folder
def size(case, rec, tmp):
    f = os.path.join(tmp, case['name'])
    w, h = case['w'], case['h']
    rec.nontrivial(w != h)
    put(f, ['VIEW= -vta -vh 90 -vv 90'], case['flip'].replace('w', str(w)).replace('h', str(h)), 1, 1)
    got = imagetools.img_size(f)
    require(tuple(got) == (w, h) and all(isinstance(i, int) for i in got), 'size of the image', got=got, want=(w, h))


@CHECK.sub('viewfile', d(views=st.lists(view, max_size=4), noise=st.lists(st.sampled_from(['# comment', '', 'rvu -vtv -vh 3 -vv 3', 'rvu -vp 1 2 3']), max_size=3),
                         pre=st.sampled_from(['VIEW= ', 'rvu ', 'rvu  ', '']), end=st.sampled_from(['\n', '\n', '', '\r\n', ' \n']), name=hdr.name), quick=400, thorough=8000)
@folder
def viewfile(case, rec, tmp):
    f = os.path.join(tmp, case['name'])
    lines = []
    for i, v in enumerate(case['views']):
        lines += case['noise'][i:i + 1]
        lines.append(case['pre'] + text(v))
    with open(f, 'w', newline='') as o:
        o.write((case['end'] or '\n').join(lines) + case['end'])
    vta = [v for v in case['views'] if v['type'] == 'vta']
    rec.label(f'{len(vta)} fisheye')
    if not vta:
        raises(ValueError, lambda: imagetools.vf_to_vm(f), 'view file without a fisheye view')
        return
    va, dv, _ = expect(vta[-1])
    rec.nontrivial(len(case['views']) > 1 or vta[-1]['novd'] or vta[-1]['more'])
    same(imagetools.vf_to_vm(f), va, dv, 'view of the view file')


@CHECK.sub('trip', d(va=views.va_all, dxyz=views.vdir, scale=views.scales, pt=st.one_of(st.none(), st.lists(num, min_size=3, max_size=3)), res=st.integers(1, 12),
                     clean=st.booleans(), color=st.booleans(), via=st.sampled_from(['image', 'init', 'viewfile', 'rvu']), long=st.booleans(), name=hdr.name), quick=150, thorough=2500)
@folder
def trip(case, rec, tmp):
    """mapper -> header -> file -> mapper"""
    va, res = case['va'], case['res']
    dv = gen.unit(case['dxyz'])
    vm = ViewMapper(np.array(case['dxyz']) * case['scale'], va)
    pt = case['pt'] or [0, 0, 0]
    kw = {} if case['pt'] is None else dict(pt=tuple(case['pt']))
    rec.nontrivial(sum(map(abs, dv)) > 1.001)
    rec.label(case['via'], '360' if va == 360 else '180' if va == 180 else '<180', 'cleaned' if case['clean'] else '')
    f = os.path.join(tmp, case['name'])
    if case['via'] == 'viewfile':
        with open(f, 'w') as o:
            o.write(vm.header(**kw) + '\n')
        same(imagetools.vf_to_vm(f), min(va, 180), dv, 'view file')
        return
    if case['via'] == 'init':
        img, *_, h = vm.init_img(res, features=3 if case['color'] else 1, **kw)
        require(h == vm.header(**kw), 'header of init_img', got=h)
    else:
        img = np.ones((3, res * vm.aspect, res) if case['color'] else (res * vm.aspect, res))
        h = vm.header(**kw)
    lines = [h]
    if case['via'] == 'rvu':
        # a fisheye view given on a (possibly long) command line
        require(h.startswith('VIEW= '), 'header', got=h)
        lines = ['rvu' + h[5:] + (' -ab 2 -ad 1000' * 6 if case['long'] else '')]
    elif case['long']:
        lines = ['rtrace ' + '-ab 2 -ad 1000 ' * 12 + 'scene.oct', 'VIEW= -vta -vv 33 -vh 33 -vd 1 0 0 -vp 9 9 9', h]
    fn = io.carray2hdr if case['color'] else io.array2hdr
    fn(img, f, lines, clean=case['clean'])
    got, p = imagetools.hdr2vm(f, vpt=True)
    same(got, va, dv, 'view written by the mapper')
    close(p, pt, 'view point', rtol=1e-12)
    require(tuple(imagetools.img_size(f)) == (img.shape[-2], img.shape[-1]), 'size of the written image')


@CHECK.sub('broken', d(kind=st.sampled_from(['missing', 'text', 'empty', 'binary', 'directory']), name=hdr.name, seed=seeds), quick=60, thorough=600)
@folder
def broken(case, rec, tmp):
    f = os.path.join(tmp, case['name'])
    k = case['kind']
    rec.nontrivial()
    rec.label(k)
    if k == 'text':
        open(f, 'w').write('just words\n')
    elif k == 'empty':
        open(f, 'w').close()
    elif k == 'binary':
        open(f, 'wb').write(gen.bits(case['seed'], 9).tobytes() + b'\xff\xfe')
    elif k == 'directory':
        os.mkdir(f)
    raises(FileNotFoundError if k == 'missing' else (OSError, ValueError), lambda: imagetools.hdr2vm(f), f'image is {k}')
    raises(FileNotFoundError if k == 'missing' else (OSError, ValueError), lambda: imagetools.vf_to_vm(f), f'view file is {k}')
