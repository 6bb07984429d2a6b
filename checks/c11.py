import subprocess

import numpy as np
from hypothesis import strategies as st
from pbt import Check, HarnessError, require, close
import gen
import views
from gen import d
from raytools.mapper import ViewMapper, SolidViewMapper

CHECK = Check('C11', rule='cases: view direction (axes incl. straight up/down, near-axis, lattice, generic), view angle, '
              'resolution 2-24, view point, projection name. Non-trivial: the direction is not +y.',
              assumptions=['vwrays (Radiance, bundled with the repository) is the oracle; it prints 6 significant digits',
                           'view directions within 1e-4 of (but not exactly) vertical are outside the domain of the ray '
                           'comparison: a Radiance up vector is degenerate there'])
#: technique: property-based testing: differential against Radiance vwrays on generated views

coord = st.one_of(st.floats(-100, 100), st.sampled_from([0, 1.5, -2, 1e-7, 12345.678]))
pt = st.one_of(st.none(), st.lists(coord, min_size=3, max_size=3))


def fields(header):
    require(header.startswith('VIEW='), 'header does not start with VIEW=', header=header)
    w = header[5:].split()
    out = {}
    i = 0
    while i < len(w):
        require(w[i].startswith('-v'), 'view option', header=header)
        if w[i].startswith('-vt'):
            out['-vt'] = w[i][3:]
            i += 1
            continue
        n = 3 if w[i] in ('-vd', '-vp', '-vu') else 1
        out[w[i]] = [float(x) for x in w[i + 1:i + 1 + n]]
        require(len(out[w[i]]) == n, 'view option without value', header=header)
        i += n + 1
    return out, w


def vwrays(args, res):
    p = subprocess.run(['vwrays', '-fd', '-x', str(res), '-y', str(res), '-pj', '0'] + args, capture_output=True)
    return p.stdout, p.stderr.decode(errors='replace'), p.returncode


@CHECK.sub('rays', d(dxyz=views.vdir, scale=views.scales, va=st.sampled_from([180, 180.0, 360.0]), res=st.integers(2, 24),
                     pt=pt, via=st.sampled_from(['header', 'header', 'img', 'kw'])), big=[(5, {'res': gen.wide})], quick=400, thorough=8000)
def rays(case, rec):
    dv = gen.unit(case['dxyz'])
    res = case['res']
    rec.nontrivial(list(dv) != [0, 1, 0])
    vertical = abs(dv[2]) > 1 - 1e-12
    rec.label('vertical' if vertical else 'other', case['via'], f'{case["va"]:.0f}')
    vm = ViewMapper(np.array(case['dxyz']) * case['scale'], case['va'])
    kw = {} if case['pt'] is None else dict(pt=tuple(case['pt']))
    if case['via'] == 'img':
        h = vm.init_img(res, **kw)[4]
    elif case['via'] == 'kw':
        h = vm.header(viewproj='vta', **kw)
    else:
        h = vm.header(**kw)
    f, args = fields(h)
    require(f.get('-vt') == 'a', 'view type', header=h)
    out, err, code = vwrays(args, res)
    require(code == 0 and not err.strip(), 'Radiance rejects the header', header=h, stderr=err)
    if len(out) != res * res * 6 * 8:
        raise HarnessError(f'vwrays returned {len(out)} bytes')
    w = np.frombuffer(out, float).reshape(res, res, 6)
    # scanlines from the top, left to right -> (x, y) with y up
    w = np.transpose(w[::-1], (1, 0, 2))
    have = np.linalg.norm(w[..., 3:], axis=-1) > 0
    got = np.asarray(vm.pixelrays(res))[:res]
    require(np.sum(have) >= .7 * res * res, 'Radiance has no rays for this header', header=h)
    close(got[have], w[have][:, 3:], 'pixel rays against vwrays', atol=2e-5)
    close(w[have][:, :3], np.broadcast_to(case['pt'] or (0, 0, 0), (np.sum(have), 3)), 'ray origins', atol=1e-4, rtol=1e-5)
    if case['va'] == 360:
        h2 = vm.ivm.header(**kw)
        out, err, code = vwrays(fields(h2)[1], res)
        require(code == 0 and not err.strip(), 'Radiance rejects the header', header=h2, stderr=err)
        w = np.transpose(np.frombuffer(out, float).reshape(res, res, 6)[::-1], (1, 0, 2))
        have = np.linalg.norm(w[..., 3:], axis=-1) > 0
        close(np.asarray(vm.pixelrays(res))[res:][have], w[have][:, 3:], 'opposite pixel rays against vwrays', atol=2e-5)


@CHECK.sub('header', d(dxyz=gen.dir1, scale=views.scales, va=views.va_all, pt=pt,
                       proj=st.sampled_from(['vta', 'vta', 'vtx', 'img']), name=st.sampled_from(['a', 'vta', 'fish', 'Angular', 'vte', 'u', 'e']),
                       cls=st.sampled_from(['view', 'solid'])), quick=400, thorough=8000)
def header(case, rec):
    """every header is accepted and carries the view"""
    dv = gen.unit(case['dxyz'])
    va = case['va']
    rec.nontrivial()
    cls = ViewMapper
    if case['cls'] == 'solid':
        cls, va = SolidViewMapper, min(180, va)
    vm = cls(np.array(case['dxyz']) * case['scale'], va)
    kw = {} if case['pt'] is None else dict(pt=tuple(case['pt']))
    want = 'a'
    if case['proj'] == 'img':
        name = case['name'] if case['name'] not in 'evte' or va <= 180 else 'vta'
        h = vm.init_img(4, viewproj=name, **kw)[4]
        want = {'v': 'a', 'a': 'a', 'A': 'a', 'f': 'a', 'e': 'e'}.get(name[0], 'uv')
        want = 'e' if name == 'vte' else want
        rec.label('proj ' + want)
    else:
        h = vm.header(**kw)
    if want == 'uv':
        require(h.split()[1] == '-vuv', 'view type', header=h)
        f, args = fields(h.replace('-vuv ', '-vtv '))
    else:
        f, args = fields(h)
        require(f.get('-vt') == want, 'view type', header=h)
    size = min(va, 180)
    close(f['-vv'] + f['-vh'], [size, size], 'view size', atol=1e-9)
    close(f['-vd'], dv, 'view direction', atol=1e-9)
    close(f['-vp'], case['pt'] or (0, 0, 0), 'view point', atol=1e-9)
    require(abs(np.linalg.norm(np.cross(f['-vu'], f['-vd']))) > 1e-7 or views.near_vertical(dv), 'up vector', header=h)
    if want in 'ae' and abs(np.linalg.norm(np.cross(f['-vu'], f['-vd']))) > 1e-5:
        if want == 'e':
            args = ['-vts' if a == '-vte' else a for a in args]
        out, err, code = vwrays(args, 3)
        require(code == 0 and not err.strip(), 'Radiance rejects the header', header=h, stderr=err)
