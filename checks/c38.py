import os
import shlex
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal
import cli
import gen
import hdr
import views
from gen import d, seeds
from c24 import check_file
from c25 import sample, roll
from c26 import law
from raytools import imagetools, io

CHECK = Check('C38', rule='cases: 1-4 image files (names with spaces, in folders, several extensions; sizes, views, header lines and contents differ, 2:1 images), '
              'every combination of the options, options before or after the images, to files or standard output. '
              'Non-trivial: more than one image or an option different from the default.',
              assumptions=['the pixels of the library functions are decided by C17, C24-C26'])
#: technique: property-based testing: differential between the commands and the library, independent decoding of the images

NAMES = ['a.hdr', 'b c.hdr', 'sub/d.hdr', 'e.1.hdr', 'sub dir/F.HDR', 'g.pic', 'noext', 'h.hdr.x.hdr', 'dir.hdr/k.hdr']
EXTRA = [[], ['rpict -ab 2 -ad 100 scene.oct'], ['EXPOSURE=2.5', 'pfilt -x 10'], ['EXPOSURE=.5', 'a line = with  spaces', '\tEXPOSURE=4', 'LuminanceRGB= .3 .3 .4'], ['x' * 90, 'words ' * 40 + 'end', 'x' * 90]]
img = d(seed=seeds, res=st.integers(2, 16), view=st.sampled_from(['180', '180', 'none', 'va', 'up']), dxyz=views.vdir, va=st.one_of(st.sampled_from([60, 90, 120.5]), st.floats(20, 180).map(lambda x: round(x, 3))), extra=st.sampled_from(EXTRA), name=st.integers(0, len(NAMES) - 1))


def put(c, wide=False):
    name = NAMES[c['name']]
    r = c['res']
    a = 10 ** gen.noise(c['seed'], (3, 2 * r if wide else r, r), -2, 3)
    h = list(c['extra'])
    dv = (0, 1, 0) if c['view'] == 'up' else gen.unit(c['dxyz'])
    if c['view'] != 'none':
        va = c['va'] if c['view'] == 'va' else 180
        h.append('VIEW= -vta -vp 1 2 3 -vd {} {} {} -vh {} -vv {}'.format(*map(float, dv), va, va))
    if os.path.dirname(name):
        os.makedirs(os.path.dirname(name), exist_ok=True)
    hdr.write(name, a, h)
    return name


def original(f):
    """pixel values before exposure"""
    lines, rgb, _ = hdr.decode(f)
    for i in lines:
        if i.startswith('EXPOSURE='):
            rgb = rgb / float(i[9:])
    return rgb


def tree():
    return {os.path.join(p, f)[2:]: open(os.path.join(p, f), 'rb').read() for p, _, n in os.walk('.') for f in n}


def scratch(f):
    def g(case, rec):
        old = os.getcwd()
        tmp = tempfile.mkdtemp(dir=old)
        os.chdir(tmp)
        try:
            f(case, rec)
        finally:
            os.chdir(old)
            shutil.rmtree(tmp, ignore_errors=True)
    g.__name__, g.__doc__ = f.__name__, f.__doc__
    return g


def compare(case, rec, command, args, stdout, func, suffix, checks=None):
    """run the command over the images; func(image, outf) writes what it should write"""
    files = []
    for c in case['imgs']:
        if NAMES[c['name']] not in files:
            files.append(put(c, case.get('wide')))
    files = files[:1] if case['one'] else files
    before = tree()
    a = [*args, ' '.join(map(shlex.quote, files))] if case['front'] else [' '.join(map(shlex.quote, files)), *args]
    pre = [] if case['n'] is None else ['-n', case['n']]
    code, out, err = cli.run([*pre, command, *a])
    require(code == 0, 'command failed', code=code, err=err[-600:])
    after = tree()
    stdout = stdout and len(files) == 1
    rec.label(f'{len(files)} images', 'stdout' if stdout else 'files')
    rec.nontrivial(len(files) > 1 or bool(args))
    want = {}
    for f in files:
        require(after[f] == before[f], 'input image changed', f=f)
        ref = os.path.abspath('ref.hdr')
        func(f, ref)
        name = None if stdout else (f.rsplit('.', 1)[0] if '.' in os.path.basename(f) else f) + suffix + '.hdr'
        want[name] = open(ref, 'rb').read()
        if checks:
            checks(f, ref)
        os.remove(ref)
    if stdout:
        require(out == want[None], 'image on standard output', got=out[:400], want=want[None][:400])
        require(after == before, 'no files written to', got=sorted(set(after) - set(before)))
    else:
        require(out == b'', 'nothing on standard output', out=out[:200])
        got = {k: v for k, v in after.items() if k not in before}
        require(sorted(got) == sorted(want), 'files written', got=sorted(got), want=sorted(want))
        for k in want:
            require(got[k] == want[k], 'content of the file', file=k, got=got[k][:400], want=want[k][:400])
        for k in want:
            require(k in err, 'names of the written files', err=err, name=k)


common = dict(imgs=st.one_of(st.lists(img, min_size=2, max_size=4), st.lists(img, min_size=1, max_size=2)), one=st.sampled_from([False, False, True]), front=st.booleans(), n=st.sampled_from([None, None, 1, 2]), stdout=st.sampled_from([None, False, True]))


def flag(v, yes, no):
    return [] if v is None else [yes if v else no]


@CHECK.sub('project', d(uv=st.sampled_from([None, True, True, False]), useview=st.sampled_from([None, True, False]), wide=st.sampled_from([False, False, True]), **common), quick=300, thorough=4000)
@scratch
def project(case, rec):
    uv, useview = bool(case['uv']), case['useview'] is not False
    if not uv:
        case = dict(case, wide=False)
    args = flag(case['uv'], '--uv2ang', '--ang2uv') + flag(case['useview'], '--useview', '--no-useview') + flag(case['stdout'], '--stdout', '--no-stdout')
    rec.label('uv2ang' if uv else 'ang2uv', 'view' if useview else 'no view')

    def func(f, out):
        if uv:
            imagetools.hdr_uv2ang(f, outf=out)
        else:
            imagetools.hdr_ang2uv(f, outf=out, useview=useview)

    def pixels(f, out):
        src, got = original(f), original(out)
        res = got.shape[-1]
        if uv:
            va = 360 if case['wide'] else 180
            v, ok = views.pixel_dirs((0, 1, 0), res, va)
            pos = views.dir2square((0, 1, 0), v, va) * res
        else:
            vm = imagetools.hdr2vm(f) if useview else None
            dv, va = ((0, 1, 0), 180) if vm is None else (vm.dxyz[0] if np.ndim(vm.dxyz) > 1 else vm.dxyz, vm.viewangle)
            g = (np.stack(np.meshgrid(np.arange(res), np.arange(res), indexing='ij'), -1) + .5) / res
            pos = views.dir2view(dv, views.square2dir(dv, g, va), va) * res
            ok = np.ones((res, res), bool)
        i = np.floor(pos).astype(int)
        ok &= np.all(np.abs(pos - np.round(pos)) > 1e-6, -1) & np.all((i >= 0) & (i < src.shape[1:]), -1)
        i = np.clip(i, 0, np.array(src.shape[1:]) - 1)
        close(got[:, ok], src[:, i[..., 0], i[..., 1]][:, ok], 'pixels', rtol=.012, atol=.012 * 1e-2 + .01 * src.max(0)[i[..., 0], i[..., 1]][ok])
    compare(case, rec, 'project', args, case['stdout'], func, '_ang' if uv else '_uv', pixels)


angle = st.sampled_from([None, None, 0, 30, 90, -45, 12.5, 200.])


@CHECK.sub('align', d(rotate=angle, center=st.sampled_from([0, 0, 2, 4]), p=st.lists(st.floats(.2, .8), min_size=4, max_size=4), first=st.sampled_from([None, True, False]), nearest=st.sampled_from([None, True, False]), **common), quick=300, thorough=4000)
@scratch
def align(case, rec):
    res = min(c['res'] for c in case['imgs'])
    args, kw = [], {}
    rotate = case['rotate']
    if rotate is not None:
        args += ['-rotate', rotate]
        kw['rotate'] = float(rotate)
    ctr = [int(x * res) for x in case['p'][:case['center']]]
    if ctr:
        args += ['-center', ' '.join(map(str, ctr))]
        kw['center'] = ctr
    args += flag(case['first'], '--rotate-first', '--center-first') + flag(case['nearest'], '--nearest', '--no-nearest') + flag(case['stdout'], '--stdout', '--no-stdout')
    for k, o in (('rotate_first', 'first'), ('nearest', 'nearest')):
        if case[o] is not None:
            kw[k] = case[o]
    r = f'_r{int(rotate):02d}' if rotate else ''
    c = f'_{ctr[0]}-{ctr[1]}' if ctr else ''
    suffix = (c + r if case['first'] is False else r + c) or '_r00'
    rec.label('rotate' if rotate else '', f'center {len(ctr)}', 'center first' if case['first'] is False else 'rotate first')
    if ctr and rotate and case['first'] is not False:
        rec.label('known finding: rotation first')

    def pixels(f, out):
        if ctr:
            return
        src, got = original(f), original(out)
        n = src.shape[-1]
        v, ok = views.pixel_dirs((0, 1, 0), n)
        s = roll(v, rotate or 0)
        want, clear = sample(src, views.dir2view((0, 1, 0), s) * n, case['nearest'])
        ok &= clear & np.all(want > 0, 0)
        if case['first'] is False and rotate:
            # resampled twice
            pass
        top = np.broadcast_to(want.max(0), want.shape)
        close(got[:, ok], want[:, ok], 'pixels', rtol=.02, atol=.02 * top[:, ok] + .02)
    compare(case, rec, 'align', args, case['stdout'], lambda f, o: imagetools.hdr_rotate(f, outf=o, **kw), suffix, pixels)


@CHECK.sub('solid2ang', d(reverse=st.sampled_from([None, True, False]), nearest=st.sampled_from([None, True, False]), va=st.one_of(st.sampled_from([None, None, 180, 90, 45.5]), st.floats(5, 180).map(lambda x: round(x, 3))), **common), quick=300, thorough=4000)
@scratch
def solid2ang(case, rec):
    kw = {k: case[k] for k in ('reverse', 'nearest') if case[k] is not None}
    args = flag(case['reverse'], '--reverse', '--forward') + flag(case['nearest'], '--nearest', '--no-nearest') + flag(case['stdout'], '--stdout', '--no-stdout')
    if case['va'] is not None:
        args += ['-viewangle', case['va']]
        kw['viewangle'] = float(case['va'])
    rec.label('reverse' if case['reverse'] else 'forward', 'angle' if case['va'] else 'angle of the header')

    def pixels(f, out):
        src, got = original(f), original(out)
        vm = imagetools.hdr2vm(f)
        va = case['va'] or (180 if vm is None else vm.viewangle)
        pos, ro, ri = law(src.shape[-1], va, case['reverse'])
        want, clear = sample(src, pos, case['nearest'])
        ok = clear & (ro < 1 - 1e-9) & (ri < 1 - 1e-9) & np.all(want > 0, 0)
        top = np.broadcast_to(want.max(0), want.shape)
        close(got[:, ok], want[:, ok], 'pixels', rtol=.02, atol=.02 * top[:, ok] + .02)
        new = imagetools.hdr2vm(out)
        close(new.viewangle, va, 'view angle of the header', rtol=1e-6)
    compare(case, rec, 'solid2ang', args, case['stdout'] is not False, lambda f, o: imagetools.hdr_solid2ang(f, outf=o, **kw), '_2vts' if case['reverse'] else '_2vta', pixels)


@CHECK.sub('cleanheader', d(img=img, wide=st.booleans()), quick=200, thorough=2500)
@scratch
def cleanheader(case, rec):
    f = put(case['img'], case['wide'])
    before = tree()
    code, out, err = cli.run(['cleanheader', f])
    require(code == 0, 'command failed', code=code, err=err[-600:])
    require(tree() == before, 'files changed')
    rec.nontrivial(bool(case['img']['extra']))
    rgb, header = io.hdr2carray(f, header=True)
    io.carray2hdr(rgb, 'ref.hdr', header, clean=True)
    require(open('ref.hdr', 'rb').read() == out, 'image on standard output', got=out[:400], want=open('ref.hdr', 'rb').read()[:400])
    open('out.hdr', 'wb').write(out)
    lines, got = hdr.decode('out.hdr')[0], original('out.hdr')
    want = original(f)
    require(got.shape == want.shape, 'size')
    close(got, want, 'pixels', rtol=.012, atol=.005 * np.broadcast_to(want.max(0), want.shape) + 1e-9)
    # a cleaned header keeps its lines
    def kept(t):
        return [' '.join(i.split()) for i in io.CleanHeader('\n'.join(t)).unwrapped]
    code, out, err = cli.run(['cleanheader', 'out.hdr'])
    require(code == 0, 'command failed')
    open('again.hdr', 'wb').write(out)
    missing = [i for i in case['img']['extra'] if not any(' '.join(i.split()) in j for j in kept(lines))]
    require(not missing, 'lines of the header', missing=missing, lines=lines)
    twice = kept(hdr.decode('again.hdr')[0])
    missing = [i for i in case['img']['extra'] if not any(' '.join(i.split()) in j for j in twice)]
    require(not missing, 'lines of the header cleaned twice', missing=missing, lines=twice)


@CHECK.sub('errors', d(command=st.sampled_from(['project', 'align', 'solid2ang', 'cleanheader']), kind=st.sampled_from(['missing', 'text', 'empty', 'option']), at=st.integers(0, 2), n=st.integers(1, 3), seed=seeds), quick=40, thorough=500)
@scratch
def errors(case, rec):
    """files that cannot be read: an error, inputs unchanged, nothing written for them"""
    cmd, k = case['command'], case['kind']
    files = [put(dict(seed=case['seed'], res=6, view='none', dxyz=[0, 1, 0], va=90, extra=[], name=i)) for i in range(case['n'])]
    bad = 'bad.hdr'
    if k == 'text':
        open(bad, 'w').write('this is not an image\n')
    elif k == 'empty':
        open(bad, 'w').close()
    args = []
    if cmd == 'cleanheader':
        files = [bad] if k != 'option' else files[:1]
    elif k != 'option':
        files.insert(case['at'] % (len(files) + 1), bad)
    if k == 'option':
        args = [{'align': '-rotate', 'solid2ang': '-viewangle'}.get(cmd, '--unknown'), 'much']
    before = tree()
    rec.label(cmd, k)
    rec.nontrivial(len(files) > 1)
    code, out, err = cli.run([cmd, *args, ' '.join(map(shlex.quote, files))])
    require(code != 0, 'an error code', out=out[:300], err=err[-300:])
    after = tree()
    require(all(after[f] == before[f] for f in before), 'inputs changed')
    require(not [f for f in after if f.startswith('bad') and f not in before], 'nothing written for a broken image', got=sorted(after))
    if k == 'option' or len(files) == 1:
        require(out == b'', 'nothing on standard output', out=out[:200])
