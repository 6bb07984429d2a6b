import contextlib
import io as sio
import os

import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr, raises
import gen
import hdr
import views
from gen import d, seeds
from raytools.evaluate import GSS
from raytools.evaluate.hvsgsm import gss_compute
from raytools.mapper import ViewMapper

CHECK = Check('C36', rule='cases: 1-5 images of several sizes, contents and views (in the header, a view file, a mapper, none), histories of 1-10 operations on 1-3 '
              'evaluators (load and score an image, replaced images, new views, external illuminances, saved responses) and image lists scored together '
              '(in any order, repeated, 1-4 processes). Non-trivial: an evaluator scores a second, different image, or two images are scored together.',
              assumptions=['square images of angular fisheye views up to 180 degrees with light in the view', 'images scored together have the view of the first one'])
#: technique: property-based testing: stateful histories and process pools against fresh evaluators; metamorphic relations

view = d(dxyz=st.one_of(st.just([0., 1., 0.]), st.just([0., 1., 0.]), views.vdir), va=st.sampled_from([180, 180, 180, 120, 60]))
img = d(seed=seeds, res=st.sampled_from([12, 16, 20, 20, 20, 27, 27, 34, 40]), head=st.booleans(), hi=st.one_of(st.sampled_from([1., 100., 1e4, 1e8]), gen.logfl(1, 1e8)))
settings = d(age=st.one_of(st.sampled_from([40, 25, 70]), st.integers(10, 90)), pigmentation=st.one_of(st.sampled_from([.106, .16]), st.floats(.05, .2)), scale=st.one_of(st.sampled_from([179, 1., 1000.]), gen.logfl(.5, 2000)), psf=st.booleans(), adaptmove=st.booleans(), directmove=st.booleans(), raw=st.booleans())


def pixels(c, k=0):
    r = c['res']
    s = c['seed'] + 1000 * k
    a = gen.noise(s, (3, r, r), .1, 1)
    n = 1 + c['seed'] % 4
    if c['seed'] % 3 == 0:
        # black parts
        a[:, gen.noise(s + 2, (r, r)) < .2] = 0
    i = gen.ints(s + 1, (2, n), r // 3, r - r // 3)
    a[:, i[0], i[1]] += .1
    a[:, i[0], i[1]] *= c['hi'] * (1 + k)
    return a


def header(v):
    return ['VIEW= -vta -vd {} {} {} -vh {} -vv {}'.format(*[float(i) for i in gen.unit(v['dxyz'])], v['va'], v['va'])]


def put(name, c, v, k=0, always=False):
    hdr.write(name, pixels(c, k), header(v) if c['head'] or always else [])
    return name


def mapper(v):
    return ViewMapper(v['dxyz'], v['va'])


def fresh(name, v, kw, ev=None):
    g = GSS(mapper(v), **kw)
    g.lum = name
    return g.compute(ev_eye=ev)


op = d(e=st.integers(0, 2), i=st.integers(0, 4), kind=st.sampled_from(['score', 'score', 'score', 'score', 'again', 'replace', 'view', 'illum', 'save', 'adapt']), ev=gen.logfl(1, 1e5), v=st.integers(0, 1))


@CHECK.sub('history', d(imgs=st.one_of(st.lists(img, min_size=2, max_size=5), st.lists(img, min_size=1, max_size=2)), views=st.lists(view, min_size=2, max_size=2), evs=st.lists(settings, min_size=1, max_size=3), ops=st.one_of(st.lists(op, min_size=4, max_size=12), st.lists(op, min_size=1, max_size=4))),
           quick=250, thorough=3000)
def history(case, rec):
    V = case['views']
    names, state = [], []
    for k, c in enumerate(case['imgs']):
        names.append(put(f'i{k}.hdr', c, V[0]))
        state.append(0)
    live = [[GSS(mapper(V[0]), **kw), 0, None, kw, None] for kw in case['evs']]
    for o in case['ops']:
        e = live[o['e'] % len(live)]
        g, vi, last, kw, done = e
        i = o['i'] % len(names)
        kind = o['kind']
        if kind in ('again', 'adapt') and last is None:
            kind = 'score'
        rec.label(kind)
        if kind == 'view':
            # another view for images loaded from now on
            g.vm = mapper(V[o['v']])
            e[1] = o['v']
            e[2] = None
            continue
        if kind == 'replace':
            state[i] += 1
            put(names[i], case['imgs'][i], V[0], state[i])
            continue
        if kind == 'again':
            # the loaded image, even if another was written to its file
            close(g.compute(), done, 'scored again', rtol=1e-9)
            continue
        if kind == 'adapt':
            a, b = g.adapt(), g.adapt(o['ev'])
            require(np.all(np.isfinite(a)) and np.all(np.isfinite(b)), 'finite adaptation')
            close(g.adapt(), a, 'adapted again', rtol=1e-12)
            close(g.compute(), done, 'scored after adaptation', rtol=1e-9)
            continue
        g.lum = names[i]
        vm = mapper(V[e[1]])
        close(np.reshape(g.vecs, (-1, 3)), np.reshape(vm.pixelrays(case['imgs'][i]['res']), (-1, 3)), 'directions of the pixels', atol=1e-9)
        want = fresh(names[i], V[e[1]], kw)
        if kind == 'illum':
            w = fresh(names[i], V[e[1]], kw, o['ev'])
            close(g.compute(ev_eye=o['ev']), w, 'external illuminance', rtol=1e-9)
        elif kind == 'save':
            if os.path.exists('resp.hdr'):
                os.remove('resp.hdr')
            close(g.compute(save='resp.hdr'), want, 'score of a saved response', rtol=1e-9)
            r = case['imgs'][i]['res']
            rg = np.asarray(g.glare_response(g.lum, *g.adapt()))
            same(hdr.decode('resp.hdr')[1], np.stack((*rg, np.zeros((r, r)))))
        got = g.compute()
        close(got, want, f'score of image {i} with history', rtol=1e-9)
        require(np.ndim(got) == 0 and np.isfinite(got) and got >= 0, 'finite and not negative', got=got)
        if last is not None and last != i:
            rec.nontrivial()
            rec.label('same size' if case['imgs'][i]['res'] == case['imgs'][last]['res'] else 'other size')
        e[2], e[4] = i, want


def same(px, want):
    tol = np.max(want, axis=0) / 100 + 1e-30
    require(px.shape == want.shape, 'size of the response image', got=px.shape)
    require(np.all(np.abs(px - want) <= tol), 'saved response is that of the image', diff=np.max(np.abs(px - want)))


@CHECK.sub('view', d(img=img, view=view, kw=settings, src=st.sampled_from(['image', 'mapper', 'file', 'none', 'assigned', 'assigned image', 'noview', 'noview assigned']), turned=views.vdir), quick=120, thorough=3000)
def view_(case, rec):
    v, kw, src = case['view'], case['kw'], case['src']
    c = case['img']
    if src in ('none', 'noview', 'noview assigned'):
        v = dict(dxyz=[0., 1., 0.], va=180)
    rec.label(src)
    rec.nontrivial(c['hi'] > 1)
    n = put('a.hdr', dict(c, head='noview' not in src), v)
    other = put('other.hdr', dict(c, seed=c['seed'] + 1), v, always=True)
    want = fresh(n, v, kw)
    if src == 'image' or src == 'noview':
        g = GSS(n, **kw)
        close(g.compute(), want, 'image given as view is loaded', rtol=1e-9)
    elif src == 'mapper':
        g = GSS(mapper(v), **kw)
    elif src == 'file':
        with open('v.vf', 'w') as f:
            f.write('rvu ' + header(v)[0][6:] + '\n')
        g = GSS('v.vf', **kw)
    elif src == 'none':
        g = GSS(**kw)
    else:
        g = GSS(ViewMapper((1, 0, .2), 90), **kw)
        if case['kw']['raw']:
            # a view that has been used
            g.lum = other
            g.compute()
        g.vm = mapper(v) if src == 'assigned' else n
    if src not in ('image', 'noview'):
        require(g.lum is None or case['kw']['raw'], 'no image loaded')
        if g.lum is None:
            raises(ValueError, g.compute, 'score without image')
            raises(ValueError, g.adapt, 'adaptation without image')
    close(g.vm.dxyz, gen.unit(v['dxyz']), 'view direction', atol=1e-6)
    close(g.vm.viewangle, v['va'], 'view angle')
    g.lum = n
    close(g.compute(), want, 'score', rtol=1e-6)
    # the score depends neither on the direction nor on side
    g = GSS(ViewMapper(case['turned'], v['va']), **kw)
    g.lum = n
    close(g.compute(), want, 'score in another direction', rtol=1e-5)
    p = pixels(c)
    hdr.write('m.hdr', p[:, ::-1], header(v))
    g = GSS('m.hdr', **kw)
    g.vm = mapper(v)
    g.lum = 'm.hdr'
    close(g.compute(), want, 'score of the mirrored image', rtol=1e-5)
    # brightness of the pixels is relative to scale
    hdr.write('d.hdr', p * 2, header(v))
    close(fresh('d.hdr', v, dict(kw, scale=kw['scale'] / 2)), want, 'brighter pixels of smaller scale', rtol=1e-5)


@CHECK.sub('together', d(imgs=st.lists(img, min_size=1, max_size=4), rep=st.lists(st.integers(0, 3), max_size=3), view=view, kw=settings, cap=st.sampled_from([None, 1, 2, 4]), order=seeds,
                         illum=st.sampled_from(['none', 'none', 'all', 'some']), save=st.booleans(), outdir=st.sampled_from([None, 'out', 'new dir']), suffix=st.sampled_from([None, '_x.hdr']), sub=st.sampled_from(['', '', 'in/', 'a.b/']), seq=st.sampled_from(['list', 'tuple'])),
           quick=60, thorough=1500)
def together(case, rec):
    v, kw = case['view'], case['kw']
    if case['sub']:
        os.makedirs(case['sub'], exist_ok=True)
    names = [put(f"{case['sub']}i.{k}.hdr", dict(c, head=True), v) for k, c in enumerate(case['imgs'])]
    ims = names + [names[k % len(names)] for k in case['rep']]
    if case['save']:
        # files are written once
        ims = names
    ims = [ims[k] for k in np.argsort(gen.bits(case['order'], len(ims)), kind='stable')]
    ill = None
    if case['illum'] != 'none':
        ill = [None if case['illum'] == 'some' and k % 2 else float(10 ** (1 + k)) for k in range(len(ims))]
    rec.nontrivial(len(set(ims)) > 1)
    rec.label(f'{len(ims)} images', f"cap {case['cap']}", 'saved' if case['save'] else 'not saved')
    os.environ.pop('RAYTOOLS_PROC_CAP', None)
    if case['cap']:
        os.environ['RAYTOOLS_PROC_CAP'] = str(case['cap'])
    args = dict(kw)
    if case['suffix']:
        args['suffix'] = case['suffix']
    if case['outdir']:
        args['outdir'] = case['outdir']
    before = {n: open(n, 'rb').read() for n in names}
    try:
        with contextlib.redirect_stderr(sio.StringIO()):
            got = gss_compute(tuple(ims) if case['seq'] == 'tuple' else ims, ill, case['save'], **args) if ill is not None or case['save'] else gss_compute(ims, **args)
    finally:
        os.environ.pop('RAYTOOLS_PROC_CAP', None)
    require(len(got) == len(ims), 'one score per image', n=len(got))
    want = [fresh(n, v, kw, e) for n, e in zip(ims, ill or [None] * len(ims))]
    close(np.array(got, float), want, 'scores in the order of the images', rtol=1e-6)
    for n in names:
        require(open(n, 'rb').read() == before[n], 'images are unchanged')
    suffix = case['suffix'] or '_rg.hdr'
    for k, n in enumerate(ims):
        f = n[:-4] + suffix
        if case['outdir']:
            f = case['outdir'] + '/' + os.path.basename(f)
        require(os.path.exists(f) == bool(case['save']), 'response file', f=f)
        if case['save']:
            g = GSS(mapper(v), **kw)
            g.lum = n
            a = g.adapt() if ill is None or ill[k] is None else g.adapt(ill[k])
            rg = np.asarray(g.glare_response(g.lum, *a))
            same(hdr.decode(f)[1], np.stack((*rg, np.zeros(rg.shape[1:]))))
            os.remove(f)
