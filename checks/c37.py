import os
import shlex
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr, REPO
import cli
import gen
import hdr
import views
from gen import d, seeds
from raytools import imagetools
from raytools.evaluate import MetricSet
from raytools.evaluate.hvsgsm import GSS
from raytools.mapper import ViewMapper

CHECK = Check('C37', rule='cases: 1-5 image files (repeated, in any order, names with spaces; sizes, views, contents and header coefficients differ), 1-7 metrics in any order '
              'including multi-valued and sensation scores, any combination of the options, process caps; unknown metrics, missing and broken files. '
              'Non-trivial: two or more images of different values and two or more metrics.',
              assumptions=['images of one list scored with gss have the same view', 'the values of the library are decided by C28, C29, C36'])
#: technique: property-based testing: differential between the command and the library over generated images and option combinations

METRICS = list(MetricSet.allmetrics)
NAMES = ['a.hdr', 'b c.hdr', 'sub/d.hdr', 'e.1.hdr', 'F.hdr']
img = d(seed=seeds, res=st.integers(6, 24), view=st.sampled_from(['180', '180', 'none', 'va', '360']), dxyz=views.vdir, lum=st.sampled_from([None, None, '.3 .3 .4']), peak=st.sampled_from([0, 1e3, 1e4, 1e6]), graded=st.booleans(), level=st.sampled_from([1, 1, .05]))


def put(name, c, gss):
    r, s = c['res'], c['seed']
    view = c['view']
    if gss:
        view = '180' if view == '180' else 'none'
        r = 6 + r
    x = 2 * r if view == '360' else r
    a = gen.noise(s, (3, x, r), .1, 10) * c.get('level', 1)
    if c['peak']:
        a[:, r // 2, r // 2:r // 2 + 2] = c['peak']
        if c.get('graded'):
            # a source with a bright core
            a[:, r // 2 - 1:r // 2 + 2, r // 2 - 1:r // 2 + 2] = c['peak'] * 10 ** -gen.noise(s + 1, (3, 3), 0, 1.5)
            a[:, r // 2, r // 2] = c['peak']
    h = []
    v = gen.unit(c['dxyz'])
    if view != 'none':
        va = 90 if view == 'va' else 180
        h.append('VIEW= -vta -vd {} {} {} -vh {} -vv {}'.format(*map(float, v), va, va))
    if c['lum']:
        h.append('LuminanceRGB= ' + c['lum'])
    if os.path.dirname(name):
        os.makedirs(os.path.dirname(name), exist_ok=True)
    hdr.write(name, a, h)
    return name


opts = d(scale=st.one_of(st.sampled_from([None, None, 1., 100.]), gen.logfl(.5, 500)), threshold=st.one_of(st.sampled_from([None, None, 5., 1000., 4.5, .7, 0, 100, 101]), gen.logfl(.5, 5000)), peakn=st.sampled_from([None, True, False]), peaka=st.one_of(st.sampled_from([None, .01, .3]), gen.logfl(1e-4, .3)), peakt=st.one_of(st.sampled_from([None, 1e3]), gen.logfl(200, 1e5)),
         peakr=st.one_of(st.sampled_from([None, 2., 1.2, 30.]), st.floats(1, 30)), blursun=st.sampled_from([None, None, True, False]), lowlight=st.sampled_from([None, True, False]), lumrgb=st.sampled_from([None, None, [.2, .7, .1], [.5, 1.4, .1]]))
DEFAULT = dict(scale=179., threshold=2000., peakn=True, peaka=6.7967e-05, peakt=1e5, peakr=4., blursun=False, lowlight=False, lumrgb=None)


def args_of(o):
    a, kw = [], dict(DEFAULT)
    for k, v in o.items():
        if v is None:
            continue
        kw[k] = v
        if isinstance(v, bool):
            a.append(('--' if v else '--no-') + k)
        elif isinstance(v, list):
            a += ['-' + k, ' '.join(map(str, v))]
        else:
            a += ['-' + k, str(v)]
    return a, kw


def table(out):
    t = out.decode()
    require(t.endswith('\n'), 'output ends with a line', out=t)
    rows = [i.split('\t') for i in t[:-1].split('\n')]
    return rows[0], rows[1:]


MS = st.sampled_from(METRICS + ['irradiance'] * 6 + ['dgp'] * 2)
case_ = d(imgs=st.one_of(st.lists(img, min_size=2, max_size=4), st.lists(img, min_size=1, max_size=2)), order=st.lists(st.integers(0, 3), max_size=3), metrics=st.one_of(st.lists(MS, min_size=2, max_size=7), st.lists(MS, max_size=3)), gss=st.sampled_from([[], [], [], ['gss'], ['gssnb'], ['gss', 'gssnb'], ['gssnb', 'gss']]),
          at=st.integers(0, 6), opts=opts, parallel=st.sampled_from([None, None, True, False]), n=st.sampled_from([None, None, 1, 2, 3]), first=st.booleans(), single=st.booleans(), default=st.sampled_from([False, False, False, True]), gssimage=st.sampled_from([False, False, True]))


@CHECK.sub('table', case_, quick=200, thorough=2500)
def table_(case, rec):
    gss = [] if case['default'] else case['gss']
    metrics = ['illum', 'dgp', 'ugp'] if case['default'] else list(case['metrics'])
    k = case['at'] % (len(metrics) + 1)
    # the sensation scores anywhere in the list
    asked = metrics[:k] + gss + metrics[k:]
    if not asked:
        asked = metrics = ['illum']
    files = [put(NAMES[k], c, gss) for k, c in enumerate(case['imgs'])]
    if gss:
        # the same view
        files = [put(NAMES[k], dict(c, view=case['imgs'][0]['view'], dxyz=case['imgs'][0]['dxyz']), gss) for k, c in enumerate(case['imgs'])]
    ims = files + [files[k % len(files)] for k in case['order']]
    before = {n: open(n, 'rb').read() for n in files}
    oargs, kw = args_of(case['opts'])
    m = [] if case['default'] else ['-metrics', ' '.join(asked)]
    if case['parallel'] is not None:
        m.append('--parallel' if case['parallel'] else '--no-parallel')
    if case['gssimage']:
        m.append('--gssimage')
    im = ' '.join(shlex.quote(i) for i in ims)
    pre = [] if case['n'] is None else ['-n', case['n']]
    a = [*pre, 'metric', *m, *oargs, im] if case['first'] else [*pre, 'metric', im, *m, *oargs]
    code, out, err = cli.run(a)
    require(code == 0, 'command failed', code=code, err=err)
    head, rows = table(out)
    rec.label(f'{len(ims)} images', f'{len(asked)} metrics', *gss, 'colour' if 'irradiance' in metrics else 'grey')
    want = []
    for i in ims:
        v = list(np.asarray(imagetools.imgmetric(i, list(metrics), **kw), float)) if metrics else []
        for s in ('gss', 'gssnb'):
            if s in gss:
                g = GSS(ViewMapper(viewangle=180), **({} if s == 'gss' else dict(psf=False, adaptmove=False, directmove=False)))
                g.lum = i
                v.append(g.compute())
        want.append(v)
    labels = []
    for i in metrics:
        labels += [i] * (3 if i == 'irradiance' else 1)
    labels += [i for i in ('gss', 'gssnb') if i in gss]
    require(head[0] == 'image' and len(head) == 1 + len(labels), 'one label for each column', head=head, labels=labels)
    for h, l in zip(head[1:], labels):
        require(h == l or l == 'irradiance' and h.startswith(l), 'labels in the order of the columns', head=head, labels=labels)
    require([r[0] for r in rows] == ims, 'one line per image in the order given', got=[r[0] for r in rows], ims=ims)
    for r, w in zip(rows, want):
        require(len(r) == len(head), 'values per line', line=r)
        close(np.array(r[1:], float), w, f'values of {r[0]} for {labels}', rtol=1.01e-5, atol=1e-9)
    rec.nontrivial(len(asked) > 1 and len(set(map(str, want))) > 1)
    for n in files:
        require(open(n, 'rb').read() == before[n], 'images are unchanged')
    if case['gssimage'] and gss:
        for n in files:
            f = n.rsplit('.', 1)[0] + '_rg.hdr'
            require(os.path.exists(f), 'response image', f=f)
            require(hdr.decode(f)[1].shape[1:] == hdr.decode(n)[1].shape[1:], 'size of the response image')
    for n in files:
        f = n.rsplit('.', 1)[0] + '_rg.hdr'
        if os.path.exists(f):
            require(case['gssimage'] and gss, 'response image not asked for')
            os.remove(f)


@CHECK.sub('scores', d(seed=seeds, res=st.integers(300, 420), n=st.integers(1, 2), gss=st.sampled_from([['gss'], ['gssnb'], ['gss', 'gssnb'], ['gssnb', 'gss'], ['gssnb', 'illum', 'gss']]), x=st.floats(.2, .8), y=st.floats(.2, .8)), quick=5, thorough=60)
def scores(case, rec):
    """sensation scores of images large enough to be blurred: each below its label"""
    files, want = [], []
    for k in range(case['n']):
        r = case['res']
        a = gen.noise(case['seed'] + k, (3, r, r), .1, 1)
        i, j = int(case['x'] * r), int(case['y'] * r)
        a[:, i:i + 3 + k, j:j + 4] = 2e3 / (k + 1)
        hdr.write(NAMES[k], a, [])
        files.append(NAMES[k])
    for f in files:
        w = {}
        for s in ('gss', 'gssnb'):
            g = GSS(ViewMapper(viewangle=180), **({} if s == 'gss' else dict(psf=False, adaptmove=False, directmove=False)))
            g.lum = f
            w[s] = g.compute()
        rec.nontrivial(abs(w['gss'] - w['gssnb']) > 1e-4 * abs(w['gss']))
        want.append(w)
    rec.label(' '.join(case['gss']))
    code, out, err = cli.run(['metric', ' '.join(map(shlex.quote, files)), '-metrics', ' '.join(case['gss'])])
    require(code == 0, 'command failed', code=code, err=err)
    head, rows = table(out)
    require(sorted(head[1:]) == sorted(case['gss']), 'labels', head=head)
    for r, w, f in zip(rows, want, files):
        require(r[0] == f, 'order of images')
        for h, v in zip(head[1:], r[1:]):
            if h in w:
                close(float(v), w[h], f'{h} of {f}', rtol=1.01e-5, atol=1e-9)


@CHECK.sub('errors', d(kind=st.sampled_from(['metric', 'missing', 'text', 'truncated', 'option', 'empty']), at=st.integers(0, 3), n=st.integers(1, 3), seed=seeds, gss=st.booleans(), parallel=st.booleans()), quick=60, thorough=800)
def errors(case, rec):
    """invalid metrics or files: an error and no (partial) output"""
    k = case['kind']
    files = [put(NAMES[i], dict(seed=case['seed'] + i, res=10, view='180', dxyz=[0, 1, 0], lum=None, peak=0), False) for i in range(case['n'])]
    metrics = ['illum', 'dgp', 'ugr'] + (['gss'] if case['gss'] else [])
    bad = None
    if k == 'metric':
        metrics.insert(case['at'] % len(metrics), ['bogus', 'Illum', '_vec', 'vec', 'lum'][case['seed'] % 5])
    elif k == 'missing':
        bad = 'nothere.hdr'
    elif k == 'text':
        bad = 'text.hdr'
        open(bad, 'w').write('this is not an image\n')
    elif k == 'empty':
        bad = 'empty.hdr'
        open(bad, 'w').close()
    elif k == 'truncated':
        bad = 'trunc.hdr'
        b = open(files[0], 'rb').read()
        open(bad, 'wb').write(b[:len(b) - 150])
    if bad:
        files.insert(case['at'] % (len(files) + 1), bad)
    a = ['metric', ' '.join(map(shlex.quote, files)), '-metrics', ' '.join(metrics)]
    if not case['parallel']:
        a.append('--no-parallel')
    if k == 'option':
        a += ['-threshold', 'much']
    rec.label(k)
    rec.nontrivial(len(files) > 1)
    code, out, err = cli.run(a)
    require(code != 0, 'an error code', kind=k, out=out[:300])
    require(out.strip() == b'', 'no partial output', kind=k, out=out[:300])


@CHECK.sub('process', d(seed=seeds, metrics=st.sampled_from(['illum avglum', 'dgp irradiance ugr', 'gss illum']), n=st.integers(1, 3)), quick=2, thorough=25)
def process(case, rec):
    """the installed command in its own process"""
    files = [put(NAMES[i], dict(seed=case['seed'] + i, res=10, view='180', dxyz=[0, 1, 0], lum=None, peak=0), True) for i in range(case['n'])]
    a = ['metric', ' '.join(map(shlex.quote, files)), '-metrics', case['metrics']]
    rec.nontrivial()
    code, out, err = cli.run(a)
    p = subprocess.run([sys.executable, '-c', 'from raytools.cli import main; main()', *a], env=dict(os.environ, PYTHONPATH=REPO), capture_output=True)
    require(p.returncode == 0 and code == 0, 'command failed', err=p.stderr[-400:])
    require(p.stdout == out, 'same output in another process', out=p.stdout, here=out)
