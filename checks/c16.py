import os

import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, equal, arr
import gen
import hdr
from gen import d, seeds
from raytools import io

CHECK = Check('C16', rule='cases: grey or colour image (1-40 by 1-40, up to 300 long in one class) with values over many decades, zero '
              'pixels and channels of different magnitude, array layout and type, file name (spaces, quotes, shell characters, '
              'sub-directory), header, pixel order of the file. Non-trivial: the image is not constant and width differs from height.',
              assumptions=['finite values >= 0, zero or between 1e-28 and 1e28', 'file names without a leading dash, "$(" or '
                           'control characters'])
#: technique: property-based testing: round trip, and differential against an independent RGBE decoder and Radiance pvalue


def image(case, color):
    w, h, s = case['w'], case['h'], case['seed']
    k = case['content']
    sh = (3, w, h) if color else (w, h)
    if k == 'constant':
        return np.full(sh, case['level'])
    if k == 'uniform':
        a = gen.noise(s, sh) * case['level']
    elif k == 'decades':
        a = 10.0 ** gen.noise(s, sh, -4, 4)
    elif k == 'extreme':
        a = 10.0 ** gen.noise(s, sh, -27, 27)
    elif k == 'index':
        a = np.arange(np.prod(sh), dtype=float).reshape(sh) + 1
    else:
        # runs of equal pixels
        a = np.round(gen.noise(s, sh) * 1.6) * case['level'] + .25
    if case['zeros']:
        z = gen.noise(s + 1, (w, h)) < .3
        a = np.where(z, 0, a)
        if color and case['zeros'] > 1:
            a = np.where(gen.noise(s + 2, sh) < .3, 0, a)
    return a


def layout(a, case):
    a = gen.lay(a, case['lay'])
    if case['dt'] == 'f4':
        return a.astype(np.float32)
    if case['dt'] == 'int' and case['content'] == 'index':
        return a.astype(int)
    return a


def path(case):
    if case['dir']:
        os.makedirs(case['dir'], exist_ok=True)
        return os.path.join(case['dir'], case['name'])
    return case['name']


dims = st.one_of(st.tuples(st.integers(1, 40), st.integers(1, 40)), st.tuples(st.integers(1, 12), st.integers(1, 12)),
                 st.tuples(st.integers(1, 300), st.integers(1, 4)), st.tuples(st.integers(1, 4), st.integers(1, 300))).map(list)
common = dict(wh=dims, seed=seeds, zeros=st.integers(0, 2), level=gen.logfl(1e-5, 1e5), lay=gen.layout, dt=st.sampled_from(['f8', 'f4', 'int']),
              content=st.sampled_from(['uniform', 'decades', 'extreme', 'index', 'runs', 'constant']), name=hdr.name, dir=hdr.subdir,
              hdr=st.sampled_from([None, ['A= 1'], ['x', 'y= "q"'], []]))


def nt(case, rec):
    case['w'], case['h'] = case['wh']
    rec.nontrivial(case['w'] != case['h'] and case['content'] != 'constant')
    rec.label(case['content'], 'zeros' if case['zeros'] else 'no zeros', 'special name' if not case['name'].isidentifier() else 'name')


def decoded(p):
    return hdr.decode(p)


def common_checks(p, case, color, got):
    lines, ref, raw = decoded(p)
    c = arr(io.hdr2carray(p), ref.shape, 'hdr2carray')
    close(c, ref, 'colour read against the decoded file', rtol=1e-6, atol=0)
    g = arr(io.hdr2array(p), ref.shape[1:], 'hdr2array')
    close(g, np.einsum('i,ijk->jk', gen.RADLUM, ref), 'grey read against the decoded file', rtol=2e-5, atol=0)
    vl = gen.noise(case['seed'] + 9, 3, .05, 1.5).tolist() if case['seed'] % 2 else [.2, .5, .3]
    close(io.hdr2array(p, vlambda=vl), np.einsum('i,ijk->jk', vl, ref), 'grey read with coefficients', rtol=1e-5, atol=0)
    # from an open file
    with open(p, 'rb') as f:
        equal(io.hdr2carray('', stdin=f), c, 'colour read from an open file')
    with open(p, 'rb') as f:
        equal(io.hdr2array('', stdin=f), g, 'grey read from an open file')
    with open(p, 'rb') as f:
        close(io.hdr2array('', stdin=f, vlambda=vl), np.einsum('i,ijk->jk', vl, ref), 'grey read with coefficients from an open file', rtol=1e-5, atol=0)
    # writing what was read does not change a pixel
    os.makedirs('again', exist_ok=True)
    q = os.path.join('again', case['name'])
    io.carray2hdr(c, q)
    equal(io.hdr2carray(q), c, 'colour read, written and read again')
    equal(decoded(q)[2], raw, 'file of the image written again')
    # standard input instead of a path
    with open(p, 'rb') as f:
        equal(io.hdr2carray('', stdin=f), c, 'image read from standard input')
    with open(p, 'rb') as f:
        equal(io.hdr2array('', stdin=f), g, 'grey image read from standard input')
    r, h = io.hdr2carray(p, header=True)
    equal(r, c, 'image read with header')
    r, h2 = io.hdr2array(p, header=True)
    equal(r, g, 'image read with header')
    require(list(h) == list(h2) == list(io.hdr_header(p)), 'header')
    os.remove(q)
    os.remove(p)
    return g, c


@CHECK.sub('grey', d(**common), quick=300, thorough=5000)
def grey(case, rec):
    nt(case, rec)
    a = image(case, False)
    p = path(case)
    ret = io.array2hdr(layout(a, case), p, header=case['hdr'])
    require(ret == p, 'returned path', ret=ret)
    a = np.asarray(layout(a, case), float)
    lines, ref, raw = decoded(p)
    for c in ref:
        require(c.shape == a.shape, 'image shape', shape=c.shape)
        require(np.all(np.abs(c - a) <= a / 255 + 1e-37), 'grey pixel differs by more than the format precision',
                worst=float(np.max(np.abs(c - a) / np.where(a > 0, a, 1))))
        require(not np.any(c[a == 0]), 'zero pixel')
    g, c = common_checks(p, case, False, a)
    require(np.all(np.abs(g - a) <= a / 255 + 1e-37), 'grey value read back',
            worst=float(np.max(np.abs(g - a) / np.where(a > 0, a, 1))))
    # grey written again: stays within one further rounding
    io.array2hdr(g, 'g2.hdr')
    g2 = io.hdr2array('g2.hdr')
    close(g2, g, 'grey read, written and read again', rtol=2e-5, atol=0)


@CHECK.sub('colour', d(via=st.booleans(), **common), quick=300, thorough=5000)
def colour(case, rec):
    nt(case, rec)
    a = image(case, True)
    p = path(case)
    (io.array2hdr if case['via'] else io.carray2hdr)(layout(a, case), p, header=case['hdr'])
    a = np.asarray(layout(a, case), float)
    lines, ref, raw = decoded(p)
    require(ref.shape == a.shape, 'image shape', shape=ref.shape)
    m = a.max(0)
    require(np.all(np.abs(ref - a) <= m / 255 + 1e-37), 'pixel differs by more than the format precision')
    require(not np.any(ref[:, m == 0]), 'zero pixel')
    common_checks(p, case, True, a)


@CHECK.sub('foreign', d(order=st.one_of(st.just('-Y+X'), st.sampled_from(hdr.ORDERS)), **common), quick=250, thorough=2500)
def foreign(case, rec):
    """images written by something else"""
    nt(case, rec)
    a = image(case, True)
    p = path(case)
    hdr.write(p, a, ['SOFTWARE= other'] + (case['hdr'] or []), order=case['order'])
    rec.label(case['order'])
    if max(case['wh']) >= 8:
        # first pixel of a line could look like a run length marker
        with open(p, 'rb') as f:
            if b'\x02\x02' in f.read():
                rec.exclude('looks like run length coding')
                return
    m = a.max(0)
    c = io.hdr2carray(p)
    require(np.shape(c) == a.shape and np.all(np.abs(c - a) <= m / 128 + 1e-37), 'foreign image')
    common_checks(p, case, True, a)
