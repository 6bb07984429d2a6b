import os

import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, equal, raises
import gen
from gen import d, seeds
from raytools import io

CHECK = Check('C19', rule='cases: arrays of 1-4 dimensions (zero-length ones too) with any bit patterns or values, source dtype, dtype '
              'string, layout and split into appended pieces; text tables and arguments of the wrong kind. Non-trivial: more than one '
              'dimension or piece, or a file that cannot be loaded.',
              assumptions=['values that the target dtype can hold (no out-of-range float to integer casts)'])
#: technique: property-based testing: round trip against numpy casts, generated bad arguments and files

DT = ['<f', '<f4', '<d', '<f8', '>f', '>d', 'f', 'd', '<i', '<i4', '>i4', '<i8', '>i2', 'u1', 'B', '<u2', '>u4', '?', '<f2', 'float', 'int', '<F']
DT += [o + k for k in ('f2', 'f4', 'f8', 'i2', 'i4', 'i8', 'u2', 'u4', 'u8', 'c8', 'c16') for o in '<>']
SRC = ['f4', '<i8', 'c8', 'f8', 'f4', '>f8', 'i8', 'i4', 'u1', '?', '>i2']


def make(case):
    sh = tuple(case['shape'])
    n = int(np.prod(sh))
    s = case['seed']
    if case['content'] == 'bits':
        a = gen.bits(s, n).view('f8').reshape(sh).copy()
        a = np.where(np.isfinite(a), a, np.inf)
    elif case['content'] == 'special':
        sp = np.array([0., -0., 1, -1, np.inf, -np.inf, np.nan, 1e-45, 1e-300, 1e38, 3.4e38, .1, 2 ** 24 + 1])
        a = sp[gen.ints(s, n, 0, len(sp))].reshape(sh)
    else:
        a = gen.noise(s, sh, 0, 100)
    if np.dtype(case['dt']).kind in 'iu' or np.dtype(case['src']).kind in 'iu':
        a = np.floor(gen.noise(s, sh, 0, 120))
    with np.errstate(all='ignore'):
        a = a.astype(case['src'])
    if a.dtype.kind == 'c' and np.dtype(case['dt']).kind != 'c':
        a = a.real
    return gen.lay(a, case['lay'])


shape = st.one_of(st.lists(st.integers(1, 7), min_size=1, max_size=4), st.lists(st.integers(0, 5), min_size=1, max_size=3),
                  st.tuples(st.integers(1, 3000)).map(list))
content = st.sampled_from(['noise', 'bits', 'special'])


@CHECK.sub('binary', d(shape=shape, seed=seeds, content=content, dt=st.sampled_from(DT), src=st.sampled_from(SRC), lay=gen.layout,
                       default=st.booleans(), cuts=st.lists(st.floats(0, 1), max_size=4)), big=[(5, {'shape': st.lists(st.integers(20, 50), min_size=2, max_size=3)})], quick=900, thorough=30000)
def binary(case, rec):
    if case['default']:
        case['dt'] = '<f'
    a = make(case)
    sh = a.shape
    kw = {} if case['default'] else dict(dtype=case['dt'])
    with np.errstate(all='ignore'):
        want = np.array(a, copy=True).astype(np.dtype(case['dt']))
    rec.label(case['content'], f'{len(sh)} dims')
    rec.nontrivial(len(sh) > 1 and a.size > 0)
    b = io.np2bytes(a, **kw)
    require(isinstance(b, bytes), 'np2bytes type', type=type(b))
    require(b == want.tobytes(), 'np2bytes is not the row major data', n=len(b), want=want.nbytes)
    same(io.bytes2np(b, sh, **kw), want, 'bytes2np')
    same(io.bytes2np(b, list(sh), **kw), want, 'bytes2np with a list')
    if a.size:
        same(io.bytes2np(b, (-1,) + sh[1:], **kw), want, 'bytes2np with an inferred axis')
        if len(b) > 1:
            raises(ValueError, lambda: io.bytes2np(b, (sh[0] + 1, *sh[1:]), **kw), 'too few bytes')
            raises(ValueError, lambda: io.bytes2np(b + b[:want.itemsize], sh, **kw), 'too many bytes')
            if sh[0] > 1:
                raises(ValueError, lambda: io.bytes2np(b, (sh[0] - 1, *sh[1:]), **kw), 'shape smaller than the data')
                with open('more.bin', 'wb') as o:
                    o.write(b)
                with open('more.bin', 'rb') as o:
                    raises(ValueError, lambda: io.bytefile2np(o, (sh[0] - 1, *sh[1:]), **kw), 'file larger than the shape')
    # whole file, pieces appended to a file
    f = 'v.bin'
    with open(f, 'wb') as o:
        o.write(b'left over')
    io.np2bytefile(a, f, **kw)
    require(open(f, 'rb').read() == b, 'np2bytefile')
    with open(f, 'rb') as o:
        same(io.bytefile2np(o, sh, **kw), want, 'bytefile2np')
    cuts = [0] + sorted(int(c * sh[0]) for c in case['cuts']) + [sh[0]]
    g = 'p.bin'
    if os.path.exists(g):
        os.remove(g)
    for i, (x, y) in enumerate(zip(cuts[:-1], cuts[1:])):
        io.np2bytefile(a[x:y], g, mode='ab', **kw)
    rec.nontrivial(len(cuts) > 2)
    with open(g, 'rb') as o:
        same(io.bytefile2np(o, sh, **kw), want, 'appended pieces')
    # the other modes of open
    io.np2bytefile(a[:1], f, mode='r+b', **kw)
    require(open(f, 'rb').read() == b, 'start of an existing file')
    raises(FileExistsError, lambda: io.np2bytefile(a, f, mode='xb', **kw), 'new file of an existing name')
    require(open(f, 'rb').read() == b, 'existing file')
    io.np2bytefile(a, f, mode='ab', **kw)
    require(open(f, 'rb').read() == b + b, 'appended to a file')
    with open(g, 'rb') as o:
        # from the current position on
        k = want[:cuts[1]].nbytes
        o.seek(k)
        same(io.bytefile2np(o, (sh[0] - cuts[1], *sh[1:]), **kw), want[cuts[1]:], 'rest of a file')


def same(a, want, msg):
    require(isinstance(a, np.ndarray) and a.shape == want.shape, f'{msg}: shape', got=np.shape(a), want=want.shape)
    require(a.dtype == want.dtype, f'{msg}: dtype', got=a.dtype, want=want.dtype)
    require(np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(want).tobytes(), f'{msg}: values differ', got=a.ravel()[:6], want=want.ravel()[:6])


bad = st.one_of(
    st.sampled_from(['x', 'a b c', '1 2\n3', '1,2', '1 2 three\n', 'nan', '1e5\n#c\n2', '1 2\n3 4 5', '0x10', '--', '1 2 3\n\n4 5 6', '# only', '1..2',
                     '#?RADIANCE\nFORMAT=1\n\n']),
    st.lists(st.lists(st.sampled_from(['1', '2.5', '-3e2', 'x', '', '#', 'nan', 'inf', '1+2j', "'1'"]), min_size=1, max_size=3).map(' '.join), min_size=1,
             max_size=4).map('\n'.join))
notstr = ['None', '1', '1.5', '[1, 2]', "['a.txt']", '(1,)', '{}', 'array', 'True', 'object', 'path']


@CHECK.sub('text', d(shape=st.lists(st.integers(1, 6), min_size=1, max_size=2), seed=seeds, fmt=st.sampled_from(['%.18e', '%g', '%d', '%.3f']),
                     delim=st.sampled_from([' ', '\t', ',', '  ']), head=st.booleans(), as_bytes=st.booleans(), bad=bad, other=st.sampled_from(notstr),
                     name=st.sampled_from(['d.txt', 'a b.txt', "d'x.dat", 'noext'])), big=[(4, {'shape': st.lists(st.integers(30, 120), min_size=2, max_size=2)})], quick=500, thorough=10000)
def text(case, rec):
    a = np.round(gen.noise(case['seed'], tuple(case['shape']), -99, 99), 3)
    p = case['name']
    arg = p.encode() if case['as_bytes'] else p
    rec.nontrivial()
    # data
    np.savetxt(p, a, fmt=case['fmt'], delimiter=case['delim'], header='comment' if case['head'] else '')
    kw = dict(delimiter=',') if case['delim'] == ',' else {}
    want = np.loadtxt(p, **kw)
    equal(io.load_txt(arg, **kw), want, 'table')
    if a.ndim == 2 and a.shape[1] > 1:
        equal(io.load_txt(arg, usecols=(1,), **kw), np.loadtxt(p, usecols=(1,), **kw), 'options')
    equal(io.load_txt(arg, ndmin=2, unpack=True, **kw), np.loadtxt(p, ndmin=2, unpack=True, **kw), 'options')
    # unparsable content
    with open(p, 'wb') as f:
        f.write(b'\x80\xff\x00' if case['bad'] == '--' else case['bad'].encode())
    try:
        want = np.loadtxt(p)
    except ValueError:
        rec.label('bad content')
        raises(ValueError, lambda: io.load_txt(arg), 'file that is no table')
    else:
        rec.label('good content')
        equal(io.load_txt(arg), want, 'loadable content')
    os.remove(p)
    # missing file and directory
    raises(FileNotFoundError, lambda: io.load_txt(arg), 'missing file')
    raises(FileNotFoundError, lambda: io.load_txt('missing/' + p), 'missing directory')
    raises(FileNotFoundError, lambda: io.load_txt(''), 'empty name')
    os.makedirs('folder', exist_ok=True)
    raises(FileNotFoundError, lambda: io.load_txt(b'folder' if isinstance(arg, bytes) else 'folder'), 'name of a directory')
    # not a name
    import pathlib
    v = {'array': a, 'object': object(), 'path': pathlib.Path(p)}.get(case['other'])
    if v is None:
        v = eval(case['other'])
    raises(TypeError, lambda: io.load_txt(v), f'argument {case["other"]}')


@CHECK.sub('large', d(n=st.sampled_from([2**16 - 1, 2**16, 10**6, 2**20 + 1, 2**21 + 3, 5 * 10**6]), cols=st.sampled_from([None, 3]), dt=st.sampled_from(['<f', '<f8', '>f', '<u2', '<i4']),
                      seed=seeds, parts=st.integers(1, 3)), quick=6, thorough=150)
def large(case, rec):
    """files of several megabytes"""
    n = case['n'] // (case['cols'] or 1)
    sh = (n, case['cols']) if case['cols'] else (n,)
    a = (np.arange(int(np.prod(sh)), dtype=float) * 7 + case['seed'] % 1000).reshape(sh) % 65521
    want = a.astype(case['dt'])
    rec.nontrivial(want.nbytes > 2**20)
    rec.label(f'{len(sh)} dims', f'{want.nbytes >> 20} MiB')
    cuts = [n * i // case['parts'] for i in range(case['parts'] + 1)]
    for i, (x, y) in enumerate(zip(cuts, cuts[1:])):
        io.np2bytefile(a[x:y], 'l.bin', dtype=case['dt'], mode='ab' if i else 'wb')
    require(os.path.getsize('l.bin') == want.nbytes, 'size of the file', got=os.path.getsize('l.bin'), want=want.nbytes)
    with open('l.bin', 'rb') as f:
        same(io.bytefile2np(f, sh, dtype=case['dt']), want, 'large file')
    with open('l.bin', 'rb') as f:
        f.seek(want[:5].nbytes)
        same(io.bytefile2np(f, (-1, *sh[1:]), dtype=case['dt']), want[5:], 'rest of a large file')
    os.remove('l.bin')
