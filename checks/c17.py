import os

import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, equal, raises, fail
import gen
import hdr
from gen import d, seeds
from raytools import io

CHECK = Check('C17', rule='cases: lists of header lines of any printable text (quotes, backslashes, shell characters, unicode, "=", '
              'tabs, RADIANCE or error words, long lines), keys in any letter case; file contents from empty to binary. '
              'Non-trivial: at least two header lines or a key that occurs more than once, or a file that is not an image.',
              assumptions=['header lines hold no control or line separator characters and are not empty',
                           'a line ending with ":" names a file, "..." continues a wrapped line',
                           'looked up keys are distinct, without white space'])
#: technique: property-based testing: round trip of generated header text, lookups against a reference, generated non-image files

ODD = ['"', "'", '\\', '$', '`', '%', '*', '?', '~', '#', '!', ';', '&', '|', '<', '>', '(', ')', '{', '}', '[', ']', '^', '@', ',', '.', ':',
       '=', '-', '+', '/', '\t', ' ']
text = st.text(st.one_of(st.sampled_from(ODD), st.sampled_from(list('abcxyzABC019 ')),
                         st.characters(min_codepoint=33, max_codepoint=0x2fff, exclude_categories=('Cc', 'Cs', 'Zl', 'Zp', 'Zs', 'Cn'))),
               min_size=1, max_size=60)
line = st.one_of(
    text, text,
    st.sampled_from(['VIEW= -vta -vd 0 1 0 -vh 180 -vv 180', 'RADIANCE', '#?RADIANCE', 'a #?RADIANCE', 'x.hdr: cannot open', 'bad header!',
                     'cannot open', 'getinfo: bad header!', '-a', '-r', '--', '-', '=', 'A=', 'A= "b c"', "A='x'", 'a\\nb', '%s %d', '$HOME `ls`',
                     'FORMAT of', '+X 10 -Y 10', 'rvu -vf a b', '#comment', '\\', '\\\\', '"', "'", '" "', 'a  b   c', 'A=\t1', '{}', '*']),
    st.tuples(st.sampled_from(['A', 'B', 'SOFTWARE']), text).map('='.join),
    st.tuples(st.sampled_from('ab-=\\"'), st.integers(1, 1500)).map(lambda t: t[0] * t[1])
).map(str.strip).filter(lambda s: s and len(s.splitlines()) == 1 and not s.isspace())
RESERVED = ('EXPOSURE', 'PIXASPECT', 'COLORCORR', 'PRIMARIES', 'FORMAT', 'NCOMP', 'NCOLS', 'NROWS', 'BigEndian', 'WAVELENGTH')


@CHECK.sub('lines', d(lines=st.lists(line, min_size=1, max_size=12), more=st.sampled_from([0, 0, 0, 0, 60, 300]), color=st.booleans(), name=hdr.name), quick=500, thorough=12000)
def lines(case, rec):
    want = [s for s in case['lines'] if not s.startswith(RESERVED)]
    # long headers
    want += [f'M{i}= {"w" * (i % 7 + 1)}' for i in range(case['more'])] + want[:case['more']]
    if not want:
        rec.exclude('only reserved variables')
        return
    rec.nontrivial(len(want) > 1)
    a = gen.noise(1, (3, 4, 2) if case['color'] else (4, 2))
    p = case['name']
    ret = io.array2hdr(a, p, header=list(want))
    got = [s.strip() for s in io.hdr_header(p)]
    head, _, _ = hdr.decode(p)
    require(contains(head[1:], want), 'lines in the file', lines=want, file=head)
    exp = [s for s in want if not s.startswith('#?RADIANCE')]
    rec.label('magic line' if exp != want else 'no magic line', 'long' if max(map(len, want)) > 200 else 'short')
    require(contains(got, exp), 'header lines read back', want=exp, got=got)
    # nothing but the lines, the program and the format is in the header
    rest = list(got)
    for s in exp:
        rest.remove(s)
    require(len(rest) <= 3 and all(s.startswith(('pvalue', 'FORMAT=')) or s == p + ':' for s in rest), 'other header lines', rest=rest)
    img, h = io.hdr2carray(p, header=True)
    require([s.strip() for s in h] == got, 'header read with the image', got=h)
    img, h = io.hdr2array(p, header=True)
    require([s.strip() for s in h] == got, 'header read with the grey image', got=h)
    require(bool(io.is_hdr(p)), 'written image is recognised')
    os.remove(p)


def contains(got, want):
    """want is a contiguous part of got"""
    n = len(want)
    return any(got[i:i + n] == want for i in range(len(got) - n + 1))


key = st.sampled_from(['VIEW', 'view', 'View', 'LuminanceRGB', 'LUMINANCERGB', 'A', 'a', 'SOFTWARE', 'rpict', 'RPICT', 'CAPDATE', 'x1', 'EXPOSURE', 'vIEW', 'luminanceRGB', 'rPict', 'softwarE', 'X1', 'capDate',
                       'exposure', 'Exposure'])
val = st.one_of(st.sampled_from(['', '1', ' .3 .6 .1', '= =', ' a=b', '-vta -vd 0 1 0', '"q r"', 'x' * 200, 'word ' * 60]), text).map(
    lambda s: ' '.join(s.split()))
items = st.lists(st.one_of(st.tuples(st.just('var'), key, val), st.tuples(st.just('cmd'), key, val),
                           st.tuples(st.just('other'), text, st.just('')), st.tuples(st.just('file'), st.sampled_from(['a.hdr', 'b c']), st.just(''))).map(list),
                 min_size=1, max_size=14)
KEYS = ['view', 'luminancergb', 'a', 'software', 'rpict', 'capdate', 'x1', 'exposure', 'absent', 'format1']


@CHECK.sub('lookup', d(items=items, want=st.permutations(KEYS), n=st.integers(1, 10), case=st.sampled_from(['lower', 'upper', 'title', 'mixed']), tabs=st.integers(0, 3),
                       space=st.sampled_from(['', ' ', '  ']), via=st.booleans()), quick=600, thorough=15000)
def lookup(case, rec):
    last, out, counts = {}, [], {}
    for kind, k, v in case['items']:
        if kind == 'var':
            s = f'{k}={case["space"]}{v}'.rstrip()
        elif kind == 'cmd':
            s = f'{k} {v}'.rstrip()
            if '=' in s:
                continue
        elif kind == 'other':
            s = k.strip()
            if not s or len(s.splitlines()) != 1 or s.split('=')[0].split()[:1] and s.split('=')[0].split()[0].lower() in KEYS:
                continue
        else:
            s = k + ':'
        if kind != 'file' and s.endswith(':') or s.startswith('...'):
            continue
        out.append('\t' * case['tabs'] * (kind != 'file') + s)
        if kind in ('var', 'cmd'):
            last[k.lower()] = v
            counts[k.lower()] = counts.get(k.lower(), 0) + 1
    rec.nontrivial(max(counts.values(), default=0) > 1)
    want = list(case['want'][:case['n']])
    exp = [last.get(k, '') for k in want]
    ask = [dict(lower=k, upper=k.upper(), title=k.title(), mixed=k[:1] + k[1:].upper())[case['case']] for k in want]
    if case['via'] and out and all(len(s) < 500 for s in out):
        o2 = [s for s in out if not s.strip().startswith(RESERVED)]
        if o2 == out and not any('#?RADIANCE' in s for s in out):
            rec.label('from a file')
            io.array2hdr(np.ones((2, 3)), 'f.hdr', header=out)
            got = io.hdr_header('f.hdr', items=ask)
            require(list(got) == exp, 'lookup of the header of a file', keys=ask, got=got, want=exp, header=out)
            require(list(io.hdr_header('f.hdr', items=[])) == [], 'lookup of no key')
            require(list(io.hdr_header('f.hdr', items=tuple(ask[:1]))) == exp[:1], 'lookup of one key')
    require(list(io.header_items(out, [])) == [], 'lookup of no key')
    got = io.header_items(out, ask)
    require(list(got) == exp, 'header lookup', keys=ask, got=got, want=exp, header=out)
    # long lines continued on the next
    wrapped = []
    for s in out:
        ind = s[:len(s) - len(s.lstrip())]
        w = s.split(' ')
        if len(s) > 100 and not any(i.startswith('...') or not i for i in w) and len(''.join(w[:9]).strip()) > 0:
            for i in range(0, len(w), 9):
                wrapped.append((ind + '   ...  ' if i else '') + ' '.join(w[i:i + 9]))
            rec.label('wrapped')
        else:
            wrapped.append(s)
    got = io.header_items(wrapped, ask)
    require(list(got) == exp, 'lookup of wrapped lines', keys=ask, got=got, want=exp, header=wrapped)


content = st.one_of(
    st.tuples(st.just('bytes'), st.binary(max_size=200)).map(lambda t: [t[0], t[1].hex()]),
    st.tuples(st.just('text'), text.filter(lambda s: '\n' not in s)).map(list),
    st.tuples(st.just('truncated'), st.integers(0, 60)).map(list), st.tuples(st.just('magic'), st.sampled_from(
        ['#?RADIANC', ' #?RADIANCE', '#?radiance', '#?RGBE', 'P6', '\x89PNG\r\n', '#RADIANCE', '?#RADIANCE', ''])).map(list),
    st.tuples(st.just('image'), st.just('')).map(list), st.tuples(st.just('missing'), st.just('')).map(list))


@CHECK.sub('files', d(c=content, name=hdr.name, more=st.booleans()), quick=400, thorough=8000)
def files(case, rec):
    """recognition of files, missing files, files that are no images"""
    kind, c = case['c']
    p = case['name']
    rec.label(kind)
    rec.nontrivial(kind != 'image')
    if kind == 'missing':
        for f in (lambda: io.hdr_header(p), lambda: io.hdr2array(p), lambda: io.hdr2carray(p), lambda: io.hdr2array(p, header=True),
                  lambda: io.hdr_header(p, items=['view']), lambda: io.hdr_header(p, clean=True), lambda: io.hdr2array(p, vlambda=(.2, .7, .1))):
            raises((FileNotFoundError, ValueError), f, 'missing image')
        require(not os.path.exists(p), 'reading created a file')
        return
    if kind == 'image' or kind == 'truncated':
        io.array2hdr(gen.noise(1, (5, 4)), p, header=['A= 1'])
        with open(p, 'rb') as f:
            b = f.read()
        if kind == 'truncated':
            b = b[:c]
            # headers end with an empty line
            require(len(b.split(b'\n\n')) == 1, 'harness')
    elif kind == 'bytes':
        b = bytes.fromhex(c).replace(b'\n\n', b'\n')
    else:
        b = (c + ('\nmore text\nx' if case['more'] else '')).encode()
    with open(p, 'wb') as f:
        f.write(b)
    require(bool(io.is_hdr(p)) == b.startswith(b'#?RADIANCE'), 'is_hdr', content=b[:12])
    if kind == 'image':
        require(io.hdr2array(p).shape == (5, 4), 'image')
    else:
        # no header end, no image
        for f in (lambda: io.hdr2array(p), lambda: io.hdr2carray(p)):
            raises((OSError, ValueError), f, 'pixels of a file that is not an image')
        raises((OSError, ValueError), lambda: io.hdr_header(p), 'header of a file that is not an image')
    os.remove(p)
