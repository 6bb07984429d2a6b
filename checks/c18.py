import random
import re

import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, equal, close
import gen
import hdr
from gen import d, seeds
from raytools import io, imagetools

CHECK = Check('C18', rule='cases: header trees (file groups nested up to four deep, commands, variables, views, exposures, repeated '
              'and long lines, tabs or spaces), arbitrary text, and header files rewritten with their cleaned header. '
              'Non-trivial: a nested group and a repeated, a wrapped or a dropped line.',
              assumptions=['a line ending with ":" names a file, "..." continues a wrapped line',
                           'order is only defined for lines that occur once; runs of white space of a wrapped line count as one space'])
#: technique: property-based testing and text fuzzing: reference model of the header tree, idempotence, rewritten images

CUM = ('EXPOSURE', 'COLORCORR', 'PIXASPECT')
word = st.text(st.sampled_from(list('abcxyz019-_./"\'%()+@')), min_size=1, max_size=12)
cmd = st.tuples(st.sampled_from(['rpict', 'oconv', 'pfilt -1', 'rcontrib -n', 'pcomb -e', 'hdr_rotate']), st.lists(word, max_size=5),
                st.one_of(st.just(0), st.just(0), st.integers(0, 60)), st.integers(0, 10 ** 6)).map(
    lambda t: ' '.join([t[0], *t[1], *(f'w{t[3]}-{i}' for i in range(t[2]))]))
var = st.tuples(st.sampled_from(['SOFTWARE', 'CAPDATE', 'LuminanceRGB', 'X', 'Y1', 'TARGET']), st.sampled_from(['=', '= ']),
                st.lists(word, max_size=4), st.one_of(st.just(0), st.just(0), st.integers(0, 60)), st.integers(0, 10 ** 6)).map(
    lambda t: t[0] + t[1] + ' '.join([*t[2], *(f'w{t[4]}-{i}' for i in range(t[3]))]))
leaf = st.one_of(
    cmd, var, var, st.sampled_from(['SOFTWARE= a', 'X=1', 'X=2', 'Y1= 1 2', 'rpict -x 1', 'oconv a.rad', 'EXPOSURE=2', 'EXPOSURE=1', 'EXPOSURE=.5', 'one',
                                    'a  b   c', 'pcomb -e "x=1 y"', 'rcontrib -e a=1', 'rcontrib -e a=2', 'f /tmp/clasp_tmp12ab b', 'pcomb /tmp/clasp_tmp1 x/clasp_tmp2 c', 'PIXASPECT=1', 'x' * 180,
                                    'a ' + 'y' * 170 + ' b', 'a==b', '=b', 'pvalues x', 'pvalue2=3', 'FORMATTER=y', 'FORMATS x', 'VIEWS= 1', 'VIEWANGLE=2', 'XVIEW=2', 'EXPOSURES=1', 'EXPOSURES=2']),
    st.sampled_from(['pvalue -h -df', 'pvalue', 'FORMAT=32-bit_rle_rgbe', 'VIEW= -vta -vd 0 1 0 -vv 180 -vh 180', 'VIEW= -vta -vp 1 2 3 -vd 1 0 0 -vv 90 -vh 90',
                     'VIEW=-vtv']),
).map(str.strip).filter(lambda s: not s.endswith(':') and not s.startswith('...') and s)
gname = st.sampled_from(['a.hdr', 'b.hdr', '/tmp/x/c.hdr', 'd e.hdr', '/tmp/clasp_tmpq1', 'sub/f.hdr', 'g=1.hdr'])
tree = st.recursive(st.lists(leaf, max_size=4), lambda ch: st.lists(
    st.one_of(leaf, leaf, st.tuples(gname, ch).map(lambda t: {'n': t[0], 'c': t[1]})), max_size=5), max_leaves=12)


POOL = ['SOFTWARE= a', 'X=1', 'X=2', 'Y1= 1 2', 'rpict -x 1', 'oconv a.rad', 'EXPOSURE=2', 'EXPOSURE=.5', 'one', 'a  b   c', 'pcomb -e "x=1 y"',
        'f /tmp/clasp_tmp12ab b', 'pcomb clasp_tmp1 /tmp/clasp_tmp2', 'PIXASPECT=1', 'a==b', 'pvalues x', 'FORMATTER=y', 'VIEWS= 1', 'pvalue -h -df', 'FORMAT=32-bit_rle_rgbe',
        'VIEW= -vta -vd 0 1 0 -vv 180 -vh 180', 'VIEW= -vta -vp 1 2 3 -vd 1 0 0 -vv 90 -vh 90', 'EXPOSURES=2', 'two', 'three four']
NAMES = ['a.hdr', 'b.hdr', '/tmp/x/c.hdr', 'd e.hdr', 'sub/f.hdr', 'g=1.hdr']


def randtree(seed, depth=0, r=None):
    """file groups up to four deep with many repeated lines"""
    r = r or random.Random(seed)
    out = []
    for _ in range(r.choice((1, 1, 2, 3, 4))):
        k = r.random()
        if k < .4 and depth < 4:
            out.append({'n': r.choice(NAMES), 'c': randtree(seed, depth + 1, r)})
        elif k < .47:
            out.append('rcontrib ' + ' '.join(f'w{r.randrange(99)}-{i}' for i in range(r.randrange(1, 50))))
        elif k < .55:
            out.append(f'CAPDATE= {r.randrange(999)}')
        else:
            out.append(r.choice(POOL))
    return out


tree = st.one_of(tree, seeds.map(randtree), seeds.map(randtree))


def emit(nodes, depth, tab, out):
    for n in nodes:
        if isinstance(n, str):
            out.append(tab * depth + n)
        else:
            out.append(tab * depth + n['n'] + ':')
            emit(n['c'], depth + 1, tab, out)
    return out


def norm(s):
    return ' '.join(re.sub(r'\S*clasp_tmp[^\s:]*', '<stdin>', s).split())


def kept(s):
    return not (s.split(None, 1)[0] == 'pvalue' and '=' not in s or s.startswith('pvalue=') or s.startswith('FORMAT=') or s.startswith('VIEW=')
                or s == 'FORMAT' or s.split()[0] == 'FORMAT' and '=' not in s)


def unwrap(lines, tab='\t'):
    """independent unwrapping of a cleaned header -> (depth, text)"""
    out = []
    for s in lines:
        depth = 0
        while s.startswith(tab):
            s = s[len(tab):]
            depth += 1
        c = s.strip()
        if c.startswith('...') and out:
            out[-1][1] += ' ' + c[3:].strip()
        else:
            out.append([depth, c])
    return [(a, norm(b)) for a, b in out]


def reference(nodes, depth=0, da=0):
    """cleaned (depth, text) lines of a tree without repeated lines"""
    out = []
    for n in nodes:
        if isinstance(n, str):
            if kept(n):
                out.append((depth - da, norm(n)))
        else:
            c = reference(n['c'], depth + 1, da)
            if any(isinstance(m, str) and kept(m) for m in n['c']):
                out += [(depth - da, re.sub(r'\S*clasp_tmp[^\s:]*', '<stdin>', n['n']).rsplit('/', 1)[-1] + ':')] + c
            else:
                out += reference(n['c'], depth + 1, da + 1)
    return out


def build(lines, tab):
    """the tree of emitted lines"""
    root = []
    stack = [(-1, root)]
    seen = set()
    for s in lines:
        depth = 0
        while s.startswith(tab):
            s = s[len(tab):]
            depth += 1
        while stack[-1][0] >= depth:
            stack.pop()
        if s.endswith(':'):
            g = {'n': s[:-1], 'c': []}
            stack[-1][1].append(g)
            stack.append((depth, g['c']))
        elif not kept(s):
            continue
        elif plain(s) in seen and not (s.split('=')[0] in CUM and '=' in s):
            promote(root, None, 0, plain(s))
        else:
            seen.add(plain(s))
            stack[-1][1].append(s)
    return root


def plain(s):
    return re.sub(r'\S*clasp_tmp[^\s:]*', '<stdin>', s)


def promote(nodes, parent, at, text):
    """move the line out of the file group that holds it, in front of the group"""
    for i, n in enumerate(nodes):
        if isinstance(n, str):
            if plain(n) == text:
                if parent is not None:
                    nodes.pop(i)
                    parent.insert(at, n)
                return True
        elif promote(n['c'], nodes, i, text):
            return True
    return False


@CHECK.sub('tree', d(tree=tree, tab=st.sampled_from(['\t', '    ', '  ', ' ' * 8, '   ']), outtab=st.sampled_from(['\t', '\t', '    ', '  ']), width=st.one_of(st.none(), st.sampled_from([150, 80, 40, 10000])),
                     how=st.sampled_from(['list', 'text', 'clean_header']), blanks=st.one_of(st.just(0), seeds)), quick=1200, thorough=30000)
def trees(case, rec):
    lines = emit(case['tree'], 0, case['tab'], [])
    # blank space left to a line keeps it inside its group, as in a file
    kw = {} if case['width'] is None or case['how'] == 'clean_header' else dict(headerwidth=case['width'])
    width = kw.get('headerwidth', 150)
    tab, outtab = case['tab'], '\t'
    if case['how'] == 'clean_header':
        tab = tab if len(tab) == 1 else '    '
        lines = emit(case['tree'], 0, tab, [])
    else:
        outtab = case['outtab']
        if len(tab) > 1 and tab != '    ':
            kw['spacespertab'] = len(tab)
        if outtab != '\t':
            kw['outtab'] = outtab
    # what it takes to read the cleaned header
    back = {k: v for k, v in kw.items() if k != 'spacespertab'}
    if outtab != '\t':
        back['spacespertab'] = len(outtab)
    rec.label('tab ' + repr(tab))
    src = list(lines)
    if case['blanks']:
        # single blanks before or after the tabs do not amount to a level
        rec.label('odd blanks')
        for k, j in enumerate(gen.ints(case['blanks'], len(src), 0, 4).tolist()):
            ind = re.match(r'\s*', src[k]).group()
            if tab == '\t':
                src[k] = [src[k], ind + ' ' * j + src[k].strip(), ' ' * j + src[k], ind + ' ' + src[k].strip()][j]
            else:
                src[k] = ind + ' ' * min(j, len(tab) - 1) + src[k].strip()
    if case['how'] == 'clean_header':
        got = io.clean_header(list(src))
    else:
        ch = io.CleanHeader(list(src) if case['how'] == 'list' else '\n'.join(src), **kw)
        got = ch.header
        first = list(got)
        # one object used for one header after the other
        half = src[len(src) // 2:]
        ch.text = half if case['how'] == 'list' else '\n'.join(half)
        require(ch.header == io.CleanHeader(half, **kw).header, 'text set again', got=ch.header)
        ch.text = list(src)
        require(ch.header == first, 'first text set again', got=ch.header, want=first)
    got = list(got)
    plain = [s.strip() for s in lines if not s.endswith(':')]
    views = [s for s in plain if s.startswith('VIEW=')]
    if views:
        require(got and got[-1].strip() == views[-1] and got[-1] == got[-1].lstrip(), 'last line is the last view', want=views[-1], got=got[-1:])
        got = got[:-1]
    require(not any(s.strip().startswith('VIEW=') for s in got), 'more than one view', header=got)
    want = [norm(s) for s in plain if kept(s)]
    cum = [s for s in want if s.split('=')[0] in CUM and '=' in s]
    uw = unwrap(got, outtab)
    body = [t for _, t in uw if not t.endswith(':')]
    gcum = [s for s in body if s.split('=')[0] in CUM and '=' in s]
    rec.label('exposure' if cum else 'no exposure')
    equal(sorted(gcum), sorted(cum), 'every exposure line is kept')
    gset = [s for s in body if s not in gcum]
    wset = {s for s in want if s not in cum}
    require(len(gset) == len(set(gset)), 'repeated line kept', header=got)
    require(set(gset) == wset, 'lines kept', missing=sorted(wset - set(gset)), new=sorted(set(gset) - wset), header=got)
    rep = len(wset) + len(cum) < len(want)
    wrapped = len(uw) < len(got)
    dropped = len(want) < len(plain)
    rec.nontrivial((rep or wrapped or dropped) and any(s.endswith(':') for s in lines))
    rec.label('repeated' if rep else 'no repeats', 'wrapped' if wrapped else 'not wrapped')
    ref = reference(build(lines, tab))
    require(uw == ref, 'lines, order and level', want=ref, got=uw)
    for s in got:
        require(len(s) <= width or len(s.strip().split()) <= 2 or (s.strip().startswith('...') and len(s.split()) <= 2), 'line is too long', line=s,
                width=width)
    again = list(io.CleanHeader(got + views[-1:], **back).header)
    require(again == got + views[-1:], 'cleaning a cleaned header changes it', first=got, second=again)
    # wrapped narrowly, then unwrapped widely: the same information
    wide = io.CleanHeader(got, **{**back, 'headerwidth': 100000}).header
    require([norm(s) for s in wide] == [t for _, t in uw], 'unwrapped again', got=wide, want=uw)


anyline = st.one_of(leaf, gname.map(lambda s: s + ':'), st.text(max_size=30), st.sampled_from(['...', '... a', '', ':', '=', ' :', 'VIEW', 'VIEW=', 'X=1', 'X=2', 'f:', '\t']))
CHECK.example('text', dict(lines=[[0, '...']], how='list', width=150))
CHECK.example('text', dict(lines=[[0, 'f:'], [1, 'g:'], [2, 'x=1'], [1, 'x=1']], how='list', width=150))


@CHECK.sub('text', d(lines=st.lists(st.tuples(st.integers(0, 4), anyline).map(list), max_size=12), how=st.sampled_from(['list', 'text']),
                     width=st.sampled_from([150, 60, 20])), quick=1500, thorough=60000)
def anytext(case, rec):
    """any text: never fails, keeps the words of every kept line, keeps the last view"""
    lines = ['\t' * t + s for t, s in case['lines']]
    rec.nontrivial(len(lines) > 1)
    got = io.CleanHeader(lines if case['how'] == 'list' else '\n'.join(lines), headerwidth=case['width']).header
    require(isinstance(got, list) and all(isinstance(s, str) for s in got), 'header type', got=got)
    require(all(len(s.splitlines()) <= 1 for s in got), 'line breaks', got=got)
    views = [s.strip() for s in '\n'.join(lines).splitlines() if s.strip().startswith('VIEW=')]
    nv = [s for s in got if s.strip().startswith('VIEW=')]
    if views and not any(re.match(r'(.+):$|.*\.\.\.|.*clasp', s) for s in views) and not any('...' in s or re.match(r'\s*VIEW($|[^=])', s) for s in lines):
        rec.label('view')
        require(nv == [views[-1]] and got[-1] == views[-1], 'last view', got=got, want=views[-1])
    words = set(re.sub(r'\S*clasp_tmp[^\s:]*', '<stdin>', ' '.join(lines)).split())
    inner = [w for s in got for w in s.split()]
    for w in inner:
        require(w in words or w in ('...', 'VIEW=') or w.endswith(':') or w.startswith('VIEW='), 'word that was not in the header', word=w, header=got)


@CHECK.sub('image', d(tree=tree, color=st.booleans(), seed=seeds, exp=st.lists(st.sampled_from(['2', '.5', '3', '1']), max_size=3)), quick=120, thorough=2000)
def image(case, rec):
    """an image rewritten with its cleaned header keeps values and view"""
    lines = emit(case['tree'], 0, '\t', [])
    if any(s.lstrip().startswith('PIXASPECT') for s in lines):
        lines = [s for s in lines if not s.lstrip().startswith('PIXASPECT')]
    lines += ['EXPOSURE=' + e for e in case['exp']]
    cum = [s for s in lines if s.startswith('EXPOSURE')]
    rec.nontrivial(len(lines) > 2)
    rec.label(f'{min(len(cum), 2)} exposures')
    a = gen.noise(case['seed'], (3, 5, 4) if case['color'] else (5, 4), .1, 9)
    io.array2hdr(a, 'a.hdr', header=lines or None)
    v, h = io.hdr2carray('a.hdr', header=True)
    io.carray2hdr(v, 'b.hdr', header=h, clean=True)
    w = io.hdr2carray('b.hdr')
    close(w, v, 'pixel values after rewriting with the cleaned header', rtol=1e-6, atol=float(v.max()) / 100)
    require(np.all(np.abs(w - v) <= v.max(0) / 128), 'pixel values after rewriting with the cleaned header')
    va, vb = imagetools.hdr2vm('a.hdr'), imagetools.hdr2vm('b.hdr')
    if any('-vta' in s for s in lines) and not [s for s in lines if s.lstrip().startswith('VIEW=')][-1].endswith('-vtv'):
        rec.label('view')
        require(vb is not None and va is not None, 'view after rewriting', a=va, b=vb)
        close(vb.dxyz, va.dxyz, 'view direction after rewriting')
        close(vb.viewangle, va.viewangle, 'view angle after rewriting')
    # cleaned on reading or on writing
    require([s.strip() for s in io.hdr_header('a.hdr', clean=True)] == [s.strip() for s in io.clean_header(io.hdr_header('a.hdr'))], 'clean=True')
    # direct: an array written with a cleaned list of lines reads as with the list itself
    io.array2hdr(a, 'c.hdr', header=lines or None, clean=True)
    c = io.hdr2carray('c.hdr')
    require(np.all(np.abs(c - v) <= v.max(0) / 128), 'pixel values with clean=True')
