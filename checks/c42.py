import os
import re
import shlex

import numpy as np
from hypothesis import strategies as st
from pbt import Check, require
import cli
import gen
import hdr
from gen import d, seeds
from c38 import scratch, tree
import raytools

CHECK = Check('C42', rule='cases: every command with any subset of its options, each given on the command line, in the section of the command, in the global section or in both (with another '
              'value), sections of other commands, image lists given by name, by a list file, by a pattern or on standard input, one command after the other in one process. '
              'Non-trivial: an option comes from the file, or an input is not given by name.',
              assumptions=['what the commands compute is decided by C37-C39'])
#: technique: property-based testing: metamorphic relations between ways to give the same options and inputs

#: command: {parameter: values}, the option of a flag is (on, off)
num = {
    'metric': dict(metrics=['illum', 'dgp ugp', 'irradiance illum', 'avglum gcr maxlum'], scale=['1', '100', '3.5'], threshold=['5', '1000', '150.5'], peaka=['.01', '.3'], peakt=['1000', '200'], peakr=['2', '1.5'], lumrgb=['.2 .7 .1', '1 0 0']),
    'project': {},
    'align': dict(rotate=['30', '-12.5', '90'], center=['2 3', '3 3', '1 2 4 3']),
    'solid2ang': dict(viewangle=['90', '45.5', '180']),
    'cleanheader': {},
    'smooth': dict(x=['0', '1', '2'], x_out=['5', '1 2 3', '1:4', '.5 .25'], y=['1', '0 2', '2 1', '-1'], sigma=['.5', '2'], sf=['.5', '3'])}
FLAGS = {
    'metric': dict(parallel=('--parallel', '--no-parallel'), peakn=('--peakn', '--no-peakn'), blursun=('--blursun', '--no-blursun'), lowlight=('--lowlight', '--no-lowlight')),
    'project': dict(uv2ang=('--uv2ang', '--ang2uv'), useview=('--useview', '--no-useview'), stdout=('--stdout', '--no-stdout')),
    'align': dict(rotate_first=('--rotate-first', '--center-first'), nearest=('--nearest', '--no-nearest'), stdout=('--stdout', '--no-stdout')),
    'solid2ang': dict(reverse=('--reverse', '--forward'), nearest=('--nearest', '--no-nearest'), stdout=('--stdout', '--no-stdout')),
    'cleanheader': {}, 'smooth': {}}
COMMANDS = list(num)
YES, NO = ['true', 'True', 'yes', '1', 'on'], ['false', 'False', 'no', '0', 'off']
WHERE = ['cli', 'cli', 'file', 'file', 'file', 'globals', 'both', 'globals+file']

opt = d(k=st.integers(0, 6), v=st.integers(0, 11), w=st.sampled_from(WHERE))
command = st.sampled_from(['metric', 'metric', 'align', 'align', 'solid2ang', 'solid2ang', 'project', 'project', 'smooth', 'smooth', 'cleanheader'])
common = dict(command=command, opts=st.lists(opt, min_size=1, max_size=5), seed=seeds, n=st.integers(1, 3))
NAMES = ['a.hdr', 'b c.hdr', 'd.hdr']


def inputs(case):
    """-> names of the input files"""
    s = case['seed']
    if case['command'] == 'smooth':
        a = gen.noise(s, (12, 3), 0, 5)
        with open('data.txt', 'w') as f:
            f.write('\n'.join(' '.join(f'{v:.6f}' for v in r) for r in a) + '\n')
        return ['data.txt']
    out = []
    for k in range(1 if case['command'] == 'cleanheader' else case['n']):
        res = 8 + int(gen.ints(s + k, 1, 0, 5)[0])
        a = 10 ** gen.noise(s + k, (3, res, res), -1, 2)
        a[:, res // 2, res // 3] = 3e3
        v = gen.unit(gen.sphere(s + k, 1)[0])
        hdr.write(NAMES[k], a, ['rpict -ab 2', 'EXPOSURE=2', 'VIEW= -vta -vd {} {} {} -vh 180 -vv 180'.format(*map(float, v)), 'rpict -ab 2'])
        out.append(NAMES[k])
    return out


def options(case):
    """-> {parameter: (value for the command line, for the file, another for the file, where)}"""
    c = case['command']
    names = [*num[c], *FLAGS[c]]
    out = {}
    for o in case['opts']:
        if not names:
            break
        k = names[o['k'] % len(names)]
        v = o['v']
        if k in num[c]:
            vals = num[c][k]
            a, b = vals[v % len(vals)], vals[(v + 1) % len(vals)]
            # -sigma, -x_out ...
            tok = ['-' + k, a]
        else:
            on = v % 2 == 0
            tok = [FLAGS[c][k][0 if on else 1]]
            a, b = (YES if on else NO)[v % 5], (NO if on else YES)[v % 5]
        out[k] = tok, a, b, o['w']
    return out


def ini(case, opts):
    """text of the configuration file and the options left for the command line"""
    sec, glob, rest = {}, {}, []
    for k, (tok, a, b, w) in opts.items():
        if w in ('cli', 'both'):
            rest += tok
        if w == 'both':
            (sec if case['seed'] % 2 else glob)[k] = b
        if w in ('file', 'globals+file'):
            sec[k] = a
        if w == 'globals':
            glob[k] = a
        if w == 'globals+file':
            glob[k] = b
    t = []
    other = COMMANDS[(COMMANDS.index(case['command']) + 1 + case['other']) % len(COMMANDS)]
    parts = [('globals', glob), ('raytools_' + case['command'], sec)]
    if other != case['command']:
        # the same names and others for another command
        parts.append(('raytools_' + other, {**{k: b for k, (_, _, b, _) in opts.items()}, 'scale': '7', 'rotate': '77', 'stdout': 'no', 'sf': '9', 'nonsense': '1'}))
    parts.append(('other', {'scale': '8', 'rotate': '66', 'sf': '4'}))
    for i in np.argsort(gen.bits(case['seed'] + 5, len(parts)), kind='stable'):
        name, m = parts[i]
        if m or not name == 'globals':
            t += [f'[{name}]'] + [f'{k} {"=" if case["seed"] % 3 else ":"} {v}' for k, v in m.items()] + ['']
    return '\n'.join(t), rest, bool(sec or glob)


def go(args, stdin=b''):
    """-> code, stdout, new files (removed), stderr"""
    before = tree()
    code, out, err = cli.run(args, stdin=stdin)
    after = tree()
    require(all(after.get(k) == v for k, v in before.items()), 'an input file changed', args=args)
    new = {k: v for k, v in after.items() if k not in before}
    for k in new:
        os.remove(k)
    return code, out, new, err


def same(got, want, msg, err):
    require(got[0] == want[0], f'{msg}: exit code', got=got[0], want=want[0], err=err[-500:])
    require(got[1] == want[1], f'{msg}: standard output', got=got[1][:600], want=want[1][:600])
    require(sorted(got[2]) == sorted(want[2]), f'{msg}: files', got=sorted(got[2]), want=sorted(want[2]))
    require(got[2] == want[2], f'{msg}: content of files')


@CHECK.sub('config', d(**common, other=st.integers(0, 4), order=st.sampled_from(['line', 'file', 'file line']), cap=st.sampled_from([None, None, 1, 2]), front=st.booleans()), quick=120, thorough=2500)
@scratch
def config(case, rec):
    """options of a configuration file are the options of the command line, which takes precedence"""
    files = inputs(case)
    opts = options(case)
    text, rest, given = ini(case, opts)
    if not given:
        rec.label('nothing in the file')
        text += f'\n[{"globals" if "[globals]" not in text else "more"}]\nunused = 1\n'
    else:
        rec.nontrivial()
    with open('options.ini', 'w') as f:
        f.write(text)
    im = ' '.join(map(shlex.quote, files)) if case['command'] not in ('smooth', 'cleanheader') else files[0]
    pre = [] if case['cap'] is None else ['-n', case['cap']]
    full = [t for o in opts.values() for t in o[0]]
    c = case['command']
    line = [*pre, c, *full, im] if case['front'] else [*pre, c, im, *full]
    conf = ['-c' if case['seed'] % 2 else '-config', 'options.ini', *pre] if case['front'] else [*pre, '-c', 'options.ini']
    byfile = [*conf, c, *rest, im]
    rec.label(c, *{o[3] for o in opts.values()})
    if case['order'] != 'line':
        got = go(byfile)
    want = go(line)
    if case['order'] == 'file line':
        same(go([*pre, c, im]), go([*pre, c, im]), 'again', '')
    if case['order'] == 'line':
        got = go(byfile)
    require(want[0] == 0, 'command failed', args=line, err=want[3][-600:])
    same(got, want, f'{c}: options in the file {text!r} and {rest}', got[3])


@CHECK.sub('missing', d(command=command, seed=seeds, kind=st.sampled_from(['no file', 'no section', 'empty', 'bad value'])), quick=40, thorough=400)
@scratch
def missing(case, rec):
    """configurations that can not be used: an error and nothing done"""
    case['n'] = 1
    files = inputs(case)
    rec.label(case['kind'])
    rec.nontrivial()
    if case['kind'] != 'no file':
        bad = [k for k, v in num[case['command']].items() if k not in ('metrics',)]
        text = {'no section': '[raytools_other]\nscale = 1\n', 'empty': ''}.get(case['kind'], f'[raytools_{case["command"]}]\n{bad[case["seed"] % len(bad)] if bad else "x"} = much\n')
        if case['kind'] == 'bad value' and not bad:
            return
        with open('options.ini', 'w') as f:
            f.write(text)
    code, out, new, err = go(['-c', 'options.ini', case['command'], shlex.quote(files[0])])
    require(code != 0, 'an error code', kind=case['kind'], err=err[-300:])
    require(out == b'' and not new, 'nothing is written', out=out[:200], new=sorted(new))


TMP = re.compile(rb'\S*clasp_tmp\w+')


@CHECK.sub('stdin', d(**common, bad=st.sampled_from([None, None, None, None, '', 'not an image\n', '#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y 4 +X 4\nxx']), alone=st.booleans()), quick=120, thorough=2000)
@scratch
def standard(case, rec):
    """standard input is an input file like any other, no temporary file remains"""
    files = inputs(dict(case, n=1 if case['alone'] else case['n']))
    name = files[-1]
    c = case['command']
    opts = options(case)
    full = [t for o in opts.values() for t in o[0]]
    if case['bad'] is not None:
        with open(name, 'wb') as f:
            f.write(case['bad'].encode())
    with open(name, 'rb') as f:
        data = f.read()
    rec.label(c, 'broken' if case['bad'] is not None else 'image')
    rec.nontrivial()
    one = c in ('smooth', 'cleanheader')
    want = go([c, *full, files[0] if one else ' '.join(map(shlex.quote, files))])
    got = go([c, *full, '-' if one else ' '.join([*map(shlex.quote, files[:-1]), '-'])], stdin=data)
    if case['bad'] is None:
        require(want[0] == 0, 'command failed', args=full, err=want[3][-600:])
    require(got[0] == want[0], 'exit code with standard input', got=got[0], want=want[0], err=got[3][-600:])
    left = [k for k in got[2] if re.fullmatch(r'.*clasp_tmp[^./]{8}', k) and not re.search(r'_(uv|ang|r|2vt|\d)', k)]
    require(not left, 'temporary files remain', left=left, command=c)
    if want[0]:
        return
    base = shlex.quote(name).encode() if c != 'metric' else name.encode()
    g, w = TMP.sub(base, got[1]), want[1]
    if c != 'metric' and b'\n\n' in g:
        # names of input files
        g, w = (re.sub(rb'^[^\n]*:\n', b'', i, flags=re.M) for i in (g, w))
    require(g == w, 'standard output', got=g[:400], want=w[:400])
    stem = name.rsplit('.', 1)[0]
    names = {re.sub(r'^.*clasp_tmp[a-zA-Z0-9_]{8}', stem, k) if 'clasp_tmp' in k else k: v for k, v in got[2].items()}
    require(sorted(names) == sorted(want[2]), 'files written', got=sorted(names), want=sorted(want[2]))
    for k, v in want[2].items():
        (ha, pa), (hb, pb) = names[k].split(b'\n\n', 1), v.split(b'\n\n', 1)
        require(pa == pb, 'pixels of a written file', file=k)
        ha, hb = (sorted(i.strip() for i in h.split(b'\n') if not i.endswith(b':')) for h in (ha, hb))
        require(ha == hb, 'header of a written file', file=k, got=ha, want=hb)


@CHECK.sub('lists', d(command=st.sampled_from(['metric', 'project', 'align', 'solid2ang']), opts=st.lists(opt, max_size=2), seed=seeds, n=st.integers(1, 3), how=st.sampled_from(['@', '@ lines', 'glob', 'glob+name', 'class'])), quick=50, thorough=800)
@scratch
def lists(case, rec):
    """image lists of a file or a pattern"""
    files = inputs(case)
    c = case['command']
    full = [t for o in options(case).values() for t in o[0]]
    how = case['how']
    rec.label(how, f'{len(files)} images')
    rec.nontrivial(len(files) > 1)
    os.mkdir('lists')
    if how[0] == '@':
        with open('lists/l.txt', 'w') as f:
            f.write((' ' if how == '@' else '\n').join(map(shlex.quote, files)) + '\n')
        a = '@lists/l.txt'
    elif how == 'glob':
        a = '*.hdr'
    elif how == 'class':
        a, files = '[ad].hdr', [i for i in files if i[0] in 'ad']
    else:
        a, files = "'b c.hdr' ?.hdr" if len(files) > 1 else '?.hdr', files[1:2] + [i for i in files if len(i) == 5]
    want = go([c, *full, ' '.join(map(shlex.quote, files))])
    got = go([c, *full, a])
    require(want[0] == 0, 'command failed', args=full, err=want[3][-600:])
    same(got, want, f'{c} {a}', got[3])


@CHECK.sub('show', d(**common, flag=st.sampled_from(['--opts', '-opts', '--version', '--help'])), quick=60, thorough=500)
@scratch
def show(case, rec):
    """options that only report: no command is executed"""
    files = inputs(case)
    c = case['command']
    opts = options(case)
    full = [t for o in opts.values() for t in o[0]]
    one = c in ('smooth', 'cleanheader')
    rec.label(case['flag'])
    rec.nontrivial(bool(full))
    code, out, new, err = go([c, *full, case['flag'], files[0] if one else ' '.join(map(shlex.quote, files))])
    require(code == 0 and not new, 'nothing is executed', code=code, new=sorted(new), err=err[-300:])
    names = [*num[c], *FLAGS[c]]
    if case['flag'] == '--version':
        require(raytools.__version__ in out.decode(), 'version', out=out)
    elif case['flag'] == '--help':
        t = out.decode()
        require(all(f'-{k}' in t or f'--{k}'.replace('_', '-') in t or FLAGS[c].get(k, ('?',))[0] in t for k in names), 'options in the help', out=t)
    else:
        require(out == b'', 'nothing on standard output', out=out[:200])
        shown = dict(re.findall(r'^(\w+?)\.{2,}(.*)$', err, re.M))
        require(set(names) <= set(shown), 'options shown', shown=shown, names=names)
        for k, (tok, a, b, w) in opts.items():
            if k in FLAGS[c]:
                require(shown[k] == str(tok[0] == FLAGS[c][k][0]), 'value shown', option=k, shown=shown[k], given=tok)
