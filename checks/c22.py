import contextlib
import io as sio
import multiprocessing
import os

import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, fail, Hang
import pooltasks
from gen import d
from raytools.utility import pool_call, TStqdm

CHECK = Check('C22', rule='cases: number of tasks (0-40), their durations (so that they finish in other orders than they start), '
              'worker mode, cap, start method, expanded or whole arguments, fixed and keyword arguments, failing tasks. '
              'Non-trivial: more tasks than workers, at least two different durations.',
              assumptions=['keyword arguments do not share a name with the parameters of pool_call', 'schedules are varied by task '
                           'durations and caps, not enumerated'])
#: technique: property-based testing: differential against the sequential loop over generated durations, worker modes and failures

MODES = [True, True, 't', 'threads', 'thread', 'Thread', 'T', False, 1, 0, 'processes']
delays = st.lists(st.sampled_from([0, 0, .001, .004, .012]), max_size=40)
kw = st.dictionaries(st.sampled_from(['a', 'b', 'scale', 'res']), st.one_of(st.integers(), st.text(max_size=3), st.none(), st.lists(st.integers(), max_size=3)), max_size=3)
fixed = st.lists(st.one_of(st.integers(-9, 9), st.text(max_size=3), st.booleans(), st.lists(st.integers(), max_size=2)), max_size=3)


def pool(*args, pbar=False, **kwargs):
    with contextlib.redirect_stderr(sio.StringIO()):
        r = pool_call(*args, pbar=pbar, **kwargs)
    require(isinstance(r, (list, tuple)), 'type of the results', type=type(r))
    cleanup()
    return list(r)


def cleanup():
    for p in multiprocessing.active_children():
        p.join(.02)


def mode(case, rec):
    m = case['mode']
    proc = bool(m) and str(m).lower() not in ('t', 'thread', 'threads')
    rec.label('processes' if proc else 'threads' if m else 'none')
    return m, proc


@CHECK.sub('results', d(delays=delays, mode=st.sampled_from(MODES), cap=st.one_of(st.none(), st.integers(1, 5)), fixed=fixed, kw=kw, pbar=st.booleans(),
                        fn=st.sampled_from(['timed', 'callable', 'method', 'whole', 'wholestr', 'some']), seq=st.sampled_from(['list', 'tuple', 'array']),
                        env=st.one_of(st.none(), st.integers(1, 3))), big=[(3, {'delays': st.lists(st.sampled_from([0, 0, .001]), min_size=60, max_size=200)})], quick=200, thorough=4000)
def results(case, rec):
    m, proc = mode(case, rec)
    ds = case['delays'] if not proc else case['delays'][:24]
    rec.nontrivial(len(set(ds)) > 1 and len(ds) > (case['cap'] or 2))
    rec.label('no tasks' if not ds else 'one task' if len(ds) == 1 else 'tasks', case['fn'])
    os.environ.pop('RAYTOOLS_PROC_CAP', None)
    if case['env']:
        os.environ['RAYTOOLS_PROC_CAP'] = str(case['env'])
    try:
        args = [(i, x) for i, x in enumerate(ds)]
        kws = dict(case['kw'])
        fx = list(case['fixed'])
        opts = dict(workers=m, pbar=case['pbar'])
        if case['cap'] is not None:
            opts['cap'] = case['cap']
        fn = pooltasks.timed
        if case['fn'] == 'callable':
            fn = pooltasks.Method(100)
        elif case['fn'] == 'method':
            fn = pooltasks.Method(7).method
        elif case['fn'] == 'some':
            fn = pooltasks.some
        elif case['fn'].startswith('whole'):
            fn = pooltasks.whole
            opts['expandarg'] = False
            if case['fn'] == 'wholestr':
                fn = pooltasks.echo
                args = [f's{i}' for i in range(len(ds))]
        if case['seq'] == 'tuple':
            args = tuple(args)
        elif case['seq'] == 'array' and len(args) and case['fn'] != 'wholestr':
            args = np.array(args)
        if case['fn'].startswith('whole'):
            want = [fn(a, *fx, **kws) for a in args]
        else:
            want = [fn(*a, *fx, **kws) for a in args]
        keep = list(fx), dict(kws)
        got = pool(fn, args, *fx, **opts, **kws)
        require(got == want, 'results differ from the loop', got=got, want=want)
        require((list(fx), dict(kws)) == keep, 'arguments changed')
        got = pool(fn, args, *fx, **opts, **kws)
        require(got == want, 'second call', got=got, want=want)
        if m:
            # without workers
            opts['workers'] = False
            got = pool(fn, args, *fx, **opts, **kws)
            require(got == want, 'results without workers', got=got, want=want)
    finally:
        os.environ.pop('RAYTOOLS_PROC_CAP', None)


@CHECK.sub('loop', d(n=st.integers(0, 12), mode=st.sampled_from([False, 't', 0, 'thread', False]), cap=st.one_of(st.none(), st.integers(1, 5)), fixed=fixed, kw=kw,
                     fn=st.sampled_from(['echo', 'whole', 'wholestr', 'callable', 'some']), items=st.lists(st.one_of(st.integers(), st.text(max_size=3), st.lists(st.integers(), max_size=3)), max_size=4)),
           big=[(4, {'n': st.integers(100, 1500)})], quick=600, thorough=12000)
def loop(case, rec):
    """arguments of every kind reach the function in this process"""
    rec.nontrivial(case['n'] > 0 and bool(case['kw']) and bool(case['fixed']))
    rec.label('threads' if case['mode'] else 'none', case['fn'])
    fx, kws = list(case['fixed']), dict(case['kw'])
    args = [(i, *case['items']) for i in range(case['n'])]
    opts = dict(workers=case['mode'])
    fn = pooltasks.echo
    if case['cap'] is not None:
        opts['cap'] = case['cap']
    if case['fn'] == 'callable':
        fn, args = pooltasks.Method(3), [(i, 0, *case['items']) for i in range(case['n'])]
    elif case['fn'] == 'some':
        fn = pooltasks.some
        args = [(i, 0, *case['items']) for i in range(case['n'])]
    if case['fn'].startswith('whole'):
        opts['expandarg'] = False
        if case['fn'] == 'wholestr':
            args = [f's{i}' for i in range(case['n'])]
        want = [fn(a, *fx, **kws) for a in args]
    else:
        want = [fn(*a, *fx, **kws) for a in args]
    got = pool(fn, args, *fx, **opts, **kws)
    require(got == want, 'results differ from the loop', got=got, want=want)


@CHECK.sub('errors', d(delays=delays, mode=st.sampled_from(MODES), cap=st.one_of(st.none(), st.integers(1, 4)), bad=st.lists(st.integers(0, 30), min_size=1, max_size=4),
                       kind=st.sampled_from(['value', 'key', 'task', 'zero', 'os'])), quick=120, thorough=2500)
def errors(case, rec):
    m, proc = mode(case, rec)
    ds = case['delays'] if not proc else case['delays'][:24]
    args = [(i, x) for i, x in enumerate(ds)]
    bad = [b for b in case['bad'] if b < len(ds)]
    rec.nontrivial(len(ds) > 1 and len(bad) > 0)
    rec.label('failing' if bad else 'not failing')
    exc = {'value': ValueError, 'key': KeyError, 'task': pooltasks.TaskError, 'zero': ZeroDivisionError, 'os': FileNotFoundError}[case['kind']]
    opts = dict(workers=m, cap=case['cap'])
    if not bad:
        require(pool(pooltasks.failing, args, bad, case['kind'], **opts) == list(range(len(ds))), 'results')
        return
    try:
        r = pool(pooltasks.failing, args, bad, case['kind'], **opts)
    except (Hang, Exception) as ex:
        if type(ex) is not exc:
            if type(ex).__module__.startswith('hypothesis') or isinstance(ex, Hang):
                raise
            fail('another exception than that of the call', got=repr(ex), want=exc)
        require(ex.args and ex.args[0] in bad, 'arguments of the exception', args=ex.args)
    else:
        fail('the exception of a call was lost', result=r, bad=bad)
    cleanup()


@CHECK.sub('bar', d(mode=st.sampled_from(MODES + ['Threads', 'T', 'process', 1]), cap=st.one_of(st.none(), st.integers(1, 5)), env=st.one_of(st.none(), st.integers(1, 5)), position=st.integers(0, 5),
                    n=st.integers(0, 4), desc=st.sampled_from([None, 'step', '']), named=st.booleans()), quick=60, thorough=600)
def bar(case, rec):
    """the pool of a progress bar, at any level"""
    m = case['mode']
    os.environ.pop('RAYTOOLS_PROC_CAP', None)
    if case['env']:
        os.environ['RAYTOOLS_PROC_CAP'] = str(case['env'])
    thread = isinstance(m, str) and m.lower() in ('t', 'thread', 'threads')
    proc = bool(m) and not thread
    rec.label('processes' if proc else 'threads' if thread else 'neither', f"level {case['position']}")
    rec.nontrivial(proc and case['position'] > 0)
    try:
        with TStqdm(ValueError() if case['named'] else None, workers=m, position=case['position'], desc=case['desc'], cap=case['cap'], total=3, disable=True) as t:
            if not m:
                require(t.pool is None and t.nworkers == 0, 'no pool asked for', got=t.pool)
                return
            if proc:
                require(t.nworkers == (case['cap'] or case['env'] or os.cpu_count()), 'number of processes', got=t.nworkers)
            else:
                require(t.nworkers > 0, 'threads')
            got = [f.result() for f in [t.pool.submit(pooltasks.pid, i, 0) for i in range(case['n'])]]
            require(len(got) == case['n'] and all((i == os.getpid()) != proc for i in got), 'where calls ran', got=got)
            t.pool.shutdown()
    finally:
        os.environ.pop('RAYTOOLS_PROC_CAP', None)


@CHECK.sub('workers', d(n=st.integers(1, 12), cap=st.one_of(st.none(), st.integers(1, 4)), env=st.one_of(st.none(), st.integers(1, 4)), mode=st.sampled_from(MODES),
                        context=st.sampled_from(['fork', 'fork', 'fork', 'fork', 'fork', 'forkserver'])), quick=60, thorough=600)
def workers(case, rec):
    """the cap limits the number of processes; threads and no workers stay in this one"""
    m, proc = mode(case, rec)
    os.environ.pop('RAYTOOLS_PROC_CAP', None)
    if case['env']:
        os.environ['RAYTOOLS_PROC_CAP'] = str(case['env'])
    try:
        rec.nontrivial(proc and case['n'] > 1)
        opts = dict(context=case['context']) if case['context'] != 'fork' else {}
        got = pool(pooltasks.pid, [(i, .002) for i in range(case['n'])], workers=m, cap=case['cap'], **opts)
        require(len(got) == case['n'], 'number of results')
        if proc:
            require(os.getpid() not in got, 'processes were asked for')
            limit = case['cap'] or case['env'] or os.cpu_count()
            require(len(set(got)) <= limit, 'more processes than the cap', used=len(set(got)), cap=limit)
        else:
            require(set(got) == {os.getpid()}, 'no processes were asked for')
    finally:
        os.environ.pop('RAYTOOLS_PROC_CAP', None)
