import os

import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, raises
from gen import d
from raytools import io

CHECK = Check('C21', rule='cases: histories of up to 30 operations (set to integers, None or other types, clear, get with and without '
              'argument, direct edits of the environment variable to numbers and other text, the -n option of the command line). '
              'Non-trivial: at least one set and one further operation that follows it.',
              assumptions=['an explicit process count is returned as given'])
#: technique: property-based stateful testing: histories against a reference model

VAR = 'RAYTOOLS_PROC_CAP'
op = st.one_of(
    st.tuples(st.just('set'), st.one_of(st.integers(-3, 70), st.sampled_from([1, 2, 8, 0, -1, 10 ** 6]))),
    st.tuples(st.just('set'), st.integers(1, 12)),
    st.tuples(st.just('setnone'), st.just(0)), st.tuples(st.just('unset'), st.just(0)),
    st.tuples(st.just('get'), st.one_of(st.none(), st.integers(1, 99), st.integers(-2, 1))),
    st.tuples(st.just('bad'), st.sampled_from(['2.0', '"3"', 'True', '[4]', 'np.int64(5)', 'float("nan")', '(1,)', '""', '1+0j', '2.5'])),
    st.tuples(st.just('env'), st.sampled_from(['4', '17', ' 6 ', 'abc', '', '2.5', '0', '-3', '1e2', '0x4', 'None', '4 5', 'inf'])),
    st.tuples(st.just('pop'), st.just(0)),
    st.tuples(st.just('cli'), st.one_of(st.none(), st.integers(-1, 9))),
    st.tuples(st.just('pool'), st.integers(1, 3))).map(list)


def positive(s):
    try:
        n = int(s)
    except (TypeError, ValueError):
        return os.cpu_count()
    return n if n > 0 else os.cpu_count()


@CHECK.sub('history', d(ops=st.lists(op, min_size=1, max_size=30), start=st.sampled_from([None, '3', 'x'])), quick=800, thorough=25000)
def history(case, rec):
    from raytools import cli
    os.environ.pop(VAR, None)
    if case['start'] is not None:
        os.environ[VAR] = case['start']
    cap = case['start']
    others = {k: v for k, v in os.environ.items() if k != VAR}
    seen = False
    try:
        for name, v in case['ops']:
            rec.label(name)
            rec.nontrivial(seen)
            if name == 'set':
                io.set_nproc(v)
                cap = str(v) if v > 0 else None
                seen = True
            elif name == 'setnone':
                io.set_nproc(None)
            elif name == 'unset':
                io.unset_nproc()
                cap = None
            elif name == 'get':
                got = io.get_nproc() if v is None else io.get_nproc(v)
                want = positive(cap) if v is None else v
                require(got == want and type(got) is int, 'process count', got=got, want=want, ops=case['ops'])
            elif name == 'bad':
                raises(ValueError, lambda: io.set_nproc(eval(v)), f'set_nproc({v})')
            elif name == 'env':
                os.environ[VAR] = v
                cap = v
            elif name == 'pop':
                os.environ.pop(VAR, None)
                cap = None
            elif name == 'cli':
                run_cli(cli, v)
                if v is not None:
                    cap = str(v) if v > 0 else None
            else:
                # an explicit cap of a pool call leaves the setting alone
                from raytools.utility import pool_call
                require(pool_call(abs, [(-1,), (2,)], cap=v, workers='t', pbar=False) == [1, 2], 'pool call')
            require(io.get_nproc() == positive(cap), 'process count', after=name, arg=v, got=io.get_nproc(), want=positive(cap), ops=case['ops'])
            require(io.get_nproc(None) == positive(cap) and io.get_nproc(5) == 5, 'argument')
        require({k: v for k, v in os.environ.items() if k != VAR} == others, 'another environment variable changed')
    finally:
        os.environ.pop(VAR, None)


def run_cli(cli, n):
    """raytools -n N metric --help"""
    import contextlib
    import io as sio
    args = ([] if n is None else ['-n', str(n)]) + ['smooth', '--help']
    with contextlib.redirect_stdout(sio.StringIO()), contextlib.redirect_stderr(sio.StringIO()):
        try:
            cli.main.main(args, prog_name='raytools', standalone_mode=False)
        except SystemExit:
            pass
