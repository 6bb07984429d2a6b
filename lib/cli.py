"""Run the raytools command in this process, capturing what is written to the descriptors."""
import io
import os
import sys
import tempfile

from raytools import cli


def run(args, env=None, stdin=b''):
    """-> (exit code, stdout bytes, stderr text)"""
    old = {k: os.environ.get(k) for k in ('RAYTOOLS_PROC_CAP', 'CLASP_PIPE', *(env or {}))}
    os.environ['CLASP_PIPE'] = '1'
    os.environ.update(env or {})
    sys.stdout.flush()
    sys.stderr.flush()
    # text layers of this process write to the descriptors
    fds = os.dup(1), os.dup(2)
    si, so, se = sys.stdin, sys.stdout, sys.stderr
    sys.stdin = io.TextIOWrapper(io.BytesIO(stdin))
    with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err:
        os.dup2(out.fileno(), 1)
        os.dup2(err.fileno(), 2)
        sys.stdout = os.fdopen(1, 'w', closefd=False)
        sys.stderr = os.fdopen(2, 'w', closefd=False)
        try:
            try:
                cli.main.main([str(a) for a in args], prog_name='raytools')
                code = 0
            except SystemExit as ex:
                code = ex.code if isinstance(ex.code, int) else 0 if ex.code is None else 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            sys.stdin, sys.stdout, sys.stderr = si, so, se
            os.dup2(fds[0], 1)
            os.dup2(fds[1], 2)
            os.close(fds[0])
            os.close(fds[1])
            for k, v in old.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
        out.seek(0)
        err.seek(0)
        return code, out.read(), err.read().decode('utf8', 'replace')
