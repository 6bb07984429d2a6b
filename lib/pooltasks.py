"""Functions run by pool_call in check C22 (importable by worker processes)."""
import os
import time


class TaskError(Exception):
    pass


def echo(*args, **kwargs):
    return list(args), dict(sorted(kwargs.items()))


def timed(i, delay, *rest, **kwargs):
    """sleeps, then tells its arguments"""
    time.sleep(delay)
    return i, list(rest), dict(sorted(kwargs.items()))


def some(i, delay, *rest, **kwargs):
    """results that are nothing, empty or zero among others"""
    time.sleep(delay)
    return [None, i, 0, '', [], False, {}, (), list(rest), ValueError][int(i) % 10]


def whole(arg, *rest, **kwargs):
    time.sleep(arg[1])
    return list(arg), list(rest), dict(sorted(kwargs.items()))


def pid(i, delay):
    time.sleep(delay)
    return os.getpid()


def failing(i, delay, bad, kind):
    time.sleep(delay)
    if i in bad:
        raise {'value': ValueError, 'key': KeyError, 'task': TaskError, 'zero': ZeroDivisionError, 'os': FileNotFoundError}[kind](i)
    return i


class Method(object):
    def __init__(self, k):
        self.k = k

    def __call__(self, i, delay, *rest, **kwargs):
        time.sleep(delay)
        return self.k + i, list(rest), dict(sorted(kwargs.items()))

    def method(self, i, delay, *rest, **kwargs):
        return self(i, delay, *rest, **kwargs)
