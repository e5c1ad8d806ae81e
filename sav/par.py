"""Every obligation is decided in a process of its own: term tables are per process."""
import multiprocessing as mp
import os
import resource
import signal

from .interp import Unsupported

_job = None
SECONDS = 330          # several hundred times what any function of the crate needs
MEMORY = 3 << 30


def _late(*_):
    raise Unsupported("it takes too long")


def _run(x):
    signal.signal(signal.SIGALRM, _late)
    signal.alarm(SECONDS)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    try:
        return x, _job(x)
    finally:
        signal.alarm(0)


def complete(fn, *args, **kw):
    """the analysis of one function; whatever stops it means that it cannot be analysed"""
    try:
        return fn(*args, **kw)
    except Unsupported:
        raise
    except MemoryError:
        pass
    except Exception as e:
        tb = e.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        raise Unsupported("%s in %s" % (type(e).__name__, tb.tb_frame.f_code.co_name)) from e
    raise Unsupported("it takes too much memory")


def isolated(fn, items, jobs=None):
    global _job
    items = list(items)
    _job = fn
    with mp.get_context("fork").Pool(jobs or min(8, os.cpu_count() or 1), maxtasksperchild=1) as pool:
        done = dict(pool.imap_unordered(_run, items, chunksize=1))
    return [(x, done[x]) for x in items]
