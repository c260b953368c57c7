"""Run independent analyses of one loaded program in forked workers."""
import multiprocessing
import os

_FN = [None, None]


def _call(k):
    try:
        return (True, _FN[0](_FN[1][k]))
    except Exception as e:                       # reported by the parent
        import traceback
        return (False, "%r\n%s" % (e, traceback.format_exc()))


def par(fn, items, procs=None):
    """[fn(x) for x in items]; results must be picklable"""
    items = list(items)
    n = min(procs or 8, os.cpu_count() or 1, len(items))
    if n <= 1:
        return [fn(x) for x in items]
    _FN[:] = [fn, items]
    with multiprocessing.get_context("fork").Pool(n) as pool:
        out = pool.map(_call, range(len(items)), chunksize=1)
    for ok, r in out:
        if not ok:
            raise RuntimeError(r)
    return [r for ok, r in out]
