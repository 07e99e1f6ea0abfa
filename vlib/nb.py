"""Helpers for exhaustive kernels (numba compiled loops run in several threads without the GIL)."""
import threading
import numpy as np

U64 = np.uint64


def par(kernel, total, args=(), width=16, threads=8, lo=0):
    """Runs kernel(lo, hi, out, *args) over [lo, lo+total) in `threads` slices.

    A kernel adds to out[0] for every failing case and stores the first failing case in out[1:8];
    out[8:] are free counters, which are summed over the slices.
    """
    warm = np.zeros(width, np.uint64)
    kernel(lo, lo, warm, *args)  # compile in one thread
    threads = max(1, min(threads, total))
    bounds = [lo + total * i // threads for i in range(threads + 1)]
    outs = [np.zeros(width, np.uint64) for _ in range(threads)]
    errors = []

    def body(i):
        try:
            kernel(bounds[i], bounds[i + 1], outs[i], *args)
        except BaseException as error:  # noqa: B902
            errors.append(error)

    ts = [threading.Thread(target=body, args=(i,)) for i in range(threads)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]
    res = np.zeros(width, np.uint64)
    first = None
    for o in outs:
        res[0] += o[0]
        res[8:] += o[8:]
        if o[0] and first is None:
            first = o[1:8]
    if first is not None:
        res[1:8] = first
    return [int(v) for v in res]
