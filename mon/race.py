"""Thunks run at the same time, with delays injected where they touch the file system."""
import contextlib
import os
import sys
import threading
import time

from astropy.io import fits


@contextlib.contextmanager
def slow_files(seed, longest=0.004):
    """Delays before and after the calls between which another thread may act."""
    seen = [0]
    lock = threading.Lock()

    def slow(real):
        def f(*a, **k):
            with lock:
                seen[0] += 1
                t = longest * ((seed * 2654435761 + seen[0] * 40503) % 997) / 997
            time.sleep(t)
            try:
                return real(*a, **k)
            finally:
                time.sleep(t / 2)

        return f

    places = [(os, n) for n in ("mkdir", "stat", "rename", "replace", "remove", "unlink")] + [(fits.HDUList, "writeto")]
    old = [(o, n, getattr(o, n)) for o, n in places]
    for o, n, r in old:
        setattr(o, n, slow(r))
    try:
        yield seen
    finally:
        for o, n, r in old:
            setattr(o, n, r)


def together(thunks, seed):
    """(results or exceptions in the order of the thunks, number that began while another ran, delays injected)."""
    got = [None] * len(thunks)
    barrier = threading.Barrier(len(thunks))
    order = []

    def body(t):
        barrier.wait()
        order.append((t, 1))
        try:
            got[t] = thunks[t]()
        except BaseException as e:
            got[t] = e
        order.append((t, 0))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        with slow_files(seed) as seen:
            ts = [threading.Thread(target=body, args=(t,)) for t in range(len(thunks))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
    finally:
        sys.setswitchinterval(old)
    running, overlap = set(), 0
    for t, begin in order:
        if begin:
            overlap += bool(running)
            running.add(t)
        else:
            running.discard(t)
    return got, overlap, seen[0]
