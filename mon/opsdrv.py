"""python -m mon.opsdrv JOB.json OUT.json: runs catalogue operations, writes digests.

JOB: {"folder": ..., "calls": [[name, seed, shapes], ...], "dirty": byte or null, "guard": see below or null}
The environment (MALLOC_PERTURB_, PYTHONHASHSEED) is the caller's.
"""
import faulthandler
import json
import os
import sys


def main():
    faulthandler.enable()
    job = json.load(open(sys.argv[1]))
    from mon import boot

    boot.boot(os.path.dirname(job["folder"]))
    import numpy as np

    from mon import ops
    import micropolarray as ml

    ml.set_default_angles({0: 0, 45: 1, -45: 2, 90: 3})
    os.makedirs(job["folder"], exist_ok=True)
    os.chdir(job["folder"])
    sys.stdout = sys.stderr = open(os.devnull, "w")
    counts = None
    if job.get("guard"):  # [library, arrays at the end of their pages, byte of fresh memory]
        from mon import guardmem

        counts = guardmem.install(*job["guard"])
    out = []
    for k, (name, seed, kind) in enumerate(job["calls"]):
        shapes = ops.of_kind(kind)
        thunk, m = ops.build(name, seed, None, os.path.join(job["folder"], f"c{k}"), shapes)
        if job.get("dirty") is not None:  # numpy keeps small freed blocks for itself
            junk = [np.full(n, job["dirty"], dtype="uint8") for n in range(8, 1033, 8) for _ in range(3)]
            del junk
        try:
            d = ops.digest(thunk())
        except Exception as e:
            d = f"raised {type(e).__name__}: {e}"
        out.append(d)
    if counts:
        with open(sys.argv[2] + ".counts", "w") as f:
            json.dump(counts(), f)
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)
    sys.stdout = sys.__stdout__
    os._exit(0)


try:
    main()
except BaseException:
    import traceback

    sys.__stderr__.write(traceback.format_exc())
    sys.__stderr__.flush()
    os._exit(1)
