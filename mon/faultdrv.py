"""Driver process for file-system fault enumeration (LD_PRELOADed with the shim).

Reads one JSON job per line, runs it in a forked child with the fault armed and
answers with how the child ended and what it did to the watched folder."""
import ctypes
import json
import os
import resource
import signal
import sys

from mon import boot


def job(lib, j, conv):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        out = {"how": "returned"}
        try:
            os.chdir(j["dir"])
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            signal.alarm(60)
            fn = getattr(conv, j["fn"])
            if j.get("fsize") is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (j["fsize"], resource.RLIM_INFINITY))
            lib.fi_arm(os.fsencode(j["dir"]), j["mode"], j["n"], j["errno"])
            try:
                fn(*j["args"], **j.get("kwargs", {}))
            except BaseException as e:
                out = {"how": "raised", "exc": f"{type(e).__name__}: {e}"[:200]}
            import gc

            gc.collect()
            lib.fi_disarm()
            out.update(count=lib.fi_count(), fired=lib.fi_fired(), trace=lib.fi_trace().decode())
        except BaseException as e:
            out = {"how": "driver-error", "exc": repr(e)}
        os.write(w, json.dumps(out).encode())
        os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 99:
        return {"how": "killed", "fired": 1}
    if os.WIFSIGNALED(st):
        return {"how": "signal", "exc": str(os.WTERMSIG(st))}
    return json.loads(buf)


def main():
    lib = ctypes.CDLL(sys.argv[1])
    lib.fi_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_int]
    lib.fi_trace.restype = ctypes.c_char_p
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    boot.boot(sys.argv[2])
    import micropolarray.processing.convert as conv
    from astropy.io import fits  # noqa: F401  everything loaded before arming

    print(json.dumps({"ready": True}), file=out, flush=True)
    for line in sys.stdin:
        print(json.dumps(job(lib, json.loads(line), conv)), file=out, flush=True)


main()
