"""Runs one tensor calculation in a process of its own, with a fault in one worker.

argv: scratch, JSON {"kw":..., "fault":..., "claim": path, "nth": n, "delay": s}
The exit status is the program's: 0 only when the calculation ended normally.

fault 'raise': numpy.linalg.pinv raises in one worker process at its nth call there;
'kill': one worker process is killed `delay` seconds after it was started or at its
nth pinv; None: nothing."""
import json
import os
import signal
import sys
import threading
import time


def main():
    scratch, j = sys.argv[1], json.loads(sys.argv[2])
    me = os.getpid()
    import numpy as np

    state = {"mine": None, "n": 0}

    def claimed():
        """True in exactly one child process."""
        if os.getpid() == me:
            return False
        if state["mine"] is None:
            try:
                os.close(os.open(j["claim"], os.O_CREAT | os.O_EXCL | os.O_WRONLY))
                state["mine"] = True
            except FileExistsError:
                state["mine"] = False
        return state["mine"]

    def fired():
        os.close(os.open(j["claim"] + ".fired", os.O_CREAT | os.O_WRONLY))

    real = np.linalg.pinv

    def pinv(*a, **k):
        if j.get("fault") in ("raise", "kill-at") and os.getpid() != me and claimed():
            state["n"] += 1
            if state["n"] == j["nth"]:
                fired()
                if j["fault"] == "kill-at":
                    os.kill(os.getpid(), signal.SIGKILL)
                raise {"linalg": np.linalg.LinAlgError, "memory": MemoryError, "value": ValueError}[j.get("exc", "linalg")]("injected")
        return real(*a, **k)

    np.linalg.pinv = pinv
    if j.get("fault") == "kill-timer":

        def child():
            state["mine"] = None
            if claimed():
                def later():
                    time.sleep(j["delay"])
                    fired()
                    os.kill(os.getpid(), signal.SIGKILL)

                threading.Thread(target=later, daemon=True).start()

        os.register_at_fork(after_in_child=child)
    from mon import boot

    ml = boot.boot(scratch)
    kw = j["kw"]
    if isinstance(kw.get("normalizing_S"), str):
        kw["normalizing_S"] = np.load(kw["normalizing_S"])
    ml.calculate_demodulation_tensor(**kw)
    with open(j["claim"] + ".normal-end", "w"):
        pass


if __name__ == "__main__":
    main()
