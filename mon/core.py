"""Case runner core: what a scenario sees (Ctx), how verdicts are recorded.

A scenario is a function f(ctx) that drives the real code of /repo through its
public interface and lets the monitors in ctx judge what it observed.  All its
random choices come from ctx.rng, which is derived from (VERIF_SEED, property,
scenario, case index), so that one case can be replayed alone.
"""
import errno
import os
import shutil
import sys
import traceback
import zlib

import numpy as np

SCENARIOS = {}  # prop -> list of Scenario


class Scenario:
    def __init__(self, prop, name, fn, quick, thorough, cpu, large=0):
        self.prop, self.name, self.fn = prop, name, fn
        self.quick, self.thorough, self.cpu = quick, thorough, cpu
        self.large = large  # most pixels of its images; 0: the ordinary, small ones

    def count(self, tier):
        return self.quick if tier == "quick" else self.thorough


def scenario(prop, quick=20, thorough=200, name=None, cpu=120, large=None):
    """Register f(ctx) as a scenario of a property (or of several).

    large=(quick, thorough, pixels) registers it again as <name>_large, whose
    image sizes (gen.shape, gen.even, gen.dims) are long and thin, of hundreds
    of pixels a side or the camera's, up to that many pixels."""

    def deco(fn):
        props = [prop] if isinstance(prop, str) else prop
        for p in props:
            SCENARIOS.setdefault(p, []).append(
                Scenario(p, name or fn.__name__, fn, quick, thorough, cpu)
            )
            if large:
                SCENARIOS[p].append(
                    Scenario(p, (name or fn.__name__) + "_large", fn, large[0], large[1], cpu, large[2])
                )
        return fn

    return deco


class Violation(Exception):
    def __init__(self, kind, msg, detail=None):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg, self.detail = kind, msg, detail or {}


class Inconclusive(Exception):
    pass


RESOURCE_ERRNOS = {errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EAGAIN, errno.ENOMEM}


def _short(x, n=400):
    if isinstance(x, np.ndarray):
        s = f"ndarray{x.shape}{x.dtype}:" + np.array2string(
            x, threshold=24, edgeitems=2, precision=6
        )
    else:
        s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


# results that are one array for everybody, by design
SHARED_RESULTS = ("map_polar_coordinates",)


class Ctx:
    def __init__(self, prop, scen, seed, idx, tier, scratch, known=(), large=0):
        self.large = large
        self.prop, self.scen, self.seed, self.idx, self.tier = prop, scen, seed, idx, tier
        key = zlib.crc32(f"{prop}/{scen}".encode())
        self.rng = np.random.default_rng([int(seed), key, int(idx)])
        self.events = {}
        self.sigs = []
        self.samples = []
        self.known = set(known)
        self.known_hits = []
        self.comparisons = 0
        self._scratch = scratch
        self._tmp = None
        self._other = np.random.default_rng([int(seed), key, int(idx), 7])
        self._ntmp = 0

    # --- observation bookkeeping -------------------------------------------
    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def sig(self, *parts):
        """Names what made this case distinct; counted in the evidence."""
        self.sigs.append("|".join(str(p) for p in parts))

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append({k: _short(v, 160) for k, v in kw.items()})

    # --- scratch -------------------------------------------------------------
    @property
    def tmp(self):
        if self._tmp is None:
            # the same folder for every case: what is kept in the process under a
            # file's name from a former case shows in this one.  Not where killed
            # calculations may still be writing.
            own = self.prop == "C16" or "fault" in self.scen
            self._tmp = os.path.join(self._scratch, f"case-{self.scen}-{self.idx}" if own else "case")
            os.makedirs(self._tmp, exist_ok=True)
        return self._tmp

    def path(self, *parts):
        return os.path.join(self.tmp, *parts)

    def cleanup(self):
        if self._tmp is not None and os.path.isdir(self._tmp):
            shutil.rmtree(self._tmp, ignore_errors=True)
        self._tmp = None

    # --- choices ---------------------------------------------------------------
    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def integer(self, lo, hi):
        """inclusive"""
        return int(self.rng.integers(lo, hi + 1))

    def chance(self, p):
        return bool(self.rng.random() < p)

    # --- verdicts --------------------------------------------------------------
    def fail(self, kind, msg, **detail):
        if kind in self.known:
            if kind not in self.known_hits:
                self.known_hits.append(kind)
            return
        raise Violation(kind, msg, {k: _short(v) for k, v in detail.items()})

    def ok(self, cond, kind, msg="", **detail):
        self.comparisons += 1
        if not cond:
            self.fail(kind, msg, **detail)
            return False
        return True

    def eq(self, actual, expected, kind, what=""):
        """Exact equality of arrays (nan equal to nan), shapes included."""
        self.comparisons += 1
        a, e = np.asarray(actual), np.asarray(expected)
        if a.shape != e.shape:
            return self.fail(kind, f"{what}: shape {a.shape}, expected {e.shape}")
        try:
            same = np.array_equal(a, e, equal_nan=True)
        except TypeError:
            same = np.array_equal(a, e)
        if not same:
            with np.errstate(all="ignore"):
                bad = np.argwhere(~((a == e) | ((a != a) & (e != e))))
            w = tuple(int(v) for v in bad[0]) if len(bad) else ()
            return self.fail(
                kind,
                f"{what}: {len(bad)} of {a.size} elements differ, first at {w}: {a[w]!r}, expected {e[w]!r}",
                actual=a,
                expected=e,
            )
        return True

    def close(self, actual, expected, kind, what="", rtol=1e-9, atol=None, scale=None):
        """|actual-expected| <= atol + rtol*|expected| (nan equal to nan);
        atol defaults to rtol times the largest finite |expected| (or scale)."""
        self.comparisons += 1
        a, e = np.asarray(actual, dtype=float), np.asarray(expected, dtype=float)
        if a.shape != e.shape:
            return self.fail(kind, f"{what}: shape {a.shape}, expected {e.shape}")
        if atol is None:
            if scale is None:
                fin = np.abs(e[np.isfinite(e)])
                scale = float(fin.max()) if fin.size else 0.0
            atol = rtol * max(scale, 1e-300)
        with np.errstate(all="ignore"):
            good = (a == e) | (np.isnan(a) & np.isnan(e)) | (np.abs(a - e) <= atol + rtol * np.abs(e))
        if not np.all(good):
            bad = np.argwhere(~good)
            w = tuple(int(v) for v in bad[0])
            return self.fail(
                kind,
                f"{what}: {len(bad)} of {a.size} elements differ, first at {w}: {a[w]!r}, expected {e[w]!r}",
                actual=a,
                expected=e,
            )
        return True

    def run(self, fn, *args, **kwargs):
        """Call the code under test with valid arguments: it must not raise."""
        try:
            if self.rehearse and self._other.random() < self.rehearse:
                self._rehearsal(fn, args, kwargs)
            return fn(*args, **kwargs)
        except (Violation, Inconclusive, MemoryError):
            raise
        except OSError as e:
            if e.errno in RESOURCE_ERRNOS:
                raise Inconclusive(repr(e))
            self._raised(fn, e)
        except (Exception, SystemExit) as e:
            self._raised(fn, e)

    # --- the same objects with other contents --------------------------------
    rehearse = 0.15  # share of calls that are made once before with other contents

    def _rehearsal(self, fn, args, kwargs):
        """The call is made first with the very same array, image and demodulator
        objects holding other (shuffled) contents, its result dropped and the
        contents put back: what was kept of that call shows in the real one."""
        import copy

        import micropolarray as ml

        # headers and lists may be written into, as some functions do by design
        fresh = lambda v: copy.deepcopy(v) if isinstance(v, (dict, list)) or type(v).__name__ == "Header" else v
        args, kwargs = [fresh(v) for v in args], {k: fresh(v) for k, v in kwargs.items()}
        f, rest = fn, list(args)
        if getattr(f, "__name__", "") == "quiet" and rest:
            f, rest = rest[0], rest[1:]
        owner = getattr(f, "__self__", None)
        if isinstance(owner, ml.Image):
            name = f.__name__
            if name in ("subtract_dark", "correct_flat"):  # in place: of a copy, by the same operand
                call = lambda: getattr(copy.deepcopy(owner), name)(*rest, **kwargs)
            elif name in ("rebin", "congrid", "shift", "rotate", "clean_hot_pixels"):
                call = lambda: fn(*args, **kwargs)
                rest.append(owner)
            elif name == "demodulate":
                call = lambda: fn(*args, **kwargs)
            else:
                return
        elif owner is None or getattr(f, "__module__", "") == "_operator":
            if not str(getattr(f, "__module__", "")).startswith(("micropolarray", "_operator")):
                return
            call = lambda: fn(*args, **kwargs)
        else:
            return
        todo, seen = [], set()
        for x in rest + list(kwargs.values()):
            if isinstance(x, ml.Image):
                getattr(x, "Stokes_vec", None), getattr(x, "single_pol_subimages", None)
                arrays = [x.data]
            elif isinstance(x, ml.Demodulator):
                arrays = [x.mij, x.fit_found_flags]
            else:
                arrays = [x]
            for a in arrays:
                if isinstance(a, np.ndarray) and a.size > 1 and a.dtype.kind in "iuf" and a.flags.writeable and id(a) not in seen:
                    seen.add(id(a))
                    todo.append((a, a.copy()))
        if not todo:
            return
        try:
            for a, keep in todo:
                a[...] = self._other.permutation(keep.ravel()).reshape(keep.shape)
            got = call()
            if getattr(f, "__name__", "") not in SHARED_RESULTS:
                self._scribble(got, [a for a, _ in todo])
        except (Exception, SystemExit):
            pass
        finally:
            for a, keep in todo:
                a[...] = keep
        self.ev("calls made before with other contents")

    def _scribble(self, got, args):
        """The caller does as it likes with the arrays it was given."""
        import micropolarray as ml

        if isinstance(got, (list, tuple)):
            for g in got:
                self._scribble(g, args)
        elif isinstance(got, ml.Image):
            self._scribble(got.data, args)
        elif isinstance(got, np.ndarray) and got.flags.writeable and got.dtype.kind in "iufb":
            if not any(np.shares_memory(got, a) for a in args):
                got[...] = ~got if got.dtype.kind == "b" else got * 3 + 1
                self.ev("results written into by their owner", 1)

    def _raised(self, fn, e):
        self.fail(
            f"raised-{type(e).__name__}",
            f"{getattr(fn, '__qualname__', fn)} raised {type(e).__name__} on a valid input: {e}",
            traceback="".join(traceback.format_exception(e))[-1500:],
        )

    def refuses(self, fn, *args, kind="not-refused", what="", **kwargs):
        self.comparisons += 1
        try:
            r = fn(*args, **kwargs)
        except (Violation, Inconclusive, MemoryError):
            raise
        except Exception as e:
            self.ev("refusals")
            return e
        except SystemExit as e:
            if e.code in (None, 0):
                self.fail(kind, f"{what}: ended the process with a success status instead of an error")
            self.ev("refusals")
            return e
        self.fail(kind, f"{what or getattr(fn, '__qualname__', fn)} accepted an invalid input", result=r)
        return None


def run_case(sc, seed, idx, tier, scratch, known):
    """Returns a dict: status ok / violation / inconclusive, with observations."""
    ctx = Ctx(sc.prop, sc.name, seed, idx, tier, scratch, known, sc.large)
    rec = {"scenario": sc.name, "idx": idx}
    try:
        sc.fn(ctx)
        rec["status"] = "ok"
        if not ctx.comparisons:
            rec["status"] = "vacuous"
    except Violation as v:
        rec.update(status="violation", kind=v.kind, msg=v.msg, detail=v.detail)
    except Inconclusive as e:
        rec.update(status="inconclusive", msg=str(e))
    except MemoryError as e:
        rec.update(status="inconclusive", msg=repr(e))
    except OSError as e:
        if e.errno in RESOURCE_ERRNOS:
            rec.update(status="inconclusive", msg=repr(e))
        else:
            rec.update(_unexpected(e))
    except (Exception, SystemExit) as e:
        rec.update(_unexpected(e))
    finally:
        try:
            ctx.cleanup()
        except Exception:
            pass
    rec.update(
        events=ctx.events,
        sigs=ctx.sigs,
        samples=ctx.samples,
        comparisons=ctx.comparisons,
        known=ctx.known_hits,
    )
    return rec


def _unexpected(e):
    return dict(
        status="violation",
        kind=f"unexpected-{type(e).__name__}",
        msg=f"the observed values could not even be compared: {type(e).__name__}: {e}",
        detail={"traceback": "".join(traceback.format_exception(e))[-2500:]},
    )
