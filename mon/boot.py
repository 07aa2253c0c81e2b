"""Process set-up shared by every process that loads the code under test.

* the package is compiled from /repo's current sources, never from byte code
  (the repository tracks .pyc files);
* an audit hook refuses to create, change or remove files outside the scratch
  directory, so that a broken tree cannot damage the sandbox.
"""
import importlib.machinery
import importlib.util
import logging
import os
import sys
import warnings

REPO = os.environ.get("MON_REPO", "/repo")


class _FreshLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "micropolarray" and not name.startswith("micropolarray."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, f, loader=_FreshLoader(name, f), submodule_search_locations=[base]
            )
        f = base + ".py"
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(name, f, loader=_FreshLoader(name, f))
        return None


def _install_guard(scratch):
    roots = tuple(
        os.path.realpath(r) + os.sep for r in (scratch, "/dev/shm")
    )
    allowed = {"/dev/null", "/dev/tty", "/dev/zero", "/dev/full"}

    def inside(p):
        if p is None or isinstance(p, int):
            return True
        try:
            p = os.fsdecode(p)
        except TypeError:
            return True
        if p in allowed or p.startswith("/dev/pts/"):
            return True
        rp = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
        return (rp + os.sep).startswith(roots) or rp.startswith(roots)

    WR = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND

    def hook(event, args):
        if event == "open":
            path, mode, flags = args
            if isinstance(flags, int) and flags & WR and not inside(path):
                raise PermissionError(f"[monitor] write outside the scratch directory: {path}")
        elif event in ("os.remove", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod"):
            if not inside(args[0]):
                if event == "os.mkdir" and os.path.isdir(args[0]):
                    return
                raise PermissionError(f"[monitor] {event} outside the scratch directory: {args[0]}")
        elif event in ("os.rename", "os.link", "os.symlink"):
            if not inside(args[0]) and event == "os.rename" or not inside(args[1]):
                raise PermissionError(f"[monitor] {event} outside the scratch directory: {args[:2]}")

    sys.addaudithook(hook)


def boot(scratch):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder)
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import matplotlib

    matplotlib.use("Agg")
    _install_guard(scratch)
    import micropolarray

    want = os.path.join(REPO, "micropolarray", "__init__.py")
    if os.path.realpath(micropolarray.__file__) != os.path.realpath(want):
        raise RuntimeError(f"loaded {micropolarray.__file__}, not {want}")
    logging.getLogger().setLevel(logging.CRITICAL + 1)
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    return micropolarray
