"""numpy arrays between guard pages (shim/guard.c), from the moment it is installed."""
import ctypes
import os
import subprocess

SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim", "guard.c")
SET_HANDLER = 304  # PyDataMem_SetHandler in numpy's C interface, since 1.22


def compile_to(so):
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, SRC], check=True)
    return so


def install(so, end, fill):
    """Later arrays of this thread are guarded; returns (made, freed) counters."""
    import numpy as np

    lib = ctypes.CDLL(so)
    lib.guard_mode(int(end), int(fill))
    lib.guard_made.restype = lib.guard_freed.restype = ctypes.c_ulong
    py = ctypes.pythonapi
    py.PyCapsule_New.restype = ctypes.py_object
    py.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
    py.PyCapsule_GetPointer.restype = ctypes.c_void_p
    py.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
    name = ctypes.c_char_p(b"mem_handler")
    cap = py.PyCapsule_New(ctypes.addressof(ctypes.c_char.in_dll(lib, "guard_handler")), name, None)
    table = ctypes.cast(py.PyCapsule_GetPointer(np.core._multiarray_umath._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
    old = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(table[SET_HANDLER])(cap)
    install.keep = (lib, name, cap, old)
    if np.core.multiarray.get_handler_name(np.empty(3)) != "guarded":
        raise RuntimeError("guarded allocation is not in use")
    return lambda: (lib.guard_made(), lib.guard_freed())
