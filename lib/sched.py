"""Run native code of irspack under a chosen interleaving of its workers."""
import ctypes
import json

import irsload

_lib = None


def load():
    """Import irspack with extensions whose workers are scheduled by us."""
    global _lib
    so = irsload.build_scheduler()
    _lib = ctypes.CDLL(str(so), mode=ctypes.RTLD_GLOBAL)
    _lib.vs_begin.argtypes = [ctypes.c_int, ctypes.POINTER(ctypes.c_int), ctypes.c_int, ctypes.c_uint, ctypes.c_int]
    _lib.vs_begin.restype = None
    _lib.vs_end.argtypes = [ctypes.c_int]
    _lib.vs_end.restype = ctypes.c_char_p
    irsload.load(sched=True)


def under(order, workers, f, seed=0, record=True, cap=400):
    """Call f() while the workers of every parallel region it starts run one at
    a time, in the given order (worker numbers) as long as it lasts, then in a
    random one.  -> (result of f, what happened)"""
    a = (ctypes.c_int * max(1, len(order)))(*order)
    _lib.vs_begin(workers, a, len(order), seed & 0xffffffff, int(record))
    try:
        r = f()
    finally:
        t = json.loads(_lib.vs_end(cap))
    return r, t
