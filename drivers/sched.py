"""Controls the schedule perturbation (harness/vfsched.cpp), if it is loaded."""
import ctypes

try:
    _lib = ctypes.CDLL(None)
    _set = _lib.vf_sched
    _set.argtypes = [ctypes.c_uint64, ctypes.c_uint32, ctypes.c_uint32]
except AttributeError:
    _set = None


def perturb(s):
    """s: [seed, probability out of 65536, largest delay in microseconds]"""
    if _set is not None and s:
        _set(*s)


def calm():
    if _set is not None:
        _set(0, 0, 0)
