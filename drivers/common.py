"""What all of the drivers share: the trace, tags of frames and scratch files."""
import errno
import json
import os
import shutil
import sys
import tempfile
import traceback

import numpy as np


RESOURCES = (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EAGAIN,
             errno.EDQUOT)


class Tracer:
    def __init__(self, path):
        self.f = open(path, 'w')
        self.case = 0

    def emit(self, ev, **kw):
        self.f.write(json.dumps(dict(case=self.case, ev=ev, **kw)) + '\n')
        self.f.flush()


def main(run_case):
    """Runs the cases of argv[1] and records the events in argv[2].

    Exceptions of the code under test are events, those that are not expected
    where they are raised as well: no specification has an event "Unexpected".
    The end of memory, of space or of files is an error of the driver (status 3).
    """
    with open(sys.argv[1]) as f:
        cases = json.load(f)
    t = Tracer(sys.argv[2])
    scratch = tempfile.mkdtemp(prefix='driver-')
    try:
        for k, case in enumerate(cases):
            t.case = k
            t.emit('Begin')
            d = os.path.join(scratch, str(k))
            os.mkdir(d)
            try:
                run_case(case, t, d)
            except Exception as e:  # noqa: BLE001
                if isinstance(e, MemoryError) or getattr(e, 'errno', None) in RESOURCES:
                    raise
                t.emit('Unexpected', what=traceback.format_exc()[-1500:])
            shutil.rmtree(d, ignore_errors=True)
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(3)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def attempt(f, *a, **kw):
    """(result, None) or (None, name of the exception)"""
    try:
        return f(*a, **kw), None
    except Exception as e:  # noqa: BLE001
        return None, type(e).__name__


_M = np.uint64(0xFFFFFFFFFFFFFFFF)


def pattern(tag, count):
    """Pixels (uint16, the whole range) that are unique for a tag (> 0)."""
    with np.errstate(over='ignore'):
        x = np.arange(count, dtype=np.uint64) + np.uint64(tag) * np.uint64(0x9E3779B97F4A7C15)
        x ^= x >> np.uint64(30)
        x *= np.uint64(0xBF58476D1CE4E5B9)
        x ^= x >> np.uint64(27)
        x *= np.uint64(0x94D049BB133111EB)
        x ^= x >> np.uint64(31)
    return (x & np.uint64(0xFFFF)).astype('<u2')


class Tags:
    """Maps arrays back to the tags they were made from.

    0: all zeros, -1: something else.
    """

    def __init__(self):
        self.known = {}

    def make(self, tag, shape):
        if tag == 0:
            return np.zeros(shape, dtype='<u2')
        a = pattern(tag, int(np.prod(shape))).reshape(shape)
        self.known[a.tobytes()] = tag
        return a

    def of(self, a):
        b = np.ascontiguousarray(a, dtype='<u2').tobytes()
        if b in self.known:
            return self.known[b]
        return 0 if not np.any(a) else -1


def ints(x):
    return [int(v) for v in x]
