"""A second interpreter running the code under test without compilation.

Parent side: Interpreted().call("module:name", args, kwargs) gives the value
or Raised.  Child side: python -m pbt.interp reads and writes pickles.
"""

import atexit
import importlib
import os
import pickle
import struct
import subprocess
import sys
import warnings


class Outcome:
    """What the other interpreter's exception was."""

    def __init__(self, type_, msg):
        self.type, self.msg = type_, msg

    def __repr__(self):
        return f"{self.type}({self.msg!r})"


def read(f):
    h = f.read(8)
    if len(h) < 8:
        return None
    n, = struct.unpack("<q", h)
    return pickle.loads(f.read(n))


def write(f, obj):
    b = pickle.dumps(obj)
    f.write(struct.pack("<q", len(b)) + b)
    f.flush()


class Interpreted:
    def __init__(self):
        env = dict(os.environ, NUMBA_DISABLE_JIT="1")
        self.p = subprocess.Popen([sys.executable, "-m", "pbt.interp"], env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        atexit.register(self.close)

    def close(self):
        self.p.stdin.close()
        self.p.wait()

    def call(self, what, args, kwargs):
        write(self.p.stdin, (what, args, kwargs))
        ok, value = read(self.p.stdout)
        return value if ok else Outcome(*value)


def resolve(what):
    mod, name = what.split(":")
    return getattr(importlib.import_module(mod), name)


def main():
    import numpy as np

    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    fin, fout = sys.stdin.buffer, sys.stdout.buffer
    sys.stdout = sys.stderr
    while True:
        req = read(fin)
        if req is None:
            return
        what, args, kwargs = req
        try:
            out = (True, resolve(what)(*args, **kwargs))
        except Exception as e:  # noqa: BLE001 - judged by the parent
            out = (False, (type(e).__name__, str(e)))
        write(fout, out)


if __name__ == "__main__":
    main()
