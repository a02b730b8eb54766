"""What property modules are written against."""

import json
import os
import struct
import sys
import time
import warnings
import zlib


class Violation(Exception):
    """The property does not hold for the case being run."""


class Ctx:
    """Per-worker context: counters, and the marker of calls into the repo.

    The marker file holds a counter, the time at which the running call
    started (0 when none does) and the case, so that the parent process can
    tell a hang or a crash of the code under test from one of the harness.
    """

    def __init__(self, marker_path=None, replay=False):
        self.replay = replay
        self.classes = {}
        self.evaluations = 0
        self.hashes = set()
        self.samples = []
        self.nontrivial = False
        self.labels = []
        self.extra = {}
        self._fd = None
        if marker_path:
            self._fd = os.open(marker_path, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            os.pwrite(self._fd, struct.pack("<qdq", 0, 0.0, 0), 0)

    # -- bookkeeping ------------------------------------------------------
    def begin(self, case):
        self.evaluations += 1
        self.nontrivial = False
        self.labels = []
        if self._fd is not None:
            b = json.dumps(case).encode()
            os.pwrite(self._fd, struct.pack("<qdq", self.evaluations, 0.0, len(b)) + b, 0)

    def end(self, case):
        for l in self.labels:
            self.classes[l] = self.classes.get(l, 0) + 1
        if self.nontrivial:
            self.hashes.add(zlib.crc32(json.dumps(case, sort_keys=True).encode()))
            n = len(self.hashes)
            if len(self.samples) < 4 and n in (1, 20, 100, 400):
                self.samples.append(case)

    def label(self, *labels):
        self.labels.extend(str(l) for l in labels)

    def max(self, name, value):
        """Keep the largest value seen under this name (for the evidence)."""
        if value is not None and value > self.extra.get(name, -1e300):
            self.extra[name] = value

    # -- calls into the code under test -----------------------------------
    def call(self, fn, *args, **kwargs):
        if self._fd is not None:
            os.pwrite(self._fd, struct.pack("<d", time.time()), 8)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return fn(*args, **kwargs)
        finally:
            if self._fd is not None:
                os.pwrite(self._fd, struct.pack("<d", 0.0), 8)


def read_marker(path):
    """(evaluations, start time of the running call or 0, case or None)."""
    try:
        b = open(path, "rb").read()
        n, t, k = struct.unpack("<qdq", b[:24])
        case = json.loads(b[24:24 + k].decode()) if k else None
        return n, t, case
    except Exception:
        return 0, 0.0, None


class Raised:
    """Outcome of a call that raised."""

    def __init__(self, exc):
        self.exc = exc
        self.type = type(exc).__name__
        self.msg = str(exc)

    def __repr__(self):
        return f"{self.type}({self.msg!r})"


def attempt(ctx, fn, *args, **kwargs):
    """The value, or Raised; interpreter-level exits are not swallowed."""
    try:
        return ctx.call(fn, *args, **kwargs)
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001 - outcome is judged by the caller
        return Raised(e)
