"""Core of the deterministic simulator: choices, violations, digests.

One integer (VERIF_SEED) decides everything.  Run number i of property P uses
``random.Random("seed:P:i")`` to generate its *case* (a JSON document: inputs,
workload, fault plan, schedule seed).  While a case executes, every scheduling
or fault decision is one ``Choices.draw(n)``; the draws are recorded, so a
failing case is replayed - and minimised - from the explicit list of decisions.
Decision 0 is always the plainest one (run in order, no fault).
"""
import hashlib
import json
import random

import numpy as np


class HarnessError(Exception):
    """The harness itself is at fault (never reported as a violation)."""


class Choices:
    """Recorded stream of scheduling/fault decisions."""

    def __init__(self, seed, forced=None):
        self.rng = random.Random("choices:%s" % seed)
        self.forced = list(forced) if forced is not None else None
        self.trace = []

    def draw(self, n, p_nonzero=None):
        """An integer in [0, n).  p_nonzero: probability of a non-zero answer."""
        if n <= 1:
            return 0
        i = len(self.trace)
        if self.forced is not None:
            v = self.forced[i] % n if i < len(self.forced) else 0
        elif p_nonzero is not None and self.rng.random() >= p_nonzero:
            v = 0
        elif p_nonzero is not None:
            v = self.rng.randrange(1, n)
        else:
            v = self.rng.randrange(n)
        self.trace.append(v)
        return v


class Result:
    """What one simulated run produced."""

    def __init__(self):
        self.violations = []      # list of {"code","msg"}
        self.faults = {}          # fault kind -> times it actually fired
        self.probes = {}          # rare condition -> times hit
        self.states = set()       # distinct schedule/state signatures
        self.steps = 0            # scheduler steps / simulated operations
        self.simtime = 0.0        # simulated seconds covered
        self.trace = None         # recorded choices
        self.log = hashlib.sha256()
        self.nontrivial = False
        self.note = {}

    def violate(self, code, msg):
        self.violations.append({"code": code, "msg": str(msg)[:600]})

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def event(self, *parts):
        """Append to the event log (its digest proves determinism)."""
        for p in parts:
            if isinstance(p, np.ndarray):
                self.log.update(str(p.dtype).encode() + str(p.shape).encode())
                self.log.update(np.ascontiguousarray(p).tobytes())
            else:
                self.log.update(repr(p).encode())

    def state(self, *parts):
        h = hashlib.sha1(repr(parts).encode()).hexdigest()[:16]
        self.states.add(h)


def sig(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:12]


def arr_equal(a, b, rtol=1e-9, atol=1e-290):
    """Equality up to rounding, NaN == NaN; exact for non floats."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fc" or b.dtype.kind in "fc":
        try:
            a = a.astype(float)
            b = b.astype(float)
        except (TypeError, ValueError):
            return bool(np.all(a == b))
        with np.errstate(all="ignore"):
            return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
    return bool(np.array_equal(a, b))


def first_diff(a, b, rtol=1e-9, atol=1e-290):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return "shape %s vs %s" % (a.shape, b.shape)
    with np.errstate(all="ignore"):
        if a.dtype.kind in "fcb" and b.dtype.kind in "fcb":
            bad = ~np.isclose(a.astype(float), b.astype(float), rtol=rtol, atol=atol, equal_nan=True)
        else:
            bad = a != b
    idx = np.argwhere(np.atleast_1d(bad))
    if len(idx) == 0:
        return "no difference"
    i = tuple(int(x) for x in idx[0])
    av, bv = (a[i], b[i]) if a.ndim else (a[()], b[()])
    return "at %s: %r vs %r (%d of %d entries differ)" % (i, av, bv, len(idx), a.size)


# ---- minimisation ---------------------------------------------------------

def shrink_choices(trace):
    """Candidate shorter/simpler decision lists."""
    n = len(trace)
    yield []
    k = n
    while k >= 1:
        for i in range(0, n, k):
            cand = trace[:i] + trace[i + k:]
            if cand != trace:
                yield cand
        for i in range(0, n, k):
            if any(trace[i:i + k]):
                yield trace[:i] + [0] * len(trace[i:i + k]) + trace[i + k:]
        k //= 2


def strip_zeros(trace):
    t = list(trace)
    while t and t[-1] == 0:
        t.pop()
    return t
