"""What a harness sees. One harness text runs in three ways:

  SymEnv      symbolic values, children lists of symbolic length, cut loops (the deductive proof)
  BoundEnv    symbolic scalars, native lists of a fixed length (to find replayable counterexamples)
  ConEnv      ordinary values on the unmodified code of /repo (replay, enumeration, random histories)
"""
import json
import os
import random

INF = None


def _load_known():
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
    try:
        with open(path) as f:
            return {e['id'] for e in json.load(f)['findings']}
    except FileNotFoundError:
        return set()


KNOWN = _load_known()
KNOWN_HITS = {}


class Skip(BaseException):
    """The concrete run does not meet the harness's assumptions."""


class Violation(BaseException):
    def __init__(self, label, detail=''):
        self.label, self.detail = label, detail


class Ghost:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class EnvBase:
    concrete = False
    symbolic = False

    def defer(self, f):
        """f() is called when the run is over"""
        self.__dict__.setdefault('_deferred', []).append(f)

    def generalize(self, *names):
        """boolean attributes that are arbitrary at loop heads (instead of one control mode per value)"""

    def invariant(self, name, variables, f):
        pass

    def close(self):
        for f in reversed(self.__dict__.pop('_deferred', [])):
            f()

    def fixed(self, v):
        """is v an ordinary int"""
        return type(v) is int

    def ghost(self, label, **kw):
        g = Ghost(**kw)
        self.track(label, g)
        return g


class ConEnv(EnvBase):
    """Values come from `source(name, kind, options)`; the run is recorded in `trace`."""
    concrete = True
    bounded = False

    def __init__(self, source):
        self.source = source
        self.trace = []
        self.covers = set()
        self.labels = {}
        self.notes = []

    def _get(self, name, cands):
        v = self.source.pick(name, cands)
        self.trace.append([name, v])
        return v

    def choice(self, name, options):
        options = list(options)
        i = self.source.index(name, len(options))
        self.trace.append([name, i])
        return options[i]

    def bool(self, name):
        return self.choice(name, [False, True])

    def int(self, name, lo=None, hi=None, small=None):
        a, b = small if small else (-2 if lo is None else lo, 4 if hi is None else hi)
        if lo is not None:
            a = max(a, lo)
        if hi is not None:
            b = min(b, hi)
        v = self.source.value(name, 'int', (lo, hi), list(range(a, b + 1)))
        self.trace.append([name, v])
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        return v

    def real(self, name, pool=(0.0, 1.0, -1.0, 0.5, 2.5, 1e9, -1e-9)):
        v = self.source.value(name, 'real', (None, None), list(pool))
        self.trace.append([name, v])
        return float(v)

    def str(self, name, pool=('', 'a', 'b', 'ab', '0', 'x_1')):
        v = self.source.value(name, 'str', (None, None), list(pool))
        self.trace.append([name, v])
        return v

    def token(self, name, pool):
        return self.choice(name, pool)

    def size(self, name, small=3, lo=0):
        return self.int(name, lo, None, small=(lo, small))

    def rounds(self, name, small=4):
        return range(small)

    def index(self, name, n):
        if n <= 0:
            raise Skip()
        return self.int(name, 0, n - 1, small=(0, n - 1))

    def for_all(self, n, pred):
        for i in range(n):
            self.assume(pred(i))

    def arbitrary(self, name, n):
        return self.int(name, 0, n - 1, small=(0, n - 1)) if n > 0 else -1

    def count(self, name, n, pred):
        return sum(1 for i in range(n) if pred(i))

    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, cond, label, detail='', known=None):
        """known: id of the listed finding this exact input belongs to (None: a failure is a new violation)"""
        self.labels[label] = self.labels.get(label, 0) + 1
        if not cond:
            if known is not None and known in KNOWN:
                KNOWN_HITS.setdefault(known, {'label': label, 'trace': list(self.trace)})
                raise Skip()
            raise Violation(label, detail() if callable(detail) else detail)

    def fail(self, label, detail='', known=None):
        self.check(False, label, detail, known)

    def cover(self, label):
        self.covers.add(label)

    def symbool(self, name):
        return self.choice(name, (False, True))

    def track(self, label, obj):
        pass

    track_node = track

    def const(self, name, v):
        return v

    def kappa(self, name, v):
        return v

    def pivot(self, name):
        pass

    def note(self, s):
        self.notes.append(s)

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def and_(self, *a):
        return all(a)

    def or_(self, *a):
        return any(a)

    def not_(self, a):
        return not a


class RandomSource:
    def __init__(self, seed, wide=True):
        self.r = random.Random(seed)
        self.wide = wide

    def index(self, name, n):
        if n <= 0:
            raise Skip()
        return self.r.randrange(n)

    def value(self, name, kind, rng, small):
        if not small:
            raise Skip()
        return self.r.choice(small)


class EnumSource:
    """Depth-first enumeration of all value combinations (bounded-exhaustive)."""

    def __init__(self):
        self.stack = []     # [index, n]
        self.pos = 0
        self.done = False

    def start(self):
        self.pos = 0

    def index(self, name, n):
        if n <= 0:
            raise Skip()
        if self.pos < len(self.stack):
            i = self.stack[self.pos][0]
            self.stack[self.pos][1] = n
            if i >= n:
                raise Skip()
        else:
            self.stack.append([0, n])
            i = 0
        self.pos += 1
        return i

    def value(self, name, kind, rng, small):
        if not small:
            raise Skip()
        return small[self.index(name, len(small))]

    def advance(self):
        del self.stack[self.pos:]
        while self.stack:
            self.stack[-1][0] += 1
            if self.stack[-1][0] < self.stack[-1][1]:
                return True
            self.stack.pop()
        self.done = True
        return False


class ReplaySource:
    def __init__(self, trace, lenient=False, seed=0):
        self.trace = list(trace)
        self.i = 0
        self.lenient = lenient
        self.r = random.Random(seed)

    def _next(self, name):
        if self.i < len(self.trace) and self.trace[self.i][0] == name:
            v = self.trace[self.i][1]
            self.i += 1
            return True, v
        self.i += 1
        return False, None

    def index(self, name, n):
        ok, v = self._next(name)
        if ok and isinstance(v, int) and 0 <= v < n:
            return v
        if n <= 0:
            raise Skip()
        return self.r.randrange(n)

    def value(self, name, kind, rng, small):
        ok, v = self._next(name)
        if ok and v is not None:
            return v
        if not small:
            raise Skip()
        return self.r.choice(small)
