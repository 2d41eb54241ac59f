"""Deterministic case generation and law registry for the bounded search / replay layer.

A law is a function law(g) which draws one case from the generator g, runs the real
code from /repo on it and checks it against the independent oracle. It returns a
hashable description of the case (for counting distinct cases), or None for a trivial
case, or raises Bad(description) when the real code breaks the property.
"""
import random, contextlib, io, warnings, signal
import numpy as np

LAWS = {}          # property -> list of (name, fn, n_quick, n_thorough)


class Bad(Exception):
    pass


class Skip(Exception):
    pass


class Hang(BaseException):
    pass


def law(prop, n=400, thorough=None):
    def deco(fn):
        LAWS.setdefault(prop, []).append((fn.__name__, fn, n, thorough or 12 * n))
        return fn
    return deco


def check(cond, msg, *args):
    if not cond:
        raise Bad(msg.format(*args) if args else msg)


def rejects(fn, *excs):
    excs = excs or (Exception,)
    try:
        with quiet():
            fn()
    except excs:
        return True
    return False


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


class Gen(random.Random):
    """Random source of one case: all choices derive from (law name, seed, index)."""

    def __init__(self, name, seed, index, ints=(), floats=(), strs=()):
        super().__init__('{}|{}|{}'.format(name, seed, index))
        self.index = index
        self.ints = tuple(ints)
        self.floats = tuple(floats)
        self.strs = tuple(strs)

    # ---------------------------------------------------------------- integers
    def near_literal(self, hi=4000):
        c = [i for i in self.ints if 0 <= i <= hi]
        if not c:
            return self.randrange(0, 60)
        return max(0, self.choice(c) + self.randrange(-1, 2))

    def size(self, small=4, big=9):
        r = self.random()
        if self.index < 40:
            return self.randrange(0, min(small, 3) + 1)
        if r < .6:
            return self.randrange(0, small + 1)
        if r < .9:
            return self.randrange(0, big + 1)
        c = [i for i in self.ints if small < i <= 24]
        return max(0, (self.choice(c) if c else 12) + self.randrange(-1, 2))

    def label_pool(self, wide=True):
        r = self.random()
        if r < .55 or not wide:
            return list(range(self.randrange(1, 8)))
        if r < .75:
            return list(range(self.randrange(1, 24)))
        if r < .85:
            return sorted(set(self.randrange(0, 300) for _ in range(14)))
        base = self.near_literal(1500)
        return sorted(set([max(0, base + d) for d in range(-3, 6)] + [self.near_literal(1500) for _ in range(4)] + [0, 1]))

    # ------------------------------------------------------------ coefficients
    def real(self, zero=.1):
        r = self.random()
        if r < zero:
            return 0.0
        if r < .45:
            return float(self.choice([1, -1, 2, -2, .5, -.5, 3, 1.5]))
        if r < .85:
            return round(self.uniform(-3, 3), 6)
        if r < .93 or not self.floats:
            return self.choice([1, -1]) * 10.0 ** self.randrange(-9, 7)
        return self.choice([1, -1]) * self.choice(self.floats) * self.choice([.5, .99, 1.0, 1.01, 2.0])

    def cplx(self, zero=.1):
        r = self.random()
        if r < .5:
            return complex(self.real(zero))
        if r < .6:
            return self.choice([1j, -1j])
        return complex(self.real(zero), self.real(zero))

    def subset(self, xs, k=None):
        xs = list(xs)
        k = self.randrange(0, len(xs) + 1) if k is None else min(k, len(xs))
        return sorted(self.sample(xs, k))

    # ----------------------------------------------------------------- strings
    def string_parts(self, op_type, pool=None, kmax=None):
        pool = self.label_pool() if pool is None else pool
        k = self.size() if kmax is None else self.randrange(0, kmax + 1)
        labels = self.subset(pool, k)
        ops = [self.choice(OPS[op_type]) for _ in labels]
        return ops, labels


OPS = {'Pauli': ('X', 'Y', 'Z'), 'Majorana': ('A', 'B', 'D'), 'Fermion': ('CDag', 'C')}


def alarm_handler(signum, frame):
    raise Hang()


def run_case(fn, g, limit=60.0):
    """Runs one case; returns (status, info): ok/trivial/skip/bad."""
    signal.signal(signal.SIGALRM, alarm_handler)
    signal.setitimer(signal.ITIMER_REAL, limit)
    np.random.seed(g.randrange(2 ** 31))
    try:
        with quiet():
            key = fn(g)
        return ('trivial', None) if key is None else ('ok', key)
    except Skip:
        return ('skip', None)
    except Bad as e:
        return ('bad', str(e))
    except Hang:
        return ('bad', 'the call did not finish within {} s'.format(limit))
    except (MemoryError, ImportError):
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('{}:{}'.format(f.filename.split('/')[-1], f.lineno) for f in tb[::-1][:4])
        return ('bad', 'unexpected {}: {} at {}'.format(type(e).__name__, e, where))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
