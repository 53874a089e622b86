"""The seam for randomness and the recorder shared by the simulated callbacks.

``R`` is the one global of a worker process.  ``R.cur`` is the simulated world
whose code is running; every draw, callback and agent of that world is decided
by (seed, stream, count) and the counts live in the world, so that a world and
its restored copy continue with the same draws.
"""
import math

M64 = (1 << 64) - 1
G = 0x9E3779B97F4A7C15


def mix(x):
    x &= M64
    x ^= x >> 30
    x = x * 0xbf58476d1ce4e5b9 & M64
    x ^= x >> 27
    x = x * 0x94d049bb133111eb & M64
    return x ^ (x >> 31)


def H(*a):
    x = 0x243F6A8885A308D3
    for v in a:
        x = mix(x + G * ((int(v) & M64) + 1))
    return x


class Rand(object):
    """Small counter based generator used for plans."""

    def __init__(self, *key):
        self.s = H(*key)
        self.n = 0

    def u64(self):
        self.n += 1
        return mix(self.s + G * self.n)

    def u(self):
        return (self.u64() >> 11) * (1.0 / (1 << 53))

    def below(self, n):
        return self.u64() % n

    def rng(self, a, b):
        return a + self.u64() % (b - a + 1)

    def chance(self, p):
        return self.u() < p

    def pick(self, seq):
        return seq[self.u64() % len(seq)]

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.u() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def shuffle(self, lst):
        for i in range(len(lst) - 1, 0, -1):
            j = self.below(i + 1)
            lst[i], lst[j] = lst[j], lst[i]
        return lst

    def sample(self, seq, k):
        lst = list(seq)
        self.shuffle(lst)
        return lst[:k]


class World(object):
    """The draws and the log of one simulated system."""
    __slots__ = ('seed', 'counts', 'ucount', 'uid', 'log', 'ux', 'crash_at', 'calls', 'limit', 'fired', 'uhook', 'arrays')

    def __init__(self, seed, ux=0.0):
        self.seed = seed
        self.counts = {}
        self.ucount = 0
        self.uid = 0
        self.log = []
        self.ux = ux            # rate of extreme draws
        self.crash_at = -1      # raise SimCrash at this callback
        self.calls = 0
        self.limit = LIMIT      # no more callbacks than this
        self.fired = {}
        self.uhook = None
        self.arrays = False     # arrays of draws are simulated too

    def fork(self):
        w = World(self.seed, self.ux)
        w.counts = dict(self.counts)
        w.ucount = self.ucount
        w.uid = self.uid
        w.calls = self.calls
        w.limit = self.limit
        w.uhook = self.uhook
        w.arrays = self.arrays
        return w

    def fire(self, what, n=1):
        self.fired[what] = self.fired.get(what, 0) + n

    def tick(self):
        self.calls += 1
        if self.calls >= self.limit:
            raise Overrun()
        if self.calls == self.crash_at:
            self.fire('crash inside an event')
            raise SimCrash()

    def u(self):
        self.ucount += 1
        if self.uhook is not None:
            return self.uhook(self.ucount)
        x = H(self.seed, 101, self.ucount)
        if self.ux:
            if (x >> 40) % 1000003 < self.ux * 1000003:
                self.fire('extreme draw')
                return EXTREME[x % len(EXTREME)]
        return (x >> 11) * (1.0 / (1 << 53))

    def draw(self, qid, kind):
        key = (qid, kind)
        n = self.counts.get(key, 0)
        self.counts[key] = n + 1
        return H(self.seed, qid, kind, n)


EXTREME = [0.0, 1 - 2.0 ** -53, 2.0 ** -53, 0.5, 1 - 2.0 ** -52]


LIMIT = 12000


class Overrun(Exception):
    """A run takes too many steps (a deadlock under BAS is retried for ever in
    steps of 1e-7); it is dropped."""


class SimCrash(Exception):
    """The injected crash: a user supplied function fails."""


class _R(object):
    cur = None          # the running World, None: plain numpy
    draws = 0           # number of calls of numpy.random functions


R = _R()
ORIG = {}


def install():
    """Wraps the functions of numpy.random, before the code is imported."""
    import numpy as np
    if ORIG:
        return
    names = [n for n in dir(np.random) if callable(getattr(np.random, n)) and n[0].islower()
             and n not in ('seed', 'get_state', 'set_state', 'default_rng', 'test', 'get_bit_generator',
                           'set_bit_generator')]
    for n in names:
        ORIG[n] = getattr(np.random, n)

    def passing(n):
        f = ORIG[n]

        def g(*a, **k):
            R.draws += 1
            return f(*a, **k)
        g.__name__ = n
        return g

    for n in names:
        setattr(np.random, n, passing(n))

    def many(size):
        n = int(np.prod(size, dtype=int))
        return np.array([R.cur.u() for _ in range(n)], float).reshape(size)

    def arrays():
        return R.cur is not None and R.cur.arrays

    def uniform(low=0.0, high=1.0, size=None):
        R.draws += 1
        if R.cur is not None and size is None:
            return low + (high - low) * R.cur.u()
        if arrays():
            return low + (high - low) * many(size)
        return ORIG['uniform'](low, high, size)

    def exponential(scale=1.0, size=None):
        R.draws += 1
        if R.cur is not None and size is None:
            return -scale * math.log1p(-R.cur.u())
        return ORIG['exponential'](scale, size)

    def random(size=None):
        R.draws += 1
        if R.cur is not None and size is None:
            return R.cur.u()
        if arrays():
            return many(size)
        return ORIG['random'](size)

    def rand(*a):
        R.draws += 1
        if R.cur is not None and not a:
            return R.cur.u()
        if arrays():
            return many(a)
        return ORIG['rand'](*a)

    def randint(low, high=None, size=None, dtype=int):
        R.draws += 1
        if R.cur is not None and (size is None or R.cur.arrays):
            lo, hi = (0, low) if high is None else (low, high)
            if hi <= lo:
                raise ValueError('low >= high')
            if size is None:
                return lo + int(R.cur.u() * (hi - lo))
            return lo + (many(size) * (hi - lo)).astype(dtype)
        return ORIG['randint'](low, high, size, dtype)

    def choice(a, size=None, replace=True, p=None):
        R.draws += 1
        w = R.cur
        if arrays() and replace and p is not None and size is not None:
            # numpy validates the arguments, the draws are simulated
            st = np.random.get_state()
            ORIG['choice'](a, size, replace, p)
            np.random.set_state(st)
            lst = np.arange(a) if isinstance(a, (int, np.integer)) else np.array(a)
            cdf = np.cumsum(np.asarray(p, float))
            return lst[np.searchsorted(cdf / cdf[-1], many(size), side='right')]
        if w is None or p is not None or replace or not isinstance(size, (int, np.integer)):
            return ORIG['choice'](a, size, replace, p)
        lst = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        for i in range(len(lst) - 1, 0, -1):
            j = int(w.u() * (i + 1))
            lst[i], lst[j] = lst[j], lst[i]
        return np.array(lst[:size])

    np.random.uniform = uniform
    np.random.exponential = exponential
    np.random.random = random
    np.random.random_sample = random
    np.random.rand = rand
    np.random.choice = choice
    np.random.randint = randint
