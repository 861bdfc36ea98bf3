"""Scripted random generators: every draw is a choice point; a schedule maps choice indices to extreme outcomes."""
import contextlib
import numpy as np

REAL = np.random.RandomState
HI = 1.0 - 2.0 ** -53


class Script(REAL):
    """Draws of RandomState(seed), except that the draws listed in dev take the given variant."""

    def __new__(cls, *a, **k):
        return super().__new__(cls)

    def __init__(self, seed=0, dev=None, log=None):
        super().__init__(seed)
        self.dev = dict(dev or {})
        self.n = 0
        self.kinds = []

    def _next(self, kind):
        v = self.dev.get(self.n)
        self.n += 1
        self.kinds.append(kind)
        return v

    def rand(self, *shape):
        u = REAL.random_sample(self, shape if shape else None)
        v = self._next("rand")
        if v is None:
            return u
        if v == 0:
            return np.zeros(shape) if shape else 0.0
        if v == 1:
            return np.full(shape, HI) if shape else HI
        return 1.0 - HI * u if v == 2 else u

    def random_sample(self, size=None):
        return self.rand(*(() if size is None else (size,) if np.isscalar(size) else size))

    def uniform(self, low=0.0, high=1.0, size=None):
        u = super().uniform(low, high, size)
        v = self._next("rand")
        if v == 0:
            return u * 0 + low
        if v == 1:
            return u * 0 + np.nextafter(high, low)
        return u

    def randint(self, low, high=None, size=None, dtype=int):
        r = super().randint(low, high, size, dtype)
        v = self._next("randint")
        if v is None:
            return r
        lo, hi = (0, low) if high is None else (low, high)
        c = {0: lo, 1: hi - 1, 2: min(lo + 1, hi - 1)}[v]
        return c if size is None else np.full(size, c, dtype=dtype)

    def permutation(self, x):
        p = super().permutation(x)
        v = self._next("perm")
        if v is None:
            return p
        y = np.arange(x) if np.isscalar(x) else np.array(x)
        return {0: y, 1: y[::-1].copy(), 2: np.roll(y, 1)}[v]

    def shuffle(self, x):
        super().shuffle(x)
        self._next("perm")


NVAR = {"rand": 3, "randint": 3, "perm": 3}


@contextlib.contextmanager
def patched(factory):
    """np.random.RandomState(...) gives factory(args) while active (isinstance keeps working)"""

    class Meta(type(REAL)):
        def __instancecheck__(c, o):
            return isinstance(o, REAL)

        def __call__(c, *a, **k):
            return factory(*a, **k)

    class Fake(REAL, metaclass=Meta):
        pass

    np.random.RandomState = Fake
    try:
        yield
    finally:
        np.random.RandomState = REAL
