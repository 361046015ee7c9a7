import numpy as np


class FixedRng(np.random.RandomState):
    """A generator whose uniform draws and integer draws are chosen by the test; it records what it was asked."""

    def __init__(self, u, ints=()):
        np.random.RandomState.__init__(self, 7)
        self.u, self.ints, self.asked = u, list(ints), []

    def rand(self, *shape):
        self.asked.append(('u',))
        return self.u if not shape else np.full(shape, self.u)

    def random_sample(self, size=None):
        self.asked.append(('u',))
        return self.u if size is None else np.full(size, self.u)

    random = random_sample

    def uniform(self, lo=0., hi=1., size=None):
        self.asked.append(('u',))
        v = lo + (hi - lo) * self.u
        return v if size is None else np.full(size, v)

    def _int(self, lo, hi):
        self.asked.append(('i', lo, hi))
        return int(lo + self.ints.pop(0) % (hi - lo)) if self.ints else int(lo)

    def randint(self, lo, hi=None, size=None, dtype=int):
        if hi is None:
            lo, hi = 0, lo
        assert size is None
        return self._int(int(lo), int(hi))

    def choice(self, a, size=None, replace=True, p=None):
        assert size is None and p is None
        if isinstance(a, (int, np.integer)):
            return self._int(0, int(a))
        a = list(a)
        return a[self._int(0, len(a))]
