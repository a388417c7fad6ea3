"""Problems and individuals for (real or fake) clusters: importable, so they pickle by reference."""
import fakedask
import numpy as np
from leap_ec.problem import ScalarProblem
from leap_ec.decoder import IdentityDecoder
REG = []


def _get(k):
    return REG[k]


class RegProblem(ScalarProblem):
    """Pickles as a reference, so that calls made on a 'worker' of this process reach the recorder."""
    def __init__(self, fn, maximize=True):
        super().__init__(maximize)
        self.fn, self.k = fn, len(REG)
        REG.append(self)

    def evaluate(self, phenome, *a, **kw):
        return self.fn(phenome)

    def __reduce__(self):
        return (_get, (self.k,))


class PlainProblem(ScalarProblem):
    """For workers in other processes: value of token t is given, tokens in `bad` raise."""
    def __init__(self, vals, bad, maximize=True, delay=0.0):
        super().__init__(maximize)
        self.vals, self.bad, self.delay = vals, bad, delay

    def evaluate(self, phenome, *a, **kw):
        import time
        t = int(phenome[0])
        if self.delay:
            time.sleep(self.delay * (t * 7 % 5))
        if t in self.bad:
            raise BOOM[t % len(BOOM)](f"planned failure of {t}")
        return float(self.vals[t % len(self.vals)])


COUNT = []


class CountingProblem(ScalarProblem):
    """A noisy problem evaluated by threads of this process: every evaluation returns another value."""
    def __init__(self):
        super().__init__(True)

    def evaluate(self, phenome, *a, **kw):
        COUNT.append(int(phenome[0]))
        return float(len(COUNT))


BOOM = [ValueError, RuntimeError, ZeroDivisionError, KeyError, AssertionError, StopIteration, OSError]
