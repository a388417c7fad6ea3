"""Driver-side helpers (run with /repo's interpreter): recording cases of the real code as ndjson."""
import argparse, json, math, os, random, signal, sys, traceback
import numpy as np

NAN = -1000000      # failed evaluation (NaN)
NONE = -1000001     # no fitness
INF = 1000000
NINF = -999999
ODD = -1000003      # a number that is not an integer where one is expected
BADT = -1000004     # not a number


class Hang(BaseException):
    pass


def _alarm(sig, frm):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


def num(x):
    """Encode a fitness-like value as an int of the specification."""
    if x is None:
        return NONE
    try:
        if isinstance(x, (bool, np.bool_)):
            return int(x)
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.item()
        f = float(x)
    except Exception:
        return BADT
    if math.isnan(f):
        return NAN
    if math.isinf(f):
        return INF if f > 0 else NINF
    if f != math.floor(f) or abs(f) > 900000:
        return ODD
    return int(f)


def nums(xs):
    return [num(x) for x in xs]


class Rec:
    def __init__(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--out"), ap.add_argument("--seed", type=int), ap.add_argument("--tier"), ap.add_argument("--work")
        ap.add_argument("--gen", action="append", default=[])
        self.a = ap.parse_args()
        self.thorough = self.a.tier == "thorough"
        self.f = open(self.a.out, "w")
        self.n = 0
        self.rng = random.Random(self.a.seed * 7919 + 17)
        random.seed(self.a.seed)
        np.random.seed(self.a.seed)

    def gen(self, k=0):
        """Cases generated by TLC from the specification, in a seeded random order (drivers derive secondary choices
        from a case's index; TLC's enumeration order would tie those choices to the case's own fields)."""
        with open(self.a.gen[k]) as f:
            xs = [json.loads(l) for l in f if l.strip()]
        random.Random(self.a.seed * 104729 + k).shuffle(xs)
        return xs

    def seed(self, *xs):
        s = abs(hash((self.a.seed,) + tuple(xs))) % (2 ** 31)
        random.seed(s)
        np.random.seed(s)

    def case(self, kind, fn, *args, limit=20, health=None, **static):
        """Run fn (which exercises the real code and returns a dict of observations) as one case."""
        self.n += 1
        rec = dict(case=self.n, kind=kind, exc="")
        rec.update(static)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            obs = fn(*args)
            signal.setitimer(signal.ITIMER_REAL, 0)
            rec.update(obs)
        except Hang:
            rec["exc"] = "hang"
        except KeyboardInterrupt:
            raise
        except BaseException as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            tb = traceback.extract_tb(e.__traceback__)
            if isinstance(e, OSError) and e.errno in (12, 24, 28):      # the sandbox, not the code
                raise
            rec["exc"] = f"{type(e).__name__}: {str(e)[:200]}"
            rec["where"] = [f"{os.path.basename(fr.filename)}:{fr.lineno}" for fr in tb[-4:]]
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if rec["exc"] and health is not None and not health():
            rec = dict(case=self.n, kind="skipped", exc="")
        self.f.write(json.dumps(rec, default=_default) + "\n")
        return rec

    def close(self):
        self.f.close()


def _default(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError(f"not serialisable: {type(o)}")


def raises(fn, *a, **k):
    """Name of the exception fn raises, or ''."""
    try:
        fn(*a, **k)
        return ""
    except Hang:
        raise
    except Exception as e:
        return type(e).__name__


class Ids:
    """Stable small integers for objects (kept alive)."""
    def __init__(self):
        self.d, self.keep = {}, []

    def __call__(self, o):
        k = id(o)
        if k not in self.d:
            self.keep.append(o)
            self.d[k] = len(self.keep)
        return self.d[k]

    def known(self, o):
        return self.d.get(id(o), 0)
