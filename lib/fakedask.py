"""A stand-in for a dask cluster whose completion order is chosen by the caller (import before leap_ec).

Only the documented client/future/as_completed interface is offered; any other use raises Unsupported, and the
scheduled cases are then skipped (the checks keep the cases run on a real dask cluster)."""
import pickle
import distributed


class Unsupported(Exception):
    pass


class _Strict:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"{type(self).__name__}.{name}")


class Worker:
    def __init__(self, logger=None):
        self.id = "w1"
        self.name = "w1"
        self.address = "inproc://w1"
        if logger is not None:
            self.logger = logger


class Future(_Strict):
    def __init__(self, cluster, fn, args, kw):
        self.cluster, self.fn, self.args, self.kw = cluster, fn, args, kw
        self.status, self.key, self.value, self.error = "pending", f"f{cluster.n}", None, None
        cluster.n += 1

    def run(self):
        if self.status != "pending":
            return
        fn, args, kw = self.fn, self.args, self.kw
        if self.cluster.pickled:
            fn, args, kw = pickle.loads(self.cluster.dumps((fn, args, kw)))
        self.cluster.active += 1
        try:
            self.value = fn(*args, **kw)
            self.status = "finished"
        except Exception as e:
            self.error, self.status = e, "error"
        finally:
            self.cluster.active -= 1

    def done(self):
        return self.status != "pending"

    def result(self, timeout=None):
        self.run()
        if self.status == "error":
            raise self.error
        return self.value

    def exception(self, timeout=None):
        self.run()
        return self.error

    def release(self):
        pass


class Client(_Strict):
    """order(pending) -> index of the pending future to complete next; on(event, future) observes."""
    def __init__(self, order, on=lambda ev, f: None, pickled=False, dumps=pickle.dumps):
        self.order, self.on, self.pickled, self.dumps, self.n, self.active = order, on, pickled, dumps, 0, 0

    def submit(self, fn, *args, **kw):
        f = Future(self, fn, args, {k: v for k, v in kw.items() if k not in ("pure", "key", "workers", "retries", "priority", "allow_other_workers", "resources", "actor")})
        self.on("submit", f)
        return f

    def map(self, fn, *its, **kw):
        kw.pop("batch_size", None)
        return [self.submit(fn, *a, **kw) for a in zip(*its)]

    def gather(self, futures, errors="raise", **kw):
        if isinstance(futures, Future):
            return self.gather([futures])[0]
        futures = list(futures)
        pend = [f for f in futures if not f.done()]
        while pend:
            f = pend.pop(self.order(pend))
            f.run()
            self.on("complete", f)
        return [f.result() for f in futures]


class AsCompleted(_Strict):
    def __init__(self, futures=None, loop=None, with_results=False, raise_errors=True, **kw):
        self.pend, self.with_results = list(futures or []), with_results

    def add(self, f):
        self.pend.append(f)

    def update(self, fs):
        self.pend.extend(fs)

    def is_empty(self):
        return not self.pend

    def count(self):
        return len(self.pend)

    def has_ready(self):
        return bool(self.pend)

    def __iter__(self):
        return self

    def __next__(self):
        if not self.pend:
            raise StopIteration
        c = self.pend[0].cluster
        f = self.pend.pop(c.order(self.pend))
        f.run()
        c.on("complete", f)
        return (f, f.result()) if self.with_results else f
    next = __next__


WORKER = [Worker()]
real = dict(as_completed=distributed.as_completed, get_worker=distributed.get_worker)


def _as_completed(futures=None, *a, **kw):
    fs = list(futures or [])
    if fs and not isinstance(fs[0], Future):
        return real["as_completed"](fs, *a, **kw)
    return AsCompleted(fs, *a, **kw)


def _get_worker(*a, **kw):
    if ACTIVE[0]:
        return WORKER[0]
    return real["get_worker"](*a, **kw)


ACTIVE = [False]
distributed.as_completed = _as_completed
distributed.get_worker = _get_worker
try:
    import dask.distributed as dd
    dd.as_completed = _as_completed
    dd.get_worker = _get_worker
except Exception:
    pass
