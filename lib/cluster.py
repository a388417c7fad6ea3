"""A real local dask cluster for a few cases.  Trouble of the cluster itself (it does not start, stops answering) is not
a finding about the code under test: those cases are recorded as skipped."""
import logging, signal, sys, warnings
import drv


class Real:
    def __init__(self, R, processes=False, n_workers=2, threads=2):
        self.R, self.kw, self.client, self.lc = R, dict(n_workers=n_workers, threads_per_worker=threads, processes=processes), None, None

    def __enter__(self):
        signal.setitimer(signal.ITIMER_REAL, 60)
        try:
            warnings.simplefilter("ignore")
            import dask
            from distributed import Client, LocalCluster
            dask.config.set({"distributed.worker.daemon": True})
            main = sys.modules["__main__"]
            keep = main.__dict__.pop("__file__", None)       # worker processes must not import the driver
            try:
                self.lc = LocalCluster(dashboard_address=None, silence_logs=logging.CRITICAL, **self.kw)
                self.client = Client(self.lc, timeout=30)
            finally:
                main.__file__ = keep
            if not self.healthy():
                self.client = None
        except (drv.Hang, Exception) as e:
            print("cluster:", repr(e))
            self.client = None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return self

    def healthy(self):
        try:
            return self.client.submit(int, 1, pure=False).result(timeout=20) == 1
        except (drv.Hang, Exception):
            return False

    def case(self, *a, limit=100, **kw):
        if self.client is None:
            return None
        rec = self.R.case(*a, limit=limit, health=self.healthy, **kw)
        if rec["kind"] == "skipped":
            self.client = None
        return rec

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 30)
        try:
            if self.client is not None:
                self.client.close()
            if self.lc is not None:
                self.lc.close()
        except (drv.Hang, Exception):
            pass
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
