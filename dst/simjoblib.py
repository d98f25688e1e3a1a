"""Simulated joblib workers. The nannos code and joblib's own Parallel run unmodified; only the
pools that execute batches are replaced: workers and the thread that delivers results are tasks
of the simulated scheduler, process workers exchange pickles only and may die."""
from . import sched
from .core import SimAbort

CPUS = 4  # processors of the simulated machine


class WorkerDies(BaseException):
    """Raised by a task to make its (process) worker disappear."""


class Killed(BaseException):
    """A process worker terminated from outside."""


STATS = {}


def count(k):
    STATS[k] = STATS.get(k, 0) + 1


class Pool:
    def __init__(self, n, process):
        self.s = sched.CURRENT
        self.process = process
        self.queue, self.results = [], []
        self.closed = self.broken = False
        self.running = {}
        self.tasks = [self.s.spawn(lambda i=i: self.worker(i), f"worker{i}") for i in range(min(n, 12))]
        self.manager = self.s.spawn(self.deliver, "results")
        count("pools")

    def worker(self, i):
        while True:
            self.s.block(lambda: self.queue or self.closed, "an idle worker")
            if self.closed:
                return
            job = self.queue.pop(0)
            self.running[i] = job
            func, cb = job
            try:
                if self.process:
                    import cloudpickle

                    out = ("ok", cloudpickle.loads(cloudpickle.dumps(cloudpickle.loads(func)())))
                else:
                    out = ("ok", func())
            except (SimAbort, Killed):
                self.running.pop(i, None)
                raise
            except WorkerDies:
                count("worker deaths")
                self.breakdown()
                return
            except BaseException as e:  # noqa
                out = ("err", e)
                if self.process:
                    import cloudpickle

                    try:
                        e2 = cloudpickle.loads(cloudpickle.dumps(e))
                    except Exception as p:  # noqa
                        e2 = p
                    out = ("err", e2)
            self.running.pop(i, None)
            if self.closed:
                return
            count("batches")
            self.results.append((out, cb))
            self.s.yield_("batch done")

    def breakdown(self):
        """A process worker died: every outstanding batch fails, the pool is unusable."""
        from joblib.externals.loky.process_executor import TerminatedWorkerError

        self.broken = True
        out = list(self.running.values()) + self.queue
        self.queue = []
        self.running = {}
        self.kill()
        for _, cb in out:
            self.results.append((("err", TerminatedWorkerError("A worker process managed by the executor was unexpectedly terminated.")), cb))

    def kill(self):
        me = self.s.current()
        for t in self.tasks:
            if t is not me and t.state != "done":
                t.kill = Killed()
                if t.state == "sleeping":
                    t.wake = self.s.clock.now
        self.closed = True

    def deliver(self):
        while True:
            self.s.block(lambda: self.results or (self.closed and not self.broken) or self.stopped, "result thread")
            if not self.results:
                return
            out, cb = self.results.pop(0)
            self.s.yield_("deliver")
            if cb is not None:
                cb(out)
            count("deliveries")

    stopped = False

    def submit(self, func, callback):
        if self.process:
            import cloudpickle

            try:
                func = cloudpickle.dumps(func)
            except Exception as e:  # noqa
                self.results.append((("err", e), callback))
                return
        if self.closed:
            from joblib.externals.loky.process_executor import TerminatedWorkerError

            self.results.append((("err", TerminatedWorkerError("pool is down")), callback))
            return
        self.queue.append((func, callback))

    def close(self, kill=False):
        if kill and self.process:
            self.kill()
        self.closed = True
        self.stopped = True
        self.queue = []
        self.results = []


def install():
    import joblib.parallel as jp
    from joblib._parallel_backends import (AutoBatchingMixin, FallbackToBackend, ParallelBackendBase,
                                           SequentialBackend)

    class SimBase(ParallelBackendBase):
        supports_retrieve_callback = True
        pool = None
        process = False

        def effective_n_jobs(self, n_jobs):
            if n_jobs == 0:
                raise ValueError("n_jobs == 0 in Parallel has no meaning")
            if n_jobs is None:
                return 1
            if n_jobs < 0:
                n_jobs = max(CPUS + 1 + n_jobs, 1)
            return n_jobs

        def configure(self, n_jobs=1, parallel=None, **kw):
            n = self.effective_n_jobs(n_jobs)
            s = sched.CURRENT
            if n == 1 or s is None or s.current() is None:
                raise FallbackToBackend(SequentialBackend(nesting_level=self.nesting_level))
            self.parallel = parallel
            self.pool = Pool(n, self.process)
            return n

        def submit(self, func, callback=None):
            self.pool.submit(func, callback)
            return object()

        def retrieve_result_callback(self, out):
            if out[0] == "err":
                raise out[1]
            return out[1]

        def terminate(self):
            if self.pool is not None:
                self.pool.close()
                self.pool = None

        def abort_everything(self, ensure_ready=True):
            if self.pool is not None:
                self.pool.close(kill=True)
                self.pool = None
            if ensure_ready:
                self.configure(n_jobs=self.parallel.n_jobs, parallel=self.parallel)

        def get_nested_backend(self):
            level = (self.nesting_level or 0) + 1
            if level > 1:
                return SequentialBackend(nesting_level=level), None
            return SimThreads(nesting_level=level), None

        def __reduce__(self):
            return _rebuild, (type(self).__name__, self.nesting_level)

    class SimThreads(SimBase):
        uses_threads = True
        supports_sharedmem = True

    class SimProcesses(AutoBatchingMixin, SimBase):
        process = True
        supports_inner_max_num_threads = True

        def terminate(self):
            super().terminate()
            self.reset_batch_stats()

    global CLASSES
    CLASSES = dict(SimThreads=SimThreads, SimProcesses=SimProcesses)
    jp.BACKENDS["threading"] = SimThreads
    jp.BACKENDS["loky"] = SimProcesses
    jp.BACKENDS["multiprocessing"] = SimProcesses
    jp.cpu_count = lambda *a, **k: CPUS


CLASSES = {}


def _rebuild(name, level):
    return CLASSES[name](nesting_level=level)
