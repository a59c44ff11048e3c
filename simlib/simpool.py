"""Deterministic stand-in for multiprocessing.Pool.

Workers are real forked processes (so module and class state is isolated per
worker, exactly as with the real pool), but they are driven in lock-step: the
simulator decides how the tasks are cut into chunks, which worker runs which
chunk, and in which order results come back.  Functions and arguments cross
the process border pickled, as with the real pool.
"""
import multiprocessing
import multiprocessing.pool
import os
import pickle
import random
import struct
import sys
import traceback


class Sim:
    """State of the simulated scheduler of the current run"""

    def __init__(self):
        self.reset()

    def reset(self, seed=0, chunking="random", fault=None):
        self.rng = random.Random(seed)
        self.chunking = chunking
        self.fault = fault  # {"at": task number, "exc": name, "where": "parent"|"worker"}
        self.pools = []
        self.task_no = 0
        self.log = []
        self.stats = {}
        self.in_worker = None
        self.fired = False
        self.maxlive = 0

    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def live_pools(self):
        return [p for p in self.pools if p._workers and p._state == "RUN"]


SIM = Sim()

EXCS = {
    "ValueError": ValueError,
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "RuntimeError": RuntimeError,
    "OSError": OSError,
    "FloatingPointError": FloatingPointError,
    "ZeroDivisionError": ZeroDivisionError,
    "BrokenPipeError": BrokenPipeError,
    "SystemExit": SystemExit,
}


class InjectedFault(Exception):
    pass


def tick():
    """Called by workload models/priors once per evaluation.

    In the main process counts evaluations; in a worker the number was set by
    the scheduler.  Raises the planned fault when its number comes up.
    """
    if SIM.in_worker is None:
        SIM.task_no += 1
    f = SIM.fault
    if f and f.get("at") == SIM.task_no and f.get("where", "model") == "model":
        SIM.fired = True
        if SIM.in_worker is None:
            SIM.count("fault_" + f["exc"])
        raise EXCS[f["exc"]]("injected fault at evaluation %d" % SIM.task_no)


def ptick():
    """Called by workload priors, just before the model of the same position"""
    f = SIM.fault
    if f and f.get("where") == "prior":
        n = SIM.task_no + (1 if SIM.in_worker is None else 0)
        if f["at"] == n:
            if SIM.in_worker is None:
                SIM.task_no += 1
                SIM.count("fault_prior_" + f["exc"])
                SIM.fired = True
            SIM.fired = True
            raise EXCS[f["exc"]]("injected fault at evaluation %d" % n)


def _send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    data = struct.pack("<Q", len(data)) + data
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _read_n(fd, n):
    parts = []
    while n:
        b = os.read(fd, min(n, 1 << 20))
        if not b:
            raise EOFError("worker died")
        parts.append(b)
        n -= len(b)
    return b"".join(parts)


def _recv(fd):
    (n,) = struct.unpack("<Q", _read_n(fd, 8))
    return pickle.loads(_read_n(fd, n))


class _Worker:
    def __init__(self, idx, initializer, initargs):
        self.idx = idx
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                sys.settrace(None)
                SIM.in_worker = idx
                SIM.pools = []
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                if initializer is not None:
                    initializer(*initargs)
                while True:
                    try:
                        msg = _recv(r1)
                    except EOFError:
                        break
                    if msg is None:
                        break
                    task_no, SIM.fault, payload = msg
                    SIM.task_no = task_no
                    SIM.fired = False
                    try:
                        func, args, star = pickle.loads(payload)
                        out = []
                        for a in args:
                            f = SIM.fault
                            if f and f.get("where") == "task" and f["at"] == SIM.task_no:
                                SIM.fired = True
                                raise EXCS[f["exc"]]("injected fault at task %d" % SIM.task_no)
                            out.append(func(*a) if star else func(a))
                            SIM.task_no += 1
                        res = (True, out)
                        pickle.dumps(res)
                    except BaseException as e:  # noqa
                        try:
                            pickle.dumps(e)
                            res = (False, e)
                        except Exception:
                            res = (False, RuntimeError(repr(e)))
                    _send(w2, res + (SIM.fired,))
            except BaseException:  # noqa
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2

    def run(self, func, args, star, task_no):
        _send(self.w, (task_no, SIM.fault, pickle.dumps((func, args, star), protocol=4)))
        return _recv(self.r)

    def stop(self):
        # later workers hold copies of this pipe: closing it is not enough
        try:
            _send(self.w, None)
        except OSError:
            pass
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass


class _AsyncResult:
    def __init__(self, value=None, exc=None):
        self._value, self._exc = value, exc

    def get(self, timeout=None):
        if self._exc is not None:
            raise self._exc
        return self._value

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self._exc is None


class SimPool:
    def __init__(
        self,
        processes=None,
        initializer=None,
        initargs=(),
        maxtasksperchild=None,
        context=None,
    ):
        if processes is None:
            processes = os.cpu_count() or 1
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self._processes = processes
        self._state = "RUN"
        SIM.count("pools")
        SIM.count("pool_workers", processes)
        SIM.log.append(("pool", processes))
        # more simulated workers than this add nothing but forks
        self._workers = [
            _Worker(i, initializer, initargs) for i in range(min(processes, 6))
        ]
        SIM.pools.append(self)
        SIM.maxlive = max(SIM.maxlive, len(SIM.live_pools()))

    # -- scheduling -------------------------------------------------------
    def _chunks(self, n, chunksize):
        rng = SIM.rng
        if SIM.chunking == "real" or (chunksize and SIM.chunking != "random"):
            if not chunksize:
                chunksize, extra = divmod(n, self._processes * 4)
                if extra:
                    chunksize += 1
            chunksize = max(1, chunksize)
            return [range(i, min(n, i + chunksize)) for i in range(0, n, chunksize)]
        cuts, i = [], 0
        style = rng.choice(["one", "all", "mixed"])
        while i < n:
            k = 1 if style == "one" else n if style == "all" else rng.randint(1, n - i)
            cuts.append(range(i, min(n, i + k)))
            i += k
        return cuts

    def _map(self, func, items, star, chunksize=None):
        if self._state != "RUN":
            raise ValueError("Pool not running")
        items = list(items)
        results = [None] * len(items)
        error = None
        order = []
        SIM.count("maps")
        for chunk in self._chunks(len(items), chunksize):
            w = SIM.rng.choice(self._workers)
            SIM.log.append(("chunk", w.idx, len(chunk)))
            SIM.count("chunks")
            f = SIM.fault
            first = SIM.task_no + 1
            if (
                f
                and f.get("where") == "parent"
                and first <= f["at"] < first + len(chunk)
            ):
                # the signal reaches the process waiting for the results
                SIM.task_no = f["at"]
                SIM.fired = True
                SIM.count("fault_" + f["exc"])
                raise EXCS[f["exc"]]("injected in parent")
            ok, out, fired = w.run(func, [items[i] for i in chunk], star, first)
            if fired:
                SIM.fired = True
                SIM.count("fault_" + f["exc"])
            SIM.task_no += len(chunk)
            if ok:
                for i, v in zip(chunk, out):
                    results[i] = v
                order.extend(chunk)
            elif error is None:
                error = out
        if error is not None:
            raise error
        return results, order

    def map(self, func, iterable, chunksize=None):
        return self._map(func, iterable, False, chunksize)[0]

    def starmap(self, func, iterable, chunksize=None):
        return self._map(func, iterable, True, chunksize)[0]

    def imap(self, func, iterable, chunksize=1):
        return iter(self._map(func, iterable, False, chunksize)[0])

    def imap_unordered(self, func, iterable, chunksize=1):
        res, order = self._map(func, iterable, False, chunksize)
        SIM.rng.shuffle(order)
        return iter([res[i] for i in order])

    def _async(self, fn, callback, error_callback):
        try:
            v = fn()
        except Exception as e:
            if error_callback:
                error_callback(e)
            return _AsyncResult(exc=e)
        if callback:
            callback(v)
        return _AsyncResult(v)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(lambda: self.map(func, iterable), callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(lambda: self.starmap(func, iterable), callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self._map(_Apply(func, kwds), [args], False)[0][0]

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._async(lambda: self.apply(func, args, kwds), callback, error_callback)

    # -- life cycle -------------------------------------------------------
    def close(self):
        # no task is ever outstanding here: the workers of a closed pool end
        if self._state == "RUN":
            self._state = "CLOSE"
        SIM.log.append(("close",))
        self._stop()

    def terminate(self):
        self._state = "TERMINATE"
        SIM.log.append(("terminate",))
        self._stop()

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        self._stop()

    def _stop(self):
        for w in self._workers:
            w.stop()
        self._workers = []

    def __enter__(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError(
            "pool objects cannot be passed between processes or pickled"
        )


class _Apply:
    def __init__(self, func, kwds):
        self.func, self.kwds = func, kwds

    def __call__(self, args):
        return self.func(*args, **self.kwds)


def install():
    """Put SimPool behind every name the real pool is reachable by"""
    import multiprocessing.context

    def factory(*a, **k):
        return SimPool(*a, **k)

    multiprocessing.Pool = factory
    multiprocessing.context.BaseContext.Pool = lambda self, *a, **k: SimPool(*a, **k)
    multiprocessing.pool.Pool = SimPool
