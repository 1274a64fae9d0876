"""Simulated process pools.

Worker processes are really forked (own memory, own RNG state); they execute one task at a time, only when the simulator hands
it to them, and the simulator - a small discrete event loop with virtual time - decides which worker takes the next task and
when it completes.  Nothing here waits for real time.  Faults: exceptions and kills inside a task, kills of idle workers,
failing fork, interruption of the caller while it waits."""
import concurrent.futures as cf
import concurrent.futures.process as cfp
import contextlib
import gc
import heapq
import multiprocessing as mp
import multiprocessing.pool as mpp
import os
import pickle
import signal
import struct
import sys
import traceback
import weakref
from . import disk
from . import inject
from . import rng
from . import world as W

real_cpu_count = os.cpu_count
_live_cores = weakref.WeakSet()


class InjectedFault(Exception):
    pass


def _exc_class(name):
    return {"MemoryError": MemoryError, "ValueError": ValueError, "OSError": OSError, "InjectedFault": InjectedFault,
            "KeyboardInterrupt": KeyboardInterrupt, "RuntimeError": RuntimeError, "SystemExit": SystemExit}[name]


# ---------------------------------------------------------------- worker processes
def _read_exact(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError
        out += b
    return out


def _send(fd, data):
    data = struct.pack("!Q", len(data)) + data
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _recv(fd):
    return _read_exact(fd, struct.unpack("!Q", _read_exact(fd, 8))[0])


def _params(wid):
    w = W.current
    return dict(seed=W.derive(w.seed, "worker", wid, w.cov.get("pools", 0)), rng_mode=w.rng_mode, adv=w.adv, clock=w.clock, tz=w.tz, cpus=w.cpus,
                scratch=w.scratch, budget=w.draw_budget)


def _become_worker(p):
    sys.settrace(None)  # an injector of the parent acts on the parent only
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    w = W.World(p["seed"])
    w.is_worker = True
    w.rng_mode, w.adv, w.clock, w.tz, w.cpus, w.scratch, w.draw_budget = p["rng_mode"], p["adv"], p["clock"], p["tz"], p["cpus"], p["scratch"], p["budget"]
    W.set_world(w)
    rng.after_fork()


class Worker:
    """handle of a worker process in the parent"""

    def __init__(self, wid, init=None):
        self.wid = wid
        self.dead = False
        self.busy = None
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        p = _params(wid)
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                _become_worker(p)
                _serve(r1, w2, init)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid, self.tx, self.rx = pid, w1, r2

    def run(self, payload):
        """execute one task now; returns ("ok"|"exc", bytes, stats) or None if the process died"""
        try:
            _send(self.tx, payload)
            status, data, stats = pickle.loads(_recv(self.rx))
            return status, data, stats
        except (EOFError, BrokenPipeError, OSError):
            self.stop(kill=True)
            return None

    def stop(self, kill=False):
        if self.dead:
            return
        self.dead = True
        for fd in (self.tx, self.rx):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            if kill:
                os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except (OSError, ChildProcessError):
            pass


def _serve(rx, tx, init):
    ready = True
    init_exc = None
    if init is not None:
        try:
            init[0](*init[1])
        except BaseException as e:
            init_exc = e
    while True:
        msg = pickle.loads(_recv(rx))
        if msg[0] == "init":
            try:
                fn, args = pickle.loads(msg[1])
                if fn is not None:
                    fn(*args)
            except BaseException as e:
                init_exc = e
            _send(tx, b"ok")
            continue
        if init_exc is not None:
            os._exit(1)  # a failing initializer breaks the pool
        _, payload, fault, catch_base = msg
        w = W.current
        d0 = w.draws
        tracer = contextlib.nullcontext()
        if fault is not None:
            kind = fault["how"]
            if kind == "kill_before":
                os.kill(os.getpid(), signal.SIGKILL)
            if kind == "kill":
                class _Kill(BaseException):
                    def __init__(self, *a):
                        os.kill(os.getpid(), signal.SIGKILL)
                w.inject_draw = (w.draws + fault["draw"], _Kill)
            elif kind.startswith("exc:"):
                w.inject_draw = (w.draws + fault["draw"], _exc_class(kind[4:]))
            elif kind.startswith("line:"):
                tracer = inject.Lines(None, kind[5:], loc=fault["loc"]) if "loc" in fault else inject.Lines(fault["draw"], kind[5:], distinct=True)
        try:
            fn, args, kwargs = pickle.loads(payload)
            with tracer:
                res = ("ok", fn(*args, **kwargs))
            if fault is not None and fault["how"] == "kill_after":
                os.kill(os.getpid(), signal.SIGKILL)
            if w.inject_draw is not None:
                # the task drew less than expected: fail at its end instead
                exc = w.inject_draw[1]
                w.inject_draw = None
                raise exc("injected by the simulator")
        except W.SimStop as e:
            res = ("simstop", repr(e))
        except Exception as e:
            res = ("exc", e)
        except BaseException as e:
            if not catch_base:
                os._exit(1)
            res = ("exc", e)
        w.inject_draw = None
        if getattr(tracer, "where", None):
            w.hit("line_fault_in_task")
        try:
            data = pickle.dumps(res[1])
        except Exception as e:
            res = ("exc", None)
            data = pickle.dumps(RuntimeError("cannot pickle result: %r" % (e,)))
        _send(tx, pickle.dumps((res[0], data, {"draws": w.draws - d0, "cov": w.cov})))
        w.cov = {}


class SpawnServer:
    """a process forked before any model exists: its children hold what a freshly started interpreter would hold"""

    def __init__(self, scratch):
        self.dir = scratch
        self.n = 0
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                self._loop(r1, w2)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.tx, self.rx = w1, r2

    def _loop(self, rx, tx):
        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        while True:
            p, a, b = pickle.loads(_recv(rx))
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rx)
                    os.close(tx)
                    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                    r = disk.real["open"](a, os.O_RDONLY)
                    w = disk.real["open"](b, os.O_WRONLY)
                    _become_worker(p)
                    _serve(r, w, None)
                except BaseException:
                    pass
                finally:
                    os._exit(0)
            _send(tx, pickle.dumps(pid))

    def spawn(self, wid, pickled_init):
        self.n += 1
        a, b = os.path.join(self.dir, "sp%d.a" % self.n), os.path.join(self.dir, "sp%d.b" % self.n)
        os.mkfifo(a)
        os.mkfifo(b)
        _send(self.tx, pickle.dumps((_params(wid), a, b)))
        wk = Worker.__new__(Worker)
        wk.wid, wk.dead, wk.busy = wid, False, None
        wk.pid = pickle.loads(_recv(self.rx))
        wk.tx = disk.real["open"](a, os.O_WRONLY)
        wk.rx = disk.real["open"](b, os.O_RDONLY)
        disk.real["unlink"](a)
        disk.real["unlink"](b)
        _send(wk.tx, pickled_init)
        _recv(wk.rx)
        return wk

    def stop(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except OSError:
            pass


_server = None


def prepare_spawn(scratch):
    global _server
    _server = SpawnServer(scratch)


def discard_spawn():
    global _server
    if _server is not None:
        _server.stop()
        _server = None


# ---------------------------------------------------------------- the event loop
class Task:
    __slots__ = ("tid", "payload", "on_done", "state", "catch_base", "future", "cancelled")


class Core:
    """one pool: workers, pending tasks, and the virtual timeline"""

    def __init__(self, max_workers, eager, init=None, catch_base=True, kind="executor"):
        w = W.current
        self.world = w
        self.max_workers = max_workers
        self.init = init if init and init[0] is not None else None
        self.catch_base = catch_base
        self.kind = kind
        self.workers = []
        self.pending = []
        self.running = []  # heap of (finish time, seq, worker, task, result)
        self.seq = 0
        self.taken = 0
        self.ntasks = 0
        self.nwait = 0
        self.now = 0.0
        self.broken = None
        self.closed = False
        self.sched = dict(w.sched)
        self.prng = W.prng(w.seed, "sched", self.sched.get("seed", 0), w.cov.get("pools", 0))
        self.faults = list(w.pool_faults)
        self.order = []
        w.orders.append(self.order)
        w.hit("pools")
        w.event("pool", kind, max_workers, w.start_method)
        _live_cores.add(self)
        if eager:
            for _ in range(max_workers):
                self.add_worker()

    # -- workers
    def add_worker(self):
        w = self.world
        if len(self.workers) >= self.max_workers:
            return
        wid = len(self.workers)
        f = self.fault("fork_fail", wid)
        if f:
            w.fault("fork_fail")
            raise OSError(11, "Resource temporarily unavailable (simulated)")
        w.hit("workers_started")
        self.workers.append(self.new_worker(wid))

    def new_worker(self, wid):
        if self.world.start_method == "fork":
            return Worker(wid, init=self.init)
        data = pickle.dumps(("init", pickle.dumps(self.init or (None, ()))))
        if _server is None:
            raise RuntimeError("no spawn server prepared")
        return _server.spawn(wid, data)

    def fault(self, kind, n):
        for f in self.faults:
            if f["kind"] == kind and f["at"] == n and not f.get("done"):
                f["done"] = True
                return f
        return None

    def submit(self, fn, args, kwargs, on_done):
        t = Task()
        t.tid = self.ntasks
        self.ntasks += 1
        t.cancelled = False
        t.future = None
        t.on_done = on_done
        t.payload = (fn, args, kwargs)
        self.pending.append(t)
        self.world.hit("pool_tasks")
        self.world.event("submit", t.tid)
        return t

    # -- virtual time
    def duration(self, widx):
        m = self.sched.get("mode", "equal")
        k = self.taken
        r = self.prng.random()
        if m == "equal":
            return 1.0
        if m == "random":
            return r * 10
        if m == "lifo":
            return 1e6 / (k + 1)
        if m == "starve":
            return 1e6 if widx == 0 else 1.0 + r
        if m == "bimodal":
            return 1000.0 if r < 0.2 else 1.0
        if m == "single":
            return 1.0 if widx == 0 else 1e6
        if m == "exp":
            return 2 ** (r * 20)
        if m == "tape":
            tape = self.sched["tape"]
            return float(tape[k % len(tape)]) if tape else 1.0
        return 1.0

    def dispatch(self):
        """idle workers take pending tasks, in order of submission"""
        while self.pending and not self.broken:
            idle = [i for i, wk in enumerate(self.workers) if wk.busy is None and not wk.dead]
            if not idle:
                return
            while self.pending and self.pending[0].cancelled:
                self.pending.pop(0)
            if not self.pending:
                return
            i = idle[self.prng.randrange(len(idle))] if self.sched.get("mode") in ("random", "exp", "bimodal") else idle[0]
            t = self.pending.pop(0)
            wk = self.workers[i]
            fault = self.fault("task", t.tid)
            if fault:
                self.world.fault("worker_" + fault["how"])
            f = {k: v for k, v in fault.items() if k in ("how", "draw", "loc")} if fault else None
            t.state = "running"
            try:
                payload = pickle.dumps(t.payload)
            except Exception as e:
                t.on_done("exc", e)
                continue
            d = self.duration(i)
            self.taken += 1
            res = wk.run(pickle.dumps(("task", payload, f, self.catch_base)))
            wk.busy = t
            self.seq += 1
            heapq.heappush(self.running, (self.now + d, self.seq, i, t, res))
            self.world.event("take", i, t.tid)

    def step(self):
        """advance to the next completion. False if nothing can ever happen any more."""
        self.dispatch()
        if self.broken:
            return False
        if not self.running:
            return False
        tm, _, i, t, res = heapq.heappop(self.running)
        w = self.world
        w.simtime += max(0.0, tm - self.now)
        w.clock += max(0.0, tm - self.now)
        self.now = max(self.now, tm)
        wk = self.workers[i]
        wk.busy = None
        self.order.append((i, t.tid))
        w.event("done", i, t.tid, None if res is None else res[0])
        w.hit("pool_completions")
        if res is None:
            self.worker_died(i, t)
            return True
        status, data, stats = res
        w.draws += stats["draws"]
        for k, v in stats["cov"].items():
            w.hit(k, v)
        if status == "simstop":
            raise W.DrawBudget("in a worker: " + pickle.loads(data))
        kf = self.fault("idle_kill", t.tid)
        t.on_done(status, pickle.loads(data))
        if kf:
            w.fault("idle_kill")
            wk.stop(kill=True)
            self.worker_died(i, None)
        return True

    def worker_died(self, i, t):
        w = self.world
        if self.kind == "executor":
            self.broken = True
            for p in [t] + [x[3] for x in sorted(self.running, key=lambda x: x[:2])] + self.pending:
                if p is not None and not p.cancelled:
                    p.on_done("broken", None)
            self.pending = []
            self.running = []
            self.stop(kill=True)
        else:
            # multiprocessing.Pool: a replacement is started, the task is lost for ever
            self.workers[i] = self.new_worker(i + 100 * (self.seq + 1))

    def wait(self, cond, timeout=None):
        """run the simulation until cond() holds; the caller is blocked meanwhile"""
        limit = None if timeout is None else self.now + timeout
        while not cond():
            self.nwait += 1
            self.world.hit("pool_waits")
            f = self.fault("interrupt", self.nwait)
            if f:
                self.world.fault("caller_interrupt")
                raise KeyboardInterrupt("injected by the simulator")
            self.dispatch()
            if limit is not None and (not self.running or self.running[0][0] > limit):
                if self.running or True:
                    self.world.simtime += limit - self.now
                    self.world.clock += limit - self.now
                    self.now = limit
                    return False
            if not self.step():
                if cond():
                    return True
                raise W.SimDeadlock("the caller waits for a result which can never arrive")
        return True

    def drain(self):
        n = 0
        while (self.pending or self.running) and not self.broken:
            if not self.step():
                break
            n += 1

    def stop(self, kill=False):
        self.closed = True
        for wk in self.workers:
            wk.stop(kill=True)

    def alive(self):
        return sum(1 for wk in self.workers if not wk.dead)


class Stats:
    """tasks and waits since a point in time"""

    def __init__(self):
        self.a = self._get()

    @staticmethod
    def _get():
        w = W.current
        return w.cov.get("pool_tasks", 0), w.cov.get("pool_waits", 0)

    def delta(self):
        b = self._get()
        return b[0] - self.a[0], b[1] - self.a[1]


def live_workers():
    """number of worker processes that were neither shut down nor collected"""
    gc.collect()
    gc.collect()
    return sum(c.alive() for c in list(_live_cores) if not c.closed)


def kill_all():
    for c in list(_live_cores):
        c.stop(kill=True)


# ---------------------------------------------------------------- concurrent.futures
class SimFuture(cf.Future):
    def __init__(self, core):
        super().__init__()
        self._core = core
        self._task = None

    def _progress(self, timeout):
        if not self.done():
            if not self._core.wait(self.done, timeout):
                raise cf.TimeoutError()

    def result(self, timeout=None):
        self._progress(timeout)
        return super().result(0)

    def exception(self, timeout=None):
        self._progress(timeout)
        return super().exception(0)

    def cancel(self):
        if self._task is not None and self._task.state == "pending" and not self.done():
            self._task.cancelled = True
            return super().cancel()
        if self.done() and not self.cancelled():
            return False
        return self.cancelled()


class SimProcessPoolExecutor(cf.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        if max_workers is None:
            max_workers = W.current.cpus
        if max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._core = Core(max_workers, eager=False, init=(initializer, initargs), catch_base=True, kind="executor")
        self._down = False
        weakref.finalize(self, Core.stop, self._core, True)

    def submit(self, fn, /, *args, **kwargs):
        if self._core.broken:
            raise cfp.BrokenProcessPool("A child process terminated abruptly, the process pool is not usable anymore")
        if self._down:
            raise RuntimeError("cannot schedule new futures after shutdown")
        fut = SimFuture(self._core)

        def on_done(status, value):
            if fut.cancelled() or fut.done():
                return
            if status == "ok":
                fut.set_result(value)
            elif status == "exc":
                fut.set_exception(value)
            else:
                fut.set_exception(cfp.BrokenProcessPool(
                    "A process in the process pool was terminated abruptly while the future was running or pending."))

        t = self._core.submit(fn, args, kwargs, on_done)
        t.state = "pending"
        fut._task = t
        t.future = fut
        self._core.add_worker()
        return fut

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError("chunksize must be >= 1.")
        items = list(zip(*iterables))
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        futs = [self.submit(_run_chunk, fn, c) for c in chunks]

        def gen():
            try:
                for f in futs:
                    for r in f.result(timeout):
                        yield r
            finally:
                for f in futs:
                    f.cancel()

        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._down = True
        c = self._core
        if cancel_futures:
            for t in c.pending:
                t.cancelled = True
                cf.Future.cancel(t.future) if getattr(t, "future", None) is not None else None
            c.pending = []
        # wait=False leaves the work to a background thread which still finishes it
        c.drain()
        c.stop()

    def __exit__(self, et, ev, tb):
        self.shutdown(wait=True)
        return False


def _run_chunk(fn, chunk):
    return [fn(*args) for args in chunk]


_real_wait, _real_as_completed = cf.wait, cf.as_completed


def sim_as_completed(fs, timeout=None):
    fs = list(dict.fromkeys(fs))
    if not any(isinstance(f, SimFuture) for f in fs):
        yield from _real_as_completed(fs, timeout)
        return
    left = list(fs)
    while left:
        done = [f for f in left if f.done()]
        if not done:
            core = left[0]._core
            if not core.wait(lambda: any(f.done() for f in left), timeout):
                raise cf.TimeoutError()
            continue
        for f in done:
            left.remove(f)
            yield f


def sim_wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = set(fs)
    if not any(isinstance(f, SimFuture) for f in fs):
        return _real_wait(fs, timeout, return_when)

    def cond():
        if return_when == cf.ALL_COMPLETED:
            return all(f.done() for f in fs)
        if return_when == cf.FIRST_EXCEPTION and any(f.done() and not f.cancelled() and f.exception(0) for f in fs):
            return True
        if return_when == cf.FIRST_EXCEPTION:
            return all(f.done() for f in fs)
        return any(f.done() for f in fs)

    next(iter(fs))._core.wait(cond, timeout)
    D = type("DoneAndNotDoneFutures", (tuple,), {})
    done = {f for f in fs if f.done()}
    return cf._base.DoneAndNotDoneFutures(done, fs - done)


# ---------------------------------------------------------------- multiprocessing.Pool
class SimAsyncResult:
    def __init__(self, core, n, chunk, single, callback, error_callback):
        self.core, self.n = core, n
        self.parts = {}
        self.single = single
        self.error = None
        self.ready_ = n == 0
        self.value = []
        self.cb, self.ecb = callback, error_callback

    def _part(self, i, status, value):
        if self.ready_:
            return
        if status != "ok":
            if self.error is None:
                self.error = value
        self.parts[i] = value
        if len(self.parts) == self.n:
            self.ready_ = True
            if self.error is None:
                self.value = self.parts[0] if self.single else [v for i in range(self.n) for v in self.parts[i]]
                if self.cb:
                    self.cb(self.value)
            elif self.ecb:
                self.ecb(self.error)

    def ready(self):
        return self.ready_

    def successful(self):
        if not self.ready_:
            raise ValueError("not ready")
        return self.error is None

    def wait(self, timeout=None):
        self.core.wait(lambda: self.ready_, timeout)

    def get(self, timeout=None):
        if not self.core.wait(lambda: self.ready_, timeout):
            raise mp.TimeoutError
        if self.error is not None:
            raise self.error
        return self.value


class SimIMap:
    def __init__(self, core, n, ordered):
        self.core, self.n, self.ordered = core, n, ordered
        self.buf = {}
        self.queue = []
        self.i = 0

    def _part(self, i, status, value):
        self.buf[i] = (status, value)
        self.queue.append((status, value))

    def __iter__(self):
        return self

    def next(self, timeout=None):
        if self.i >= self.n:
            raise StopIteration
        if self.ordered:
            ok = self.core.wait(lambda: self.i in self.buf, timeout)
        else:
            ok = self.core.wait(lambda: len(self.queue) > self.i, timeout)
        if not ok:
            raise mp.TimeoutError
        status, value = self.buf[self.i] if self.ordered else self.queue[self.i]
        self.i += 1
        if status != "ok":
            raise value
        return value

    __next__ = next


def _mapstar(fn, chunk):
    return [fn(x) for x in chunk]


def _starstar(fn, chunk):
    return [fn(*x) for x in chunk]


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is None:
            processes = W.current.cpus
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self._core = Core(processes, eager=True, init=(initializer, initargs), catch_base=False, kind="pool")
        self._processes = processes
        self._state = "RUN"
        weakref.finalize(self, Core.stop, self._core, True)

    def _check(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")

    def _chunks(self, items, chunksize):
        items = list(items)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._processes * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        return [items[i:i + chunksize] for i in range(0, len(items), chunksize)]

    def _map(self, fn, items, chunksize, star, callback=None, error_callback=None):
        self._check()
        ch = self._chunks(items, chunksize)
        res = SimAsyncResult(self._core, len(ch), None, False, callback, error_callback)
        for i, c in enumerate(ch):
            self._core.submit(star, (fn, c), {}, lambda s, v, i=i: res._part(i, s, v)).state = "pending"
        return res

    def map(self, fn, it, chunksize=None):
        return self._map(fn, it, chunksize, _mapstar).get()

    def starmap(self, fn, it, chunksize=None):
        return self._map(fn, it, chunksize, _starstar).get()

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return self._map(fn, it, chunksize, _mapstar, callback, error_callback)

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return self._map(fn, it, chunksize, _starstar, callback, error_callback)

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        res = SimAsyncResult(self._core, 1, None, True, callback, error_callback)
        self._core.submit(fn, args, kwds, lambda s, v: res._part(0, s, v)).state = "pending"
        return res

    def apply(self, fn, args=(), kwds={}):
        return self.apply_async(fn, args, kwds).get()

    def _imap(self, fn, it, chunksize, ordered):
        self._check()
        ch = self._chunks(it, chunksize)
        im = SimIMap(self._core, len(ch), ordered)
        for i, c in enumerate(ch):
            self._core.submit(_mapstar, (fn, c), {}, lambda s, v, i=i: im._part(i, s, v)).state = "pending"
        if chunksize == 1:
            def one():
                for part in im:
                    yield part[0]
            return _PoolIter(im)
        return _flatten(im)

    def imap(self, fn, it, chunksize=1):
        return self._imap(fn, it, chunksize, True)

    def imap_unordered(self, fn, it, chunksize=1):
        return self._imap(fn, it, chunksize, False)

    def close(self):
        self._state = "CLOSE" if self._state == "RUN" else self._state

    def terminate(self):
        self._state = "TERMINATE"
        self._core.pending = []
        self._core.running = []
        self._core.stop(kill=True)

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        if self._state == "CLOSE":
            self._core.drain()
            self._core.stop()

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()


class _PoolIter:
    def __init__(self, im):
        self.im = im

    def __iter__(self):
        return self

    def next(self, timeout=None):
        return self.im.next(timeout)[0]

    __next__ = next


def _flatten(im):
    for part in im:
        for x in part:
            yield x


class SimContext:
    """stands for a multiprocessing context"""

    def __init__(self, real, method):
        self._real = real
        self._method = method

    def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        w = W.current
        return SimPool(processes, initializer, initargs, maxtasksperchild)

    def cpu_count(self):
        return W.current.cpus

    def get_start_method(self, allow_none=False):
        return self._method or W.current.start_method

    def __getattr__(self, name):
        return getattr(self._real, name)


def install():
    real_get_context = mp.get_context

    def get_context(method=None):
        return SimContext(real_get_context(None), method)

    def cpus():
        return W.current.cpus

    mp.Pool = SimPool
    mpp.Pool = SimPool
    mp.get_context = get_context
    mp.cpu_count = cpus
    mp.get_start_method = lambda allow_none=False: W.current.start_method
    os.cpu_count = cpus
    os.sched_getaffinity = lambda pid: set(range(W.current.cpus))
    cf.ProcessPoolExecutor = SimProcessPoolExecutor
    cfp.ProcessPoolExecutor = SimProcessPoolExecutor
    cf.wait = sim_wait
    cf.as_completed = sim_as_completed
