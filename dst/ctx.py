"""One run: executes a spec in the current (freshly forked) process and collects what was observed."""
import gc
import hashlib
import importlib
import os
import pickle
import struct
import sys
import tempfile
import traceback
from . import boot, disk, env, pool, rng
from . import world as W


class Abort(Exception):
    """ends the run after a recorded violation"""


class Ctx:
    def __init__(self, spec):
        self.spec = spec
        self.prop = spec["prop"]
        self.viol = []
        self.evals = 0
        self.scratch = None
        self.kept = []
        self.obs = hashlib.sha256()

    # ---- reporting
    def violation(self, key, msg):
        msg = str(msg)
        if self.scratch:
            # the name of the scratch directory is not part of the execution
            for p in (self.scratch, self.scratch.replace("/", "."), os.path.basename(self.scratch)):
                msg = msg.replace(p, "<scratch>")
        if len(self.viol) < 20:
            self.viol.append({"key": key, "msg": msg[:600]})

    def violations(self, pairs, only=None):
        for k, m in pairs:
            if only is None or k.startswith(only):
                self.violation(k, m)

    def fail(self, key, msg):
        self.violation(key, msg)
        raise Abort(key)

    def check(self, ok, key, msg):
        self.evals += 1
        if not ok:
            self.violation(key, msg)
        return ok

    def hit(self, probe, n=1):
        W.current.hit(probe, n)

    def keep(self, *arrays):
        """results handed out by the code under test: they must stay what they are"""
        for x in arrays:
            self.kept.append((x, x.copy()))

    def check_kept(self):
        import numpy as np

        for k, (x, y) in enumerate(self.kept):
            self.check(np.array_equal(x, y), self.prop + ":result-changed", "result %d changed after it had been returned: total %s, it was %s" % (k, float(np.sum(x)), float(np.sum(y))))

    def rec(self, *things):
        """adds an observation to the digest of the run"""
        for x in things:
            if hasattr(x, "tobytes"):
                self.obs.update(x.tobytes())
            else:
                self.obs.update(repr(x).encode())

    # ---- calls into the code under test
    def call(self, fn, *a, **k):
        """a call which must succeed"""
        try:
            return fn(*a, **k)
        except Abort:
            raise
        except W.DrawBudget as e:
            self.fail(self.prop + ":no-termination", "draw budget exceeded: %s" % e)
        except W.SimDeadlock as e:
            self.fail(self.prop + ":deadlock", str(e))
        except W.SimStop:
            raise
        except KeyboardInterrupt:
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if os.sep + "ramp" + os.sep in f.filename]
            if isinstance(e, RecursionError) or "StackOverflow" in str(e):
                # where and how the interpreter notices it depends on its stack
                self.fail(self.prop + ":exception:RecursionError", "%s never ends: recursion too deep" % getattr(fn, "__name__", fn))
            loc = "%s:%s" % (os.path.basename(where[-1].filename), where[-1].name) if where else "?"
            self.fail(self.prop + ":exception:" + type(e).__name__, "%s raised %s: %s (in %s)" % (getattr(fn, "__name__", fn), type(e).__name__, str(e)[:200], loc))

    def attempt(self, fn, *a, **k):
        """a call which may fail: ("ok", value) or ("exc", type name, text). Keeps no reference to the exception."""
        try:
            return ("ok", fn(*a, **k))
        except (Abort, W.SimStop):
            raise
        except BaseException as e:
            return ("exc", type(e).__name__, str(e)[:300])

    def in_process(self, fn):
        """runs fn in a forked process which may die: ("ok", picklable) | ("exc", type, text) | ("crash",)"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                disk.real["close"](r)
                try:
                    v = ("ok", fn())
                except BaseException as e:
                    v = ("exc", type(e).__name__, str(e)[:300])
                if disk.state is not None:
                    disk.state.armed = False
                st = disk.state
                data = pickle.dumps((v, dict(W.current.faults), dict(W.current.cov), W.current.log.hexdigest(), st.n if st else 0, st.fired if st else []))
                mv = memoryview(data)
                while mv:
                    n = disk.real["write"](w, mv)
                    mv = mv[n:]
            finally:
                os._exit(0)
        disk.real["close"](w)
        buf = b""
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
        disk.real["close"](r)
        _, st = os.waitpid(pid, 0)
        if buf:
            v, faults, cov, dg, n, fired = pickle.loads(buf)
            self._merge(faults, cov)
            W.current.event("proc", v[0], dg)
            self.last_points, self.last_fired = n, fired
            return v
        code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
        W.current.event("proc", "crash", code)
        if code != disk.CRASH_EXIT:
            raise RuntimeError("simulated process ended with %r" % code)
        W.current.fault("process_crash")
        self.last_points, self.last_fired = None, None
        return ("crash",)

    def _merge(self, faults, cov):
        w = W.current
        for k, v in faults.items():
            w.faults[k] = max(w.faults.get(k, 0), v)
        for k, v in cov.items():
            w.cov[k] = max(w.cov.get(k, 0), v)

    # ---- environment
    def apply_env(self, e, fresh_rng=True):
        w = W.current
        w.rng_mode = e.get("rng", "mt")
        w.adv = tuple(e.get("adv", (0.0, 0.0)))
        w.clock = float(e.get("clock", 1640995200.0))
        env.set_tz(e.get("tz", "UTC"))
        w.cpus = e.get("cpus", 4)
        w.start_method = e.get("start", "fork")
        w.sched = dict(e.get("sched", {"mode": "equal"}))
        w.pool_faults = [dict(f) for f in e.get("pool_faults", ())]
        w.draw_budget = e.get("budget", 3_000_000)
        if w.start_method == "spawn":
            pool.prepare_spawn(self.scratch)


def exec_spec(spec):
    """runs in a process of its own"""
    gc.disable()
    w = W.set_world(W.World(spec["seed"]))
    rng.reset()
    ctx = Ctx(spec)
    ctx.scratch = os.path.join(boot.SCRATCH_ROOT, "run.%d" % os.getpid())
    disk.real["mkdir"](ctx.scratch)
    tmp = os.path.join(ctx.scratch, "tmp")
    disk.real["mkdir"](tmp)
    tempfile.tempdir = tmp
    os.environ["TMPDIR"] = tmp
    work = os.path.join(ctx.scratch, "w")
    disk.real["mkdir"](work)
    os.chdir(work)
    ctx.work = work
    disk.start(ctx.scratch)
    err = None
    try:
        ctx.apply_env(spec.get("env", {}))
        mod = importlib.import_module("dst.props." + spec["prop"].lower())
        mod.run(spec, ctx)
    except Abort:
        pass
    except W.DrawBudget as e:
        ctx.violation(ctx.prop + ":no-termination", "draw budget exceeded: %s" % e)
    except W.SimDeadlock as e:
        ctx.violation(ctx.prop + ":deadlock", str(e))
    except BaseException:
        err = traceback.format_exc()[-3000:]
    finally:
        try:
            pool.kill_all()
            pool.discard_spawn()
        except BaseException:
            pass
        disk.stop()
        os.chdir("/")
        import shutil

        shutil.rmtree(ctx.scratch, ignore_errors=True)
    w = W.current
    for op, path in (w.blocked if spec["prop"] in ("C16", "C17", "C18", "C19") else ()):
        ctx.violation(ctx.prop + ":write-outside", "%s of %s" % (op, path.replace(ctx.scratch, "<scratch>")))
    inter = []
    for o in w.orders:
        inter.append(hashlib.sha256(repr(o).encode()).hexdigest()[:12])
    return {"viol": ctx.viol, "cov": w.cov, "faults": w.faults, "events": w.events, "digest": hashlib.sha256((w.log.hexdigest() + ctx.obs.hexdigest() + repr(ctx.viol)).encode()).hexdigest(),
            "draws": w.draws, "simtime": w.simtime, "evals": ctx.evals, "inter": inter, "err": err}
