"""Driver: seeded search, minimisation, replay, evidence.

    python -m dst.main --property C01 [--tier quick|thorough] [--runs N]
    python -m dst.main --replay FILE
    python -m dst.main --selftest C01        determinism self-test
Exit status: 0 held, 1 violated (VIOLATION line), 2 error of the check itself."""
import argparse
import copy
import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = time.monotonic()
MONO = time.monotonic
SOLO = 200.0
BATCH = 40.0


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ isolated execution
def _read(fd, deadline):
    buf = b""
    while True:
        left = deadline - MONO()
        if left <= 0:
            return buf, True
        r, _, _ = select.select([fd], [], [], min(left, 5.0))
        if not r:
            continue
        b = os.read(fd, 1 << 16)
        if not b:
            return buf, False
        buf += b


def run_isolated(spec, limit=BATCH, extra_env=None):
    """executes the spec in a forked child. {"hang": True} if it does not end in time (real time, generous)"""
    from . import ctx, disk

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            disk.real["close"](r)
            null = disk.real["open"](os.devnull, os.O_RDWR)
            for fd in (0, 1) if os.environ.get("DST_DEBUG") else (0, 1, 2):
                os.dup2(null, fd)
            sys.stdin = disk.real_open(0, "r", closefd=False)
            sys.stdout = disk.real_open(1, "w", closefd=False)
            if not os.environ.get("DST_DEBUG"):
                sys.stderr = disk.real_open(2, "w", closefd=False)
            res = ctx.exec_spec(spec)
            data = pickle.dumps(res)
            mv = memoryview(data)
            while mv:
                n = disk.real["write"](w, mv)
                mv = mv[n:]
        except BaseException:
            import traceback

            try:
                disk.real["write"](w, pickle.dumps({"err": traceback.format_exc()[-2000:], "viol": []}))
            except BaseException:
                pass
        finally:
            os._exit(0)
    disk.real["close"](w)
    buf, late = _read(r, MONO() + limit)
    disk.real["close"](r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    if late:
        return {"hang": True, "viol": []}
    if not buf:
        return {"err": "the run died without a result", "died": True, "viol": []}
    return pickle.loads(buf)


def run_spec(spec):
    """isolated run, second chance with a larger limit when the machine may just be slow"""
    k = 2 if spec.get("slow") else 1
    res = run_isolated(spec, BATCH * k)
    if res.get("hang"):
        res = run_isolated(spec, SOLO * k)
        if res.get("hang"):
            res = {"viol": [{"key": spec["prop"] + ":hang", "msg": "the run did not end (no progress within %d s of real time)" % SOLO}], "digest": "hang",
                   "cov": {}, "faults": {}, "events": 0, "draws": 0, "simtime": 0.0, "evals": 1, "inter": [], "err": None}
    return res


class Dispatcher:
    """N processes which run specs in children of their own"""

    def __init__(self, n):
        from . import disk

        self.n = n
        self.w = []
        for _ in range(n):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    signal.signal(signal.SIGTERM, signal.SIG_DFL)
                    disk.real["close"](w1)
                    disk.real["close"](r2)
                    for _, a, b in self.w:
                        disk.real["close"](a)
                        disk.real["close"](b)
                    self._serve(r1, w2)
                finally:
                    os._exit(0)
            disk.real["close"](r1)
            disk.real["close"](w2)
            self.w.append((pid, w1, r2))

    @staticmethod
    def _rd(fd, n):
        out = b""
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                raise EOFError
            out += b
        return out

    @staticmethod
    def _wr(fd, obj):
        from . import disk

        d = pickle.dumps(obj)
        d = struct.pack("!Q", len(d)) + d
        mv = memoryview(d)
        while mv:
            n = disk.real["write"](fd, mv)
            mv = mv[n:]

    def _get(self, fd):
        return pickle.loads(self._rd(fd, struct.unpack("!Q", self._rd(fd, 8))[0]))

    def _serve(self, rx, tx):
        while True:
            try:
                i, spec = self._get(rx)
            except EOFError:
                return
            self._wr(tx, (i, run_spec(spec)))

    def map(self, specs, stop=None, deadline=None):
        """yields (index, result); order of completion. Stops handing out work once stop(result) is true"""
        it = iter(list(enumerate(specs)))
        busy = {}
        stopping = False

        def feed(k):
            nonlocal stopping
            if stopping:
                return
            try:
                i, s = next(it)
            except StopIteration:
                return
            self._wr(self.w[k][1], (i, s))
            busy[self.w[k][2]] = k

        for k in range(self.n):
            feed(k)
        while busy:
            if deadline is not None and MONO() > deadline:
                raise TimeoutError("the check ran out of time")
            r, _, _ = select.select(list(busy), [], [], 5.0)
            for fd in r:
                k = busy.pop(fd)
                i, res = self._get(fd)
                if stop is not None and stop(res):
                    stopping = True
                yield i, res
                feed(k)

    def close(self):
        from . import disk

        for pid, a, b in self.w:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            disk.real["close"](a)
            disk.real["close"](b)
        self.w = []


# ------------------------------------------------------------------ minimisation
def _paths(x, pre=()):
    """every list and every number of the spec, outermost first"""
    if isinstance(x, dict):
        for k in sorted(x):
            if pre == () and k in ("prop", "seed", "comment"):
                continue
            yield from _paths(x[k], pre + (k,))
    elif isinstance(x, list):
        yield pre, x
        for i, v in enumerate(x):
            yield from _paths(v, pre + (i,))
    elif isinstance(x, (int, float)) and not isinstance(x, bool):
        yield pre, x


def _get(x, p):
    for k in p:
        x = x[k]
    return x


def _set(x, p, v):
    x = copy.deepcopy(x)
    y = x
    for k in p[:-1]:
        y = y[k]
    y[p[-1]] = v
    return x


def candidates(spec, mod):
    if hasattr(mod, "shrink"):
        yield from mod.shrink(spec)
    lists = [(p, v) for p, v in _paths(spec) if isinstance(v, list)]
    keep = getattr(mod, "KEEP", ()) + ("windows", "cws", "adv", "values")
    for p, v in sorted(lists, key=lambda t: len(t[0])):
        if any(isinstance(k, str) and k in keep for k in p):
            continue
        n = len(v)
        if n > 3:
            yield _set(spec, p, v[: n // 2])
            yield _set(spec, p, v[n // 2:])
        for i in range(n):
            yield _set(spec, p, v[:i] + v[i + 1:])
    env = spec.get("env", {})
    for k, simple in (("sched", {"mode": "equal"}), ("start", "fork"), ("cpus", 1), ("cpus", 2), ("tz", "UTC"), ("clock", 1640995200.0), ("rng", "mt")):
        if k in env and env[k] != simple:
            yield _set(spec, ("env", k), simple)
    nums = [(p, v) for p, v in _paths(spec) if not isinstance(v, list)]
    for p, v in nums:
        if p[:2] in (("env", "clock"), ("env", "budget"), ("env", "spawn")):
            continue
        for c in (0, 1, v // 2 if isinstance(v, int) else v / 2, v - 1 if isinstance(v, int) else round(v, 1)):
            if c != v and abs(c) < abs(v):
                yield _set(spec, p, c)


def minimise(spec, key, disp, mod, budget_s=70.0):
    end = MONO() + budget_s
    tried = set()
    n = 0
    cur = spec
    valid = getattr(mod, "valid", None)
    progress = True
    while progress and MONO() < end:
        progress = False
        batch = []
        gen = candidates(cur, mod)
        while MONO() < end:
            batch = []
            for c in gen:
                h = hashlib.sha256(json.dumps(c, sort_keys=True).encode()).digest()
                if h in tried:
                    continue
                tried.add(h)
                try:
                    if valid is not None and not valid(c):
                        continue
                except Exception:
                    continue
                batch.append(c)
                if len(batch) >= disp.n:
                    break
            if not batch:
                break
            good = []
            for i, res in disp.map(batch):
                n += 1
                if not res.get("err") and any(v["key"] == key for v in res["viol"]):
                    good.append(i)
            if good:
                cur = batch[min(good)]
                progress = True
                break
    return cur, n


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = {}
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            l = l.strip()
            if l.startswith("finding: ") and ("property=%s " % prop) in l:
                parts = dict(x.split("=", 1) for x in l.split() if "=" in x)
                out[parts["key"]] = l[len("finding: "):]
    except FileNotFoundError:
        pass
    return out


# ------------------------------------------------------------------ check
def make_specs(prop, tier, seed, runs=None):
    from . import world as W

    mod = importlib.import_module("dst.props." + prop.lower())
    n = runs or (mod.RUNS[tier])
    out = []
    for i in range(n):
        s = mod.generate(W.prng("gen", seed, prop, i), i, tier)
        s["prop"] = prop
        s["seed"] = W.derive("run", seed, prop, i)
        out.append(s)
    return mod, json.loads(json.dumps(out))


def check(prop, tier, seed, runs=None):
    from . import boot, env

    deadline = T0 + (800 if tier == "quick" else 6 * 3600)
    boot.warm()
    mod, specs = make_specs(prop, tier, seed, runs)
    if hasattr(mod, "prepare"):
        mod.prepare()
    known = known_findings(prop)
    t1 = MONO()
    disp = Dispatcher(os.environ.get("DST_JOBS") and int(os.environ["DST_JOBS"]) or max(2, min(8, _ncpu())))
    agg = {"cov": {}, "faults": {}}
    tot = {"evals": 0, "draws": 0, "events": 0, "simtime": 0.0}
    digests, inters = set(), set()
    bad, found, errs = [], {}, []
    done = 0

    def stop(res):
        return bool(res.get("err")) or any(v["key"] not in known for v in res["viol"])

    try:
        for i, res in disp.map(specs, stop, deadline):
            done += 1
            if res.get("err"):
                errs.append((i, res))
                continue
            for v in res["viol"]:
                if v["key"] in known:
                    found.setdefault(v["key"], v)
                else:
                    bad.append((i, v))
            for k in ("cov", "faults"):
                for a, b in res[k].items():
                    agg[k][a] = agg[k].get(a, 0) + b
            for k in tot:
                tot[k] += res[k]
            digests.add(res["digest"])
            inters.update(res["inter"])
        code = 0
        replay = None
        # (a violation that does not reproduce is never reported: the next one, of another kind, is tried)
        tries = []
        for i, v in sorted(bad, key=lambda t: t[0]):
            if v["key"] not in [x["key"] for _, x in tries]:
                tries.append((i, v))
        for i, v in tries[:4]:
            log("violation in run %d: %s: %s" % (i, v["key"], v["msg"]))
            if v["key"].endswith(":hang"):
                small, tried = specs[i], 0
            else:
                small, tried = minimise(specs[i], v["key"], disp, mod, 70 if tier == "quick" else 300)
            res = run_spec(small)
            vv = [x for x in res["viol"] if x["key"] == v["key"]]
            if not vv:
                small, res = specs[i], run_spec(specs[i])
                vv = [x for x in res["viol"] if x["key"] == v["key"]]
            if not vv:
                log("the violation did not reproduce: harness error", res.get("err"))
                code = 2
                continue
            else:
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                replay = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, hashlib.sha256(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]))
                with open(replay, "w") as f:
                    json.dump({"property": prop, "key": v["key"], "message": vv[0]["msg"], "verif_seed": seed, "run": i, "digest": res["digest"],
                               "minimisation_runs": tried, "spec": small}, f, indent=1, sort_keys=True)
                log("minimised in %d runs: %s" % (tried, vv[0]["msg"]))
                code = 1
                bad.sort(key=lambda t: (t[1]["key"] != v["key"], t[0]))
                break
        if not bad and errs:
            log("harness error in run %d:\n%s" % (errs[0][0], errs[0][1]["err"]))
            with open(os.path.join("/tmp", "dst-err-%s.json" % prop), "w") as f:
                json.dump({"property": prop, "spec": specs[errs[0][0]]}, f)
            code = 2
    finally:
        disp.close()
    wall = MONO() - t1
    if code == 0:
        miss = [p for p in getattr(mod, "PROBES", {}).get(tier, ()) if not (agg["cov"].get(p) or agg["faults"].get(p))]
        if miss:
            log("warning: probes not reached:", miss)
    else:
        miss = []
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(digests),
            "rule": mod.RULE + " One case is one simulated run; runs count as distinct by the hash of their event history and observations.",
            "samples": [json.loads(json.dumps(s)) for s in specs[:3]],
            "oracle_checks": tot["evals"], "runs_per_hour": round(done / max(wall, 1e-3) * 3600), "seeds_per_hour": round(done / max(wall, 1e-3) * 3600),
            "simulated_seconds_in_pools_and_sleeps": round(tot["simtime"], 1),
            "simulated_days": agg["cov"].get("sim_days", 0), "random_draws": tot["draws"], "simulator_events": tot["events"],
            "faults_injected": agg["faults"], "reach_probes": agg["cov"], "probes_not_reached": miss,
            "distinct_pool_interleavings": len(inters),
            "real_components": ["ramp (all modules, from the working tree)", "numpy", "pandas", "openpyxl", "pickle", "fork"],
            "stubbed_components": ["process pool scheduler", "random core and entropy", "clock/time zone", "disk faults", "stdin", "os.system", "matplotlib figures"],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())) + ["sampling, not enumeration: runs are drawn from VERIF_SEED"],
        "wall_s": round(MONO() - T0, 2), "violations": len(bad),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for k, v in sorted(found.items()):
        print("KNOWN-FINDING: " + known[k])
    if code == 1:
        print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
        print("  " + [v for _, v in bad if True][0]["msg"], flush=True)
    elif code == 0:
        print("OK property=%s runs=%d distinct=%d checks=%d wall=%.1fs" % (prop, done, len(digests), tot["evals"], MONO() - T0), flush=True)
    return code


def _ncpu():
    from . import pool

    return pool.real_cpu_count() or 4


def replay(path):
    from . import boot

    d = json.load(open(path))
    boot.warm()
    mod = importlib.import_module("dst.props." + d["property"].lower())
    if hasattr(mod, "prepare"):
        mod.prepare()
    res = run_spec(d["spec"])
    if res.get("err"):
        log(res["err"])
        return 2
    hit = [v for v in res["viol"] if d.get("key") in (None, v["key"])]
    for v in res["viol"]:
        print("%s: %s" % (v["key"], v["msg"]))
    print("digest %s (%s)" % (res["digest"], "identical to the recorded run" if res["digest"] == d.get("digest") else "recorded: %s" % d.get("digest")))
    if hit:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("no violation")
    return 0


def selftest(prop, n, seed):
    """two passes over the same specs; the digests are printed, to be compared across processes, worker counts and hash seeds"""
    from . import boot

    boot.warm()
    mod, specs = make_specs(prop, "quick", seed, n)
    if hasattr(mod, "prepare"):
        mod.prepare()
    disp = Dispatcher(int(os.environ.get("DST_JOBS", "8")))
    a = dict((i, r["digest"]) for i, r in disp.map(specs))
    b = dict((i, r["digest"]) for i, r in disp.map(specs[::-1]))
    disp.close()
    diff = [i for i in a if a[i] != b[len(specs) - 1 - i]]
    print(prop, "runs", n, "diverging", diff, hashlib.sha256(repr(sorted(a.items())).encode()).hexdigest()[:16])
    return 2 if diff else 0


def observe(src, out):
    """one observation in this (fresh) interpreter, for a run which compares interpreters"""
    from . import boot, ctx, pool, rng
    from . import world as W

    d = json.load(open(src))
    v = d["var"]
    W.set_world(W.World(W.derive(d["spec"]["seed"], v["entropy"])))
    rng.reset()
    c = ctx.Ctx(d["spec"])
    c.scratch = boot.SCRATCH_ROOT
    c.apply_env(v["env"])
    mod = importlib.import_module("dst.props." + d["prop"].lower())
    null = open(os.devnull, "w")
    sys.stdout = sys.stderr = null
    try:
        r = ("ok", mod.observe(d["spec"], v))
    except Exception as e:
        r = ("exc", type(e).__name__, str(e)[:300])
    pool.kill_all()
    pool.discard_spawn()
    with open(out, "wb") as f:
        f.write(pickle.dumps(r))
    sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--selftest")
    ap.add_argument("--spec", type=int)
    ap.add_argument("--observe")
    ap.add_argument("--out")
    a = ap.parse_args()
    if os.environ.get("PYTHONHASHSEED") is None:
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "dst.main"] + sys.argv[1:])
    os.environ.pop("VERIF_TIER", None)
    os.environ.pop("VERIF_SEED", None)
    from . import boot

    try:
        boot.boot()
        if a.observe:
            return observe(a.observe, a.out)
        if a.replay:
            return replay(a.replay)
        if a.selftest:
            return selftest(a.selftest, a.runs or 50, a.seed)
        if a.spec is not None:
            boot.warm()
            mod, specs = make_specs(a.property, a.tier, a.seed, a.spec + 1)
            if hasattr(mod, "prepare"):
                mod.prepare()
            print(json.dumps(specs[a.spec], indent=1))
            print(run_spec(specs[a.spec]))
            return 0
        return check(a.property, a.tier, a.seed, a.runs)
    finally:
        boot.cleanup()


if __name__ == "__main__":
    code = 2
    try:
        code = main()
    except SystemExit as e:
        code = e.code or 2
    except BaseException:
        import traceback

        traceback.print_exc()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
