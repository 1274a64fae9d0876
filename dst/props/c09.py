import contextlib
import sys
from .. import conserve as K, gen as G, inject, model as M, paths, pool, snap
from .. import world as W
from . import _appday as A

RUNS = {"quick": 200, "thorough": 40000}
# (a ValueError or OSError could legitimately be handled where it arises: only exceptions which nobody handles)
SEEDED_HOW = ["exc:MemoryError", "exc:InjectedFault", "exc:KeyboardInterrupt", "line:MemoryError", "line:MemoryError", "line:MemoryError", "line:KeyboardInterrupt", "kill", "kill_before", "kill_after"]
RULE = "A clean parallel generation (which also counts the steps), then one with one or two faults (exception, MemoryError, kill before/within/after a task, kill of an idle worker, failing fork, interruption of the caller at a wait or at a line), then a clean one again; under simulated schedules and start methods. A faulty generation must raise or be complete: profiles are known in closed form (users without net randomness), or from the clean generation (any users, random seed set, one use case per generation)."
PROBES = {"quick": ["raised", "worker_kill", "worker_kill_before", "worker_kill_after", "worker_exc:MemoryError", "worker_exc:ValueError", "idle_kill", "fork_fail", "caller_interrupt", "line_interrupt", "stochastic", "worker_line:MemoryError", "sweep", "screened", "line_fault_in_task"]}
HOW = ["exc:MemoryError", "exc:ValueError", "exc:OSError", "exc:InjectedFault", "exc:KeyboardInterrupt", "exc:SystemExit", "line:MemoryError", "line:KeyboardInterrupt", "kill", "kill", "kill_before", "kill_after"]


def fault(rng, stoch=False):
    k = rng.random()
    if k < 0.55:
        how = rng.choice(SEEDED_HOW if stoch else HOW)
        return {"kind": "task", "how": how, "frac": round(rng.random(), 3), "draw": rng.randrange(1, 160) if how.startswith("line") else rng.choice([1, 2, 5, 20] + [50, 200] * stoch)}
    if k < 0.68:
        return {"kind": "idle_kill", "frac": round(rng.random(), 3)}
    if k < 0.76:
        return {"kind": "fork_fail", "at": rng.choice([0, 0, 1, 2])}
    if k < 0.9:
        return {"kind": "interrupt", "frac": round(rng.random(), 3)}
    return {"kind": "line", "frac": round(rng.random(), 3), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}


def generate(rng, i, tier):
    D = rng.choice([1, 2, 3, 5])
    if rng.random() < 0.45:
        apps = [rng.choice([G.plain, G.cycles_any, G.flat])(rng, "a%d" % k) for k in range(rng.choice([1, 1, 2, 2]))]
        for a in apps:
            if rng.random() < 0.5 and not a["cycles"]:
                a["number"], a["fixed"] = rng.choice([2, 3, 5]), "no"
        spec = {"stoch": 1, "rseed": rng.randrange(1 << 20), "users": [M.user("u", rng.choice([1, 2, 3]), 0, apps)], "days": D, "path": rng.choice(["par", "parflat"]), "start": G.date(rng),
                "faults": [fault(rng, True) for _ in range(rng.choice([1, 1, 2]))]}
        spec["env"] = G.env(rng, 0, par=True)
        # further generations, each with a failed allocation (or interruption) at a line of a task
        spec["sweep"] = [{"kind": "task", "how": rng.choice(["line:MemoryError", "line:MemoryError", "line:KeyboardInterrupt"]), "frac": round(rng.random(), 3), "draw": rng.randrange(5, 120)} for _ in range(2)]
        spec["screen"] = {"from": rng.randrange(1, 4), "step": 3, "exc": rng.choice(["MemoryError", "MemoryError", "KeyboardInterrupt"])}
        return spec
    spec = {"users": K.generate(rng, small=True), "days": D, "path": rng.choice(["par", "parflat"]), "start": G.date(rng),
            "faults": [fault(rng) for _ in range(rng.choice([1, 1, 1, 2]))]}
    spec["env"] = G.env(rng, 0.3, par=True)
    return spec


def valid(spec):
    if spec.get("stoch"):
        return A.valid(spec) and spec["env"]["cpus"] >= 1 and spec.get("rseed") is not None and all(f["how"] in SEEDED_HOW for f in spec["faults"] + spec.get("sweep", []) if f["kind"] == "task")
    return spec["days"] >= 1 and spec["env"]["cpus"] >= 1 and K.valid(spec["users"])


def good(ctx, spec, res, ref=None):
    if spec.get("stoch"):
        for (d, P), (_, Q) in zip(res, ref):
            ctx.check((P == Q).all(), "C09:profile", "day %d: the profile differs from that of the clean generation with the same seed: minute %s" % (d, int((P != Q).argmax())))
        return
    for d, P in res:
        K.check(ctx, spec["users"], d, M.day_type(spec["start"], d), P)


def run(spec, ctx):
    w = W.current
    uc = paths.make_usecase(ctx, spec)
    before = snap.snapshot(uc.users)
    counter = inject.Lines()
    st = pool.Stats()
    with counter:
        res = paths.profiles(ctx, spec, uc)
    ctx.hit("stochastic", bool(spec.get("stoch")))
    if spec.get("stoch"):
        ref = [(d, P.copy()) for d, P in res]
        uc = paths.make_usecase(ctx, spec)
        before = snap.snapshot(uc.users)
    else:
        ref = None
        good(ctx, spec, res)
    tasks, waits = st.delta()
    nl = counter.n
    line = None
    for f in spec["faults"]:
        if f["kind"] == "line":
            line = (1 + int(f["frac"] * max(0, nl - 1)), f["exc"])
        elif f["kind"] == "fork_fail":
            w.pool_faults.append({"kind": "fork_fail", "at": f["at"]})
        elif f["kind"] == "interrupt":
            w.pool_faults.append({"kind": "interrupt", "at": 1 + int(f["frac"] * max(0, waits - 1))})
        else:
            w.pool_faults.append(dict(f, at=int(f["frac"] * tasks)))
    n0 = sum(w.faults.values())
    tr = inject.Lines(*line) if line else None
    out = attempt(ctx, spec, uc, tr)
    w.pool_faults = []
    fired = sum(w.faults.values()) - n0
    if out[0] == "exc":
        ctx.hit("raised")
        if not fired:
            ctx.fail("C09:spurious", "generation raised %s: %s although nothing failed" % out[1:])
    else:
        ctx.hit("completed_after_fault", bool(fired))
        good(ctx, spec, out[1], ref)
    n = pool.live_workers()
    ctx.check(n == 0, "C09:workers", "%d worker(s) still running after the failed generation" % n)
    x = snap.diff(before, snap.snapshot(uc.users))
    ctx.check(x is None, "C09:model", "a failed parallel generation changed the definitions: %s" % x)
    for f in spec.get("sweep", []) if not ctx.viol else []:
        uc = paths.make_usecase(ctx, spec)
        w.pool_faults.append(dict(f, at=int(f["frac"] * tasks)))
        n0 = sum(w.faults.values())
        out = attempt(ctx, spec, uc, None)
        w.pool_faults = []
        ctx.hit("sweep")
        if out[0] == "ok":
            good(ctx, spec, out[1], ref)
        elif sum(w.faults.values()) == n0:
            ctx.fail("C09:spurious", "generation raised %s: %s although nothing failed" % out[1:])
        if ctx.viol:
            return
    if spec.get("screen") and not ctx.viol:
        screen(ctx, spec, ref, tasks)
        if ctx.viol:
            return
    if spec.get("stoch"):
        uc = paths.make_usecase(ctx, spec)
    good(ctx, spec, paths.profiles(ctx, spec, uc), ref)
    n = pool.live_workers()
    ctx.check(n == 0, "C09:workers", "%d worker(s) still running after a successful generation" % n)


def attempt(ctx, spec, uc, tr):
    flat = spec["path"] == "parflat"

    def go():
        if tr is None:
            return uc.generate_daily_load_profiles(flat=flat)
        with tr:
            return uc.generate_daily_load_profiles(flat=flat)

    try:
        out = ctx.attempt(go)
    except W.SimDeadlock as e:
        ctx.fail("C09:deadlock", str(e))
    if out[0] == "ok":
        import numpy as np

        P = np.asarray(out[1])
        if P.size != spec["days"] * 1440:
            ctx.fail("C09:shape", "a generation with a failing worker returned a profile of shape %s" % (P.shape,))
        P = P.reshape(spec["days"], 1440)
        return ("ok", [(d, P[d]) for d in range(spec["days"])])
    return out


def screen(ctx, spec, ref, tasks):
    """failures at many lines of the generation: where a sequential one does not notice, the same failure is tried within the workers"""
    w = W.current
    sc = spec["screen"]
    seq = dict(spec, path="seq")

    def day(tr=None):
        uc = paths.make_usecase(ctx, seq)
        out = []
        with tr or contextlib.nullcontext():
            for u in uc.users:
                out.append(u.generate_aggregated_load_profile(0, uc.peak_time_range, M.day_type(spec["start"], 0)))
        return out

    clean = day()
    k = sc["from"]
    while True:
        tr = inject.Lines(k, sc["exc"], distinct=True)
        out = ctx.attempt(day, tr)
        k += sc["step"]
        if tr.where_loc is None:
            break
        ctx.hit("screened")
        if out[0] == "exc" or all((x == y).all() for x, y in zip(out[1], clean)):
            continue
        ctx.hit("screen_candidate")
        # in different tasks, at the first or a later execution of the line
        for t, hit in [(t, h) for h in (1, 2, 3, 5, 8, 13) for t in range(min(tasks, 3))]:
            uc = paths.make_usecase(ctx, spec)
            w.pool_faults.append({"kind": "task", "how": "line:" + sc["exc"], "at": t, "loc": list(tr.where_loc) + [hit]})
            r = attempt(ctx, spec, uc, None)
            w.pool_faults = []
            if r[0] == "ok":
                good(ctx, spec, r[1], ref)
            if ctx.viol:
                return
