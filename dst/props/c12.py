import numpy as np
from .. import gen as G, inject, model as M, pool, snap
from .. import world as W

RUNS = {"quick": 340, "thorough": 25000}
RULE = ("Users with plain, flat, duty-cycle and preference appliances; a history of 1..4 generations (sequential, parallel under simulated schedules, aggregated, single, cases, forced re-initialisation), each completed or "
        "interrupted by KeyboardInterrupt / MemoryError at a random draw, at any executed line or while waiting for workers, or with a failing worker; definitions are compared before and after each, and at the end a freshly seeded use case over these users is compared bit by bit with one over fresh users.")
PROBES = {"quick": ["interrupted", "line_interrupt", "at_draw:MemoryError", "at_draw:KeyboardInterrupt", "caller_interrupt", "completed", "op_par", "op_seq", "op_agg", "op_single", "op_cases", "cycles", "prefs", "final_par", "extreme_draw"]}
EXC = ["KeyboardInterrupt", "MemoryError"]


def generate(rng, i, tier):
    us = []
    k = 0
    for j in range(rng.choice([1, 1, 2])):
        m = rng.choice([0, 0, 2])
        apps = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            kind = rng.choice(["plain", "flat", "any", "any", "strict"])
            a = {"plain": G.plain, "flat": G.flat, "any": G.cycles_any, "strict": G.cycles_strict}[kind](rng, "a%d" % k)
            a["wd"] = rng.choice([2, 2, 2, 0, 1])
            a["occ"] = rng.choice([1, 1, 1, 0.5])
            if m and rng.random() < 0.6:
                a["pref"] = rng.randrange(1, m + 1)
            if kind in ("plain", "flat") and rng.random() < 0.3:
                a["power"] = G.series(rng)
            apps.append(a)
            k += 1
        us.append(M.user("u%d" % j, rng.choice([1, 1, 2]), m, apps))
    D = rng.choice([1, 1, 2, 3])
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        o = {"op": rng.choice(["seq", "seq", "par", "agg", "single", "cases", "reinit", "new"])}
        x = rng.random()
        if x < 0.4:
            o["draw"] = rng.choice([1, 2, 3, 5, 8, 13, 20, 40, 100, 300])
            o["exc"] = rng.choice(EXC)
        elif x < 0.6:
            o["line"] = round(rng.random(), 4)
            o["exc"] = rng.choice(EXC)
        elif x < 0.95 and o["op"] == "par":
            o["pool"] = rng.choice([{"kind": "interrupt", "at": rng.choice([1, 2, 3])}, {"kind": "task", "how": "kill", "at": rng.choice([0, 1]), "draw": 2}, {"kind": "task", "how": "exc:MemoryError", "at": 0, "draw": 3}])
        ops.append(o)
    e = G.env(rng, 0.5)
    e.update(G.pool_env(rng, maxcpu=4))
    return {"users": us, "days": D, "start": G.date(rng), "ops": ops, "final": rng.choice(["seq", "seq", "par"]), "rseed": rng.choice([0, 1, rng.randrange(1 << 30)]), "env": e}


def valid(spec):
    from . import _appday as A

    return A.valid(spec) and spec["env"]["cpus"] >= 1 and all(a["pref"] <= u["pref"] for u in spec["users"] for a in u["apps"]) and all(o.get("draw", 1) >= 1 for o in spec["ops"])


def do(spec, uc, op):
    D = spec["days"]
    uc.parallel_processing = op == "par"
    try:
        if op in ("seq", "par"):
            uc.generate_daily_load_profiles()
        elif op == "cases":
            uc.generate_daily_load_profiles(cases=["x", "y"])
        elif op == "reinit":
            uc.initialize(num_days=D, force=True)
        elif op == "new":
            fresh(spec, uc.users, None)
        else:
            for d in range(D):
                for u in uc.users:
                    (u.generate_aggregated_load_profile if op == "agg" else u.generate_single_load_profile)(prof_i=d, peak_time_range=uc.peak_time_range, day_type=M.day_type(spec["start"], d))
    finally:
        uc.parallel_processing = False


def fresh(spec, users, seed):
    from ramp import UseCase

    uc = UseCase("uc", users, date_start=spec["start"], random_seed=seed)
    uc.initialize(num_days=spec["days"])
    return uc


def run(spec, ctx):
    w = W.current
    users = ctx.call(M.build_users, spec["users"])
    uc = ctx.call(fresh, spec, users, None)
    before = snap.snapshot(users)
    ctx.hit("cycles", any(a["cycles"] for u in spec["users"] for a in u["apps"]))
    ctx.hit("prefs", any(u["pref"] for u in spec["users"]))
    for n, o in enumerate(spec["ops"]):
        ctx.hit("op_" + o["op"])
        ctx.hit("sim_days", spec["days"])
        what = "generation %d (%s)" % (n + 1, o["op"])
        tr = None
        if "draw" in o:
            w.inject_draw = (w.draws + o["draw"], inject.EXC[o["exc"]])
        elif "line" in o:
            c = inject.Lines()
            with c:
                ctx.call(do, spec, uc, o["op"])
            tr = inject.Lines(1 + int(o["line"] * max(0, c.n - 1)), o["exc"])
        elif "pool" in o:
            w.pool_faults = [dict(o["pool"])]
        f0 = sum(w.faults.values())
        try:
            if tr is None:
                r = ctx.attempt(do, spec, uc, o["op"])
            else:
                with tr:
                    r = ctx.attempt(do, spec, uc, o["op"])
        except W.SimDeadlock:
            ctx.hit("deadlock")  # C09
            r = ("exc", "SimDeadlock", "")
        w.inject_draw = None
        w.pool_faults = []
        ctx.hit("completed" if r[0] == "ok" else "interrupted")
        if r[0] == "exc" and sum(w.faults.values()) == f0:
            ctx.fail("C12:exception:" + r[1], "%s raised %s: %s although nothing was interrupted" % (what, r[1], r[2]))
        x = snap.diff(before, snap.snapshot(users))
        ctx.check(x is None, "C12:model", "%s%s changed the definitions: %s" % (what, ", interrupted by %s%s," % (o.get("exc", "a fault"), " at " + tr.where if tr is not None and tr.where else "") if r[0] == "exc" else "", x))
        if ctx.viol:
            return
        if r[0] == "exc" and o["op"] == "reinit":
            # an interrupted initialisation has to be repeated
            ctx.call(do, spec, uc, "reinit")
    # a freshly seeded use case over these users
    ctx.hit("final_" + spec["final"])
    A = outcome(ctx, spec, users)
    B = outcome(ctx, spec, ctx.call(M.build_users, spec["users"]))
    ctx.rec(A[0], A[1])
    if not np.array_equal(A[0], B[0]):
        ctx.fail("C12:peak", "after the history the peak time range is %s, over fresh users %s" % (A[0], B[0]))
    if not np.array_equal(A[1], B[1]):
        d = int(np.argmax(np.abs(A[1] - B[1]).ravel()))
        ctx.fail("C12:results", "after the history a freshly seeded use case generates %s W at minute %d, over fresh users %s W (%s)" % (A[1].ravel()[d], d, B[1].ravel()[d], spec["final"]))


def outcome(ctx, spec, users):
    def go():
        uc = fresh(spec, users, spec["rseed"])
        uc.parallel_processing = spec["final"] == "par"
        return np.asarray(uc.peak_time_range), np.asarray(uc.generate_daily_load_profiles(flat=False))

    return ctx.call(go)
