import json
import os
import random
import sys
from .. import boot, disk, gen as G, model as M
from .. import world as W

RUNS = {"quick": 230, "thorough": 15000}
RULE = ("The same users, seed (0 included), dates, options and operations executed in two or three different environments: random numbers consumed before, clock, time zone, processors, "
        "fork/spawn, worker schedule, forked process, fresh interpreter with another hash seed, dates given to the constructor / set later / number of days; all peak time ranges and profiles are compared bit by bit.")
PROBES = {"quick": ["seed0", "par", "seq", "exec", "forked", "late_dates", "prefs", "reinit", "cases", "stochastic"]}
KEEP = ("vars",)
CTOR = ["dates", "set", "num", "add", "end"]


def generate(rng, i, tier):
    us = []
    k = 0
    for j in range(rng.choice([1, 1, 2, 3])):
        m = rng.choice([0, 0, 2, 3])
        apps = []
        for _ in range(rng.choice([1, 2, 3])):
            kind = rng.choice(["plain", "plain", "flat", "any", "occ"])
            a = G.plain(rng, "a%d" % k) if kind in ("plain", "occ") else G.flat(rng, "a%d" % k) if kind == "flat" else G.cycles_any(rng, "a%d" % k)
            if kind == "occ":
                a["occ"] = rng.choice([0.3, 0.7])
            a["wd"] = rng.choice([2, 2, 2, 0, 1])
            if m and rng.random() < 0.7:
                a["pref"] = rng.randrange(1, m + 1)
            apps.append(a)
            k += 1
        us.append(M.user("u%d" % j, rng.choice([1, 1, 2, 3]), m, apps))
    par = rng.random() < 0.45
    D = rng.choice([1, 1, 2, 3])
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops.append(rng.choice([["gen", 1], ["gen", 0], ["gen", 1], ["cases", 2], ["reinit", rng.choice([0, 1, 2])], ["peak", rng.choice([0.0, 0.15, 0.5])], ["single", 0]]))
    if not any(o[0] in ("gen", "cases") for o in ops):
        ops.append(["gen", 1])
    vs = []
    for v in range(rng.choice([2, 2, 3])):
        e = G.env(rng, 0.0)
        e.update(G.pool_env(rng))
        vs.append({"env": e, "pre": rng.choice([0, 0, 1, 7, 100]), "ctor": rng.choice(CTOR), "proc": rng.choice(["same", "same", "fork"]), "entropy": rng.randrange(1 << 30), "reseed": rng.choice([0, 0, 1])})
    slow = i % 50 == 16
    if slow:
        vs[-1]["proc"] = "exec"
        vs[-1]["hashseed"] = rng.randrange(1, 1 << 20)
        vs[-1]["env"].update(start="fork", cpus=rng.choice([1, 2]))
        vs = vs[-2:]
        us = us[:2]
        for u in us:
            u["n"] = min(u["n"], 2)
            u["apps"] = u["apps"][:2]
        D = 1
        ops = ops[-2:] if any(o[0] in ("gen", "cases") for o in ops[-2:]) else [["gen", 1]]
    rs = rng.choice([0, 0, 1, rng.randrange(1 << 31)])
    return {"users": us, "days": D, "start": G.date(rng), "par": par, "rseed": rs, "ops": ops, "vars": vs, "enlarge": rng.choice([0.0, 0.15, 0.15, 0.7]), "env": {"rng": "mt", "adv": [0.0, 0.0]}, "slow": slow}


def valid(spec):
    from . import _appday as A

    if len(spec["vars"]) < 2 or not spec["ops"]:
        return False
    for u in spec["users"]:
        for a in u["apps"]:
            if a["pref"] > u["pref"]:
                return False
    return A.valid(spec) and all(v["env"]["cpus"] >= 1 for v in spec["vars"]) and all(o[0] in ("gen", "cases", "reinit", "peak", "single") and len(o) == 2 for o in spec["ops"])


def build(spec, ctor):
    import datetime
    from ramp import UseCase

    start = datetime.date.fromisoformat(spec["start"])
    end = (start + datetime.timedelta(days=spec["days"] - 1)).isoformat()
    users = M.build_users(spec["users"])
    kw = dict(name="uc", parallel_processing=bool(spec["par"]), peak_enlarge=spec["enlarge"], random_seed=spec["rseed"])
    if ctor == "dates":
        return UseCase(users=users, date_start=spec["start"], date_end=end, **kw)
    if ctor == "set":
        uc = UseCase(users=users, **kw)
        uc.date_start = spec["start"]
        uc.date_end = end
        uc.initialize()
        return uc
    if ctor == "end":
        uc = UseCase(users=users, date_end=end, **kw)
        uc.initialize(num_days=spec["days"])
        return uc
    if ctor == "add":
        uc = UseCase(date_start=spec["start"], **kw)
        for u in users:
            uc.add_user(u)
        uc.initialize(num_days=spec["days"])
        return uc
    uc = UseCase(users=users, date_start=spec["start"], **kw)
    uc.initialize(num_days=spec["days"])
    return uc


def observe(spec, v):
    """list of (label, bytes)"""
    import numpy as np

    for _ in range(v["pre"]):
        random.random()
    if v["reseed"]:
        random.seed(v["entropy"])
    out = []
    uc = build(spec, v["ctor"])
    out.append(("peak", np.asarray(uc.peak_time_range).tobytes()))
    for i, (op, x) in enumerate(spec["ops"]):
        w = "operation %d (%s) " % (i + 1, op)
        if op == "gen":
            out.append((w, np.asarray(uc.generate_daily_load_profiles(flat=bool(x))).tobytes()))
        elif op == "cases":
            out.append((w, uc.generate_daily_load_profiles(cases=["c%d" % c for c in range(x)]).DataFrame.to_numpy().tobytes()))
        elif op == "reinit":
            uc.initialize(num_days=spec["days"], force=True)
            out.append((w, np.asarray(uc.peak_time_range).tobytes()))
        elif op == "peak":
            uc.peak_enlarge = float(x)
            out.append((w, np.asarray(uc.peak_time_range).tobytes()))
        elif op == "single":
            for u in uc.users:
                out.append((w, np.asarray(u.generate_aggregated_load_profile(prof_i=0, peak_time_range=uc.peak_time_range, day_type=0)).tobytes()))
    return out


def run(spec, ctx):
    ctx.hit("seed0", spec["rseed"] == 0)
    ctx.hit("par" if spec["par"] else "seq")
    ctx.hit("prefs", any(u["pref"] for u in spec["users"]))
    ctx.hit("stochastic", any(a["flat"] != "yes" for u in spec["users"] for a in u["apps"]))
    for o in spec["ops"]:
        ctx.hit(o[0])
    res = []
    for v in spec["vars"]:
        ctx.hit("late_dates", v["ctor"] != "dates")
        res.append(one(spec, ctx, v))
    ref = res[0]
    for v, r in list(zip(spec["vars"], res))[1:]:
        ctx.evals += len(r)
        for (la, a), (lb, b) in zip(ref, r):
            if a != b:
                ctx.fail("C10:differs", "%s: result of %s differs although seed (%s), users, dates and operations are the same; environments %s and %s" % (
                    "parallel" if spec["par"] else "sequential", la, spec["rseed"], brief(spec["vars"][0]), brief(v)))
        if len(ref) != len(r):
            ctx.fail("C10:differs", "different number of results")
    for la, a in ref:
        ctx.rec(la, a)


def brief(v):
    e = v["env"]
    return {"constructed": v["ctor"], "process": v["proc"], "earlier draws": v["pre"], "cpus": e["cpus"], "start": e["start"], "schedule": e["sched"]["mode"], "tz": e["tz"]}


def one(spec, ctx, v):
    w = W.current
    if v["proc"] == "exec":
        ctx.hit("exec")
        return execd(spec, ctx, v)
    if v["proc"] == "fork":
        ctx.hit("forked")

        def go():
            W.current.seed = W.derive(W.current.seed, v["entropy"])
            ctx.apply_env(v["env"])
            try:
                return observe(spec, v)
            finally:
                from .. import pool

                pool.kill_all()

        r = ctx.in_process(go)
        if r[0] != "ok":
            ctx.fail("C10:exception:" + r[1], "%s: %s" % (r[1], r[2]))
        return r[1]
    seed = w.seed
    w.seed = W.derive(w.seed, v["entropy"])
    ctx.apply_env(v["env"])
    r = ctx.call(observe, spec, v)
    w.seed = seed
    return r


def execd(spec, ctx, v):
    """a fresh interpreter with another hash seed"""
    import pickle

    src = os.path.join(ctx.scratch, "observe.json")
    dst = os.path.join(ctx.scratch, "observe.out")
    with open(src, "w") as f:
        json.dump({"prop": "C10", "spec": spec, "var": v}, f)
    pid = os.fork()
    if pid == 0:
        try:
            e = dict(os.environ, PYTHONHASHSEED=str(v["hashseed"]), DST_REPO=boot.REPO)
            os.chdir(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
            os.execve(sys.executable, [sys.executable, "-m", "dst.main", "--observe", src, "--out", dst], e)
        finally:
            os._exit(3)
    _, st = os.waitpid(pid, 0)
    if st != 0 or not os.path.exists(dst):
        raise RuntimeError("the observed interpreter ended with %r" % st)
    with open(dst, "rb") as f:
        r = pickle.loads(f.read())
    if r[0] != "ok":
        ctx.fail("C10:exception:" + r[1], "%s: %s" % (r[1], r[2]))
    return r[1]
