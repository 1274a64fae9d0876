import numpy as np
from .. import gen as G, model as M, paths
from .. import world as W

RUNS = {"quick": 420, "thorough": 20000}
RULE = ("Stochastic use cases under the real generator (entropy from the run) x sequential / parallel under simulated schedules, fork and spawn: the on-minutes of individuals, appliances with the same definition, days, cases, "
        "repeated generations, unseeded use cases (also of another process) and different seeds are compared; copies are reported (the probability of an accidental copy is below 1e-12 per comparison).")
PROBES = {"quick": ["individuals", "appliances", "days", "path_cases", "repeat", "unseeded", "other_process", "seeds", "path_par", "path_seq", "spawn", "occ", "pref", "windows", "crowd"]}
ASSUMPTIONS = ("accidental copies are impossible for all practical purposes",)
KEEP = ("seeds",)


def generate(rng, i, tier):
    kind = rng.choice(["on", "on", "on", "occ", "pref", "windows", "seeds", "seeds", "unseeded", "unseeded", "crowd"])
    fc = rng.choice([1, 5, 10, 20])
    ws = rng.choice([[[0, 1440]], [[0, 1440]], [[100, 800], [900, 1400]], [[300, 1100]], [[700, 1440], [0, 500]]])
    t = G.total(ws)
    spec = {"kind": kind, "start": "2022-01-03", "env": {"rng": "mt", "adv": [0.0, 0.0], "clock": round(rng.random() * 4e9, 3), "tz": "UTC"}}
    apps = []
    n = rng.choice([1, 2, 2, 3, 5])
    if kind in ("on", "seeds", "unseeded"):
        for k in range(rng.choice([1, 2, 2, 3])):
            apps.append(M.app("a%d" % k, 1, 10 ** k, int(t * 0.3), fc, 0.2, ws, rng.choice([0, 0.1]), "no"))
        spec["days"] = rng.choice([1, 2, 3, 5])
        n = n if kind == "on" else rng.choice([1, 2])
    elif kind == "crowd":
        apps.append(M.app("a0", 1, 1, 1, 1, 0, [[0, 1440]], 0, "no"))
        n = rng.choice([12, 21, 24, 33, 50, 60])
        spec["days"] = 2
    elif kind == "windows":
        apps.append(M.app("a0", 1, 1, 100, 1, 0, [[300, 700], [900, 1300]], 0.35, "yes", flat="yes"))
        spec["days"] = 8
    else:
        n = 8
        if kind == "occ":
            apps = [M.app("a%d" % k, 1, 10 ** k, 1440, 1, 0, [[0, 1440]], 0, "yes", flat="yes", occ=0.5) for k in range(2)]
        else:
            apps = [M.app("a%d" % k, 1, 10 ** k, 1440, 1, 0, [[0, 1440]], 0, "yes", flat="yes", pref=k + 1) for k in range(2)]
        spec["days"] = 24
    spec["users"] = [M.user("u", n, 2 if kind == "pref" else 0, apps)]
    if kind == "on" and rng.random() < 0.3:
        spec["users"] = [M.user("u", 1, 0, [apps[0]]), M.user("v", 1, 0, [dict(apps[0], power=10)])]
    spec["path"] = rng.choice(["seq", "seq", "par", "parflat", "cases"]) if spec["days"] <= 8 else rng.choice(["seq", "par"])
    if spec["path"] == "cases" and rng.random() < 0.4:
        spec["parcases"] = 1
    spec["env"].update(G.pool_env(rng, maxcpu=6))
    if rng.random() < 0.5:
        spec["rseed"] = rng.choice([0, 1, rng.randrange(1 << 31)])
    if kind == "seeds":
        s = rng.choice([0, 1, 7, rng.randrange(1 << 31), (1 << 32) - 1])
        spec["seeds"] = [s, rng.choice([s + 1, s + 2, s + (1 << 32), s * 2 + 1, 12345678901])]
        spec.pop("rseed", None)
        if spec["seeds"][0] == spec["seeds"][1]:
            spec["seeds"][1] += 1
    if kind == "unseeded":
        spec.pop("rseed", None)
        spec["proc"] = rng.choice([0, 1])
        spec["preseed"] = rng.choice([0, 0, 1])
    if spec["path"] == "cases" and kind != "on":
        spec["path"] = "seq"
    return spec


def valid(spec):
    from . import _appday as A

    if not A.valid(spec):
        return False
    k = spec["kind"]
    if k in ("occ", "pref") and (spec["users"][0]["n"] < 8 or spec["days"] < 24 or len(spec["users"][0]["apps"]) < 2 or spec["users"][0]["pref"] != (2 if k == "pref" else 0)):
        return False
    if k == "crowd":
        a = spec["users"][0]["apps"][0]
        if len(spec["users"]) != 1 or len(spec["users"][0]["apps"]) != 1 or a["power"] != 1 or dict(a, name="a0") != M.app("a0", 1, 1, 1, 1, 0, [[0, 1440]], 0, "no") or spec["users"][0]["pref"] or a["windows"] != [[0, 1440]] or spec["days"] != 2 or not 12 <= spec["users"][0]["n"] <= 60:
            return False
        return spec["env"]["cpus"] >= 1
    if k == "windows" and (spec["days"] < 8 or spec["users"][0]["apps"][0]["rvw"] < 0.3):
        return False
    for u in spec["users"]:
        for a in u["apps"]:
            t = G.total(a["windows"])
            if k in ("on", "seeds", "unseeded") and (not 0.1 * t <= a["ft"] <= 0.5 * t or a["fc"] > 20 or t < 600 or a["number"] != 1):
                return False
    ps = [a["power"] for u in spec["users"] for a in u["apps"]]
    return spec["env"]["cpus"] >= 1 and all(p in (1, 10, 100) for p in ps) and len(set(ps)) == len(ps) and all(u["n"] <= 8 for u in spec["users"]) and spec.get("seeds", [0, 1])[0] != spec.get("seeds", [0, 1])[1]


def digit(P, p):
    return (np.round(np.where(P > 0.5, P, 0)).astype(int) // int(p)) % 10


def run(spec, ctx):
    k = spec["kind"]
    ctx.hit("spawn", spec["env"]["start"] == "spawn" and (spec["path"].startswith("par") or bool(spec.get("parcases"))))
    if k == "seeds":
        ctx.hit("seeds")
        R = []
        for s in spec["seeds"]:
            uc = paths.make_usecase(ctx, dict(spec, rseed=s))
            R.append(paths.profiles(ctx, spec, uc))
        for (d, P), (_, Q) in zip(*R):
            ctx.check(not np.array_equal(P, Q), "C11:seeds", "random_seed %s and %s give the same profile of day %d" % (spec["seeds"][0], spec["seeds"][1], d))
        return
    if k == "unseeded":
        ctx.hit("unseeded")

        def go():
            uc = paths.make_usecase(ctx, spec)
            return [P for _, P in paths.profiles(ctx, spec, uc)]

        if spec["preseed"]:
            # a seeded use case was used before
            uc = paths.make_usecase(ctx, dict(spec, rseed=3))
            paths.profiles(ctx, spec, uc)
        A = go()
        if spec["proc"]:
            ctx.hit("other_process")

            def other():
                from .. import pool, rng

                W.current.seed = W.derive(W.current.seed, "other")
                rng.after_fork()
                try:
                    return [P.tobytes() for P in go()]
                finally:
                    pool.kill_all()

            r = ctx.in_process(other)
            if r[0] != "ok":
                ctx.fail("C11:exception:" + r[1], r[2])
            B = [np.frombuffer(b) for b in r[1]]
        else:
            B = go()
        for d, (P, Q) in enumerate(zip(A, B)):
            ctx.check(not np.array_equal(P, Q), "C11:unseeded", "two use cases without seed%s give the same profile of day %d" % (" in two processes" if spec["proc"] else "", d))
        return
    uc = paths.make_usecase(ctx, spec)
    if spec.get("parcases"):
        uc.parallel_processing = True
    res = paths.profiles(ctx, spec, uc)
    apps = [(u, a) for u in spec["users"] for a in u["apps"]]
    D = spec["days"]
    if k in ("occ", "pref"):
        ctx.hit(k)
        u = spec["users"][0]
        cnt = [[int(digit(P, a["power"]).max()) for a in u["apps"]] for _, P in res]
        for j, a in enumerate(u["apps"]):
            c = [x[j] for x in cnt]
            ctx.check(any(0 < x < u["n"] for x in c), "C11:individuals", "on each of %d days either all or none of the %d users run appliance %s (%s): %s" % (
                D, u["n"], a["name"], "preference" if k == "pref" else "occasional_use 0.5", c))
            ctx.check(len(set(c)) > 1, "C11:days", "the number of users of appliance %s is the same on %d days: %s" % (a["name"], D, c))
        if k == "occ":
            ctx.check(any(x[0] != x[1] for x in cnt), "C11:appliances", "both appliances are run by the same number of users on each of %d days: %s" % (D, cnt))
        return
    if k == "crowd":
        # each member is on for one minute of the day: shared draws show as few distinct minutes
        ctx.hit("crowd")
        n = spec["users"][0]["n"]
        for _, P in res:
            ctx.check(abs(np.floor(P + 0.3).sum() - n) < 0.01, "C11:individuals", "%d users with a one-minute appliance use %s W min" % (n, np.floor(P + 0.3).sum()))
        lost = [n - int((P > 0.5).sum()) for _, P in res]
        ctx.check(min(lost) < max(5, 0.2 * n) and max(lost) < max(9, 0.3 * n), "C11:individuals", "of %d users with a one-minute appliance, %s share the minute of another on the days" % (n, lost))
        return
    if k == "windows":
        ctx.hit("windows")
        n = spec["users"][0]["n"]
        if n > 1:
            ctx.check(any(((P > 0.5) & (np.abs(P - n) > 0.5)).any() for _, P in res), "C11:individuals", "the windows of the %d users are the same on each of %d days" % (n, D))
        ctx.check(len({P.tobytes() for _, P in res}) > 1, "C11:days", "the windows are the same on %d days" % D)
        return
    on = [{(u["name"], a["name"]): digit(P, a["power"]) for u, a in apps} for _, P in res]
    ctx.hit("days", D > 1)
    for i, (d, P) in enumerate(res):
        for u, a in apps:
            x = on[i][(u["name"], a["name"])]
            if u["n"] > 1:
                ctx.hit("individuals")
                ctx.check(bool(((x > 0) & (x < u["n"])).any()), "C11:individuals", "the %d users %s run appliance %s in the same minutes of day %d" % (u["n"], u["name"], a["name"], d))
        for p in range(len(apps)):
            for q in range(p):
                ctx.hit("appliances")
                (u, a), (v, b) = apps[p], apps[q]
                if u["n"] == v["n"] and dict(a, name="", power=0) == dict(b, name="", power=0):
                    ctx.check(not np.array_equal(on[i][(u["name"], a["name"])], on[i][(v["name"], b["name"])]), "C11:appliances", "appliances %s of %s and %s of %s run in the same minutes of day %d" % (a["name"], u["name"], b["name"], v["name"], d))
    same(ctx, res, [x for x in on], "C11:days", spec["path"] == "cases")
    if k == "on" and D <= 3:
        ctx.hit("repeat")
        res2 = paths.profiles(ctx, spec, uc)
        for (d, P), (_, Q) in zip(res, res2):
            ctx.check(not np.array_equal(P, Q), "C11:repeat", "a second generation gives the same profile of day %d" % d)


def same(ctx, res, on, key, cases):
    for i in range(len(res)):
        for j in range(i):
            for w in on[i]:
                what = "cases" if cases else "days"
                ctx.check(not np.array_equal(on[i][w], on[j][w]), key, "appliance %s of %s runs in the same minutes in %s %d and %d%s" % (w[1], w[0], what, res[j][0], res[i][0], " (of the cases)" if cases else ""))
