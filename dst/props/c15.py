from .. import gen as G, model as M, paths
from .. import world as W

RUNS = {"quick": 1400, "thorough": 80000}
RULE = ("Use cases over the whole documented parameter ranges (0 and 1 for every percentage, minimum switch-on of 0 to the whole window, cycle parts of 0 minutes, cycle windows nowhere near, all-day, touching and tiny windows, "
        "no users, no members, no load) under extreme random outcomes, with a budget of draws per appliance-day; every initialisation and generation must return. The documented error about func_cycle is accepted only if the windows can be too short.")
PROBES = {"quick": ["extreme_draw", "permitted_error", "cycles", "zero_cycle_part", "func_cycle0", "r_c1", "v1", "rvw1", "unreachable_cycles", "par", "seq", "empty_user", "many_units", "noncont", "repeat"]}
BUDGET = 200_000  # draws per appliance of an individual user and day


def any_app(rng, name):
    ws = G.windows(rng)
    t = G.total(ws)
    k = rng.choice([0, 0, 1, 1, 2, 3])
    cs = []
    for i in range(k):
        cws = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            w = rng.choice(ws)
            kind = rng.choice(["same", "inner", "far", "zero", "day"])
            if kind == "same":
                cws.append(list(w))
            elif kind == "inner":
                s = rng.randrange(w[0], w[1])
                cws.append([s, rng.randrange(s, w[1]) + 1])
            elif kind == "far":
                s = rng.randrange(0, 1435)
                cws.append([s, s + rng.randrange(0, 5)])
            elif kind == "zero":
                cws.append([0, 0])
            else:
                cws.append([0, 1440])
        t1, t2 = rng.choice([0, 1, 2, 10, 60, 1440]), rng.choice([0, 1, 2, 10, 60, 1440])
        cs.append(M.cyc(rng.choice([0, 1, 100, 2500]), t1, rng.choice([0, 1, 100]), t2, rng.choice([0, 0, 0.2, 0.5, 0.9, 1.0]), cws))
    flat = rng.random() < 0.15
    a = M.app(name, rng.choice([1, 1, 2, 7, 100]), rng.choice([0, 1, 100, 2500.5]), rng.choice([0, 1, t, t, rng.randrange(0, t + 1), rng.randrange(0, t + 1), rng.randrange(0, t + 1), rng.randrange(0, t + 1)]), rng.choice([0, 0, 1, 1, 2, 5, 20, max(1, t // 2), t, 1440]),
              rng.choice([0, 0.1, 0.5, 1.0]), ws, rng.choice([0, 0.05, 0.35, 0.6, 1.0]), rng.choice(["yes", "no"]), rng.choice([1, 1, 0]), rng.choice([1, 1, 1, 1, 1, 1, 0.5, 0]), "yes" if flat else "no",
              0 if flat else rng.choice([0, 0.2, 1.0]), 0, rng.choice([2] * 8 + [0, 1]), cs, rng.choice(["add", "windows", "cycle_behaviour"]))
    if rng.random() < 0.6:
        G.fitting(a)
    return a


def generate(rng, i, tier):
    us = []
    for j in range(rng.choice([1, 1, 1, 1, 1, 1, 2, 2, 2, 0])):
        m = rng.choice([0, 0, 0, 2, 3])
        apps = [any_app(rng, "a%d%d" % (j, k)) for k in range(rng.choice([1, 1, 1, 1, 1, 2, 2, 2, 3, 0]))]
        for a in apps:
            if m:
                a["pref"] = rng.randrange(0, m + 1)
        us.append(M.user("u%d" % j, rng.choice([1] * 10 + [2, 2, 3, 3, 0]), m, apps))
    D = rng.choice([1, 1, 2, 3])
    par = rng.random() < 0.15
    e = G.env(rng, 0.9, par=par)
    if e["rng"] == "adv":
        e["adv"] = [rng.choice([0.02, 0.1, 0.3, 0.6, 0.9]), rng.choice([0.0, 0.1])]
    return {"users": us, "days": D, "path": "par" if par else rng.choice(["seq", "flat", "agg", "cases"]), "start": G.date(rng), "enlarge": rng.choice([0.0, 0.15, 1.0, 3.0]), "again": rng.choice([0, 1]), "env": e}


def valid(spec):
    if spec["days"] < 1 or spec["env"].get("cpus", 1) < 1:
        return False
    for u in spec["users"]:
        if u["n"] < 0:
            return False
        for a in u["apps"]:
            if a["number"] < 1 or not a["windows"] or not 0 <= a["ft"] <= G.total(a["windows"]) or a["fc"] < 0 or a["pref"] > u["pref"] or not 0 <= a["fc"] <= 1440:
                return False
            for x in ("v", "rvw", "occ", "th"):
                if not 0 <= a[x] <= 1:
                    return False
            for c in a["cycles"]:
                if c["t1"] < 0 or c["t2"] < 0 or not 0 <= c["r"] <= 1:
                    return False
    return True


def run(spec, ctx):
    w = W.current
    us = spec["users"]
    apps = [a for u in us for a in u["apps"]]
    ctx.hit("cycles", any(a["cycles"] for a in apps))
    ctx.hit("zero_cycle_part", any(c["t1"] == 0 or c["t2"] == 0 for a in apps for c in a["cycles"]))
    ctx.hit("func_cycle0", any(a["fc"] == 0 for a in apps))
    ctx.hit("r_c1", any(c["r"] == 1 for a in apps for c in a["cycles"]))
    ctx.hit("v1", any(a["v"] == 1 for a in apps))
    ctx.hit("rvw1", any(a["rvw"] == 1 for a in apps))
    ctx.hit("unreachable_cycles", any(a["cycles"] and not any(M.gap_touches(a, x, 1) for x in M.wide_windows(a)) for a in apps))
    ctx.hit("empty_user", any(not u["apps"] or not u["n"] for u in us) or not us)
    ctx.hit("many_units", any(a["number"] > 50 for a in apps))
    ctx.hit("noncont", any(a["cycles"] and not a["cont"] for a in apps))
    ctx.hit("par" if spec["path"] == "par" else "seq")
    n = sum(u["n"] * len(u["apps"]) for u in us) + 1
    cases = 2 if spec["path"] == "cases" else 1
    w.draw_budget = BUDGET
    uc = paths.make_usecase(ctx, spec)
    for r in range(1 + spec["again"]):
        ctx.hit("repeat", r)
        w.draw_budget = w.draws + BUDGET * n * spec["days"] * cases
        out = ctx.attempt(generation, spec, uc)
        ctx.hit("sim_days", spec["days"])
        ctx.evals += 1
        if out[0] == "exc":
            ok = out[1] == "ValueError" and "func_cycle" in out[2] and any(M.may_not_fit(a) for a in apps)
            if not ok:
                why = " (the windows cannot be too short for any appliance)" if "func_cycle" in out[2] else ""
                ctx.fail("C15:exception:" + out[1], "generation raised %s: %s%s" % (out[1], out[2], why))
            ctx.hit("permitted_error")
            continue
        bad = [(k, m) for P in out[1] for k, m in M.check_shape(P)]
        if bad:
            ctx.fail("C15:profile", bad[0][1])
        for P in out[1]:
            ctx.rec(P)


def generation(spec, uc):
    import numpy as np

    D = spec["days"]
    if spec["path"] == "agg":
        return [np.array(u.generate_aggregated_load_profile(prof_i=d, peak_time_range=uc.peak_time_range, day_type=M.day_type(spec["start"], d))) for d in range(D) for u in uc.users]
    if spec["path"] == "cases":
        df = uc.generate_daily_load_profiles(cases=["x", "y"]).DataFrame
        return [x for c in range(2) for x in df.iloc[:, c].to_numpy().reshape(D, 1440)]
    P = np.asarray(uc.generate_daily_load_profiles(flat=spec["path"] == "flat"))
    return list(P.reshape(D, 1440))
