import copy
import json
import random
import numpy as np
from .. import gen as G, model as M, paths
from .. import world as W
from . import _appday as A

RUNS = {"quick": 300, "thorough": 20000}
RULE = ("Histories of edits of a live model (parameters, windows, duty cycles, powers, members, preferences, appliances and users added or removed, simulated days changed), accepted or rejected, interleaved with sequential, parallel, aggregated and multi-case generations, "
        "some interrupted. At the end the definitions, a seeded generation without and one with re-initialisation are compared bit by bit with those of a use case freshly built with the final definitions.")
EDITS = ["attr", "attr", "attr", "windows", "windows", "cycles", "power", "n", "upref", "addapp", "delapp", "adduser", "deluser", "days", "enlarge", "reject", "reject", "gen", "gen", "gen"]
REJ = ["short_windows", "missing_window", "bad_user", "bad_app", "short_series", "long_days", "enlarge", "app_windows", "series_app"]
PROBES = {"quick": sorted(set(EDITS)) + ["rej_" + r for r in REJ] + ["gen_par", "gen_seq", "gen_cases", "gen_agg", "final_par", "final_seq", "final_agg", "cycles", "interrupted"]}
ATTR = {"number": "number", "ft": "func_time", "v": "time_fraction_random_variability", "fc": "func_cycle", "fixed": "fixed", "occ": "occasional_use", "wd": "wd_we_type", "pref": "pref_index", "th": "thermal_p_var", "flat": "flat", "cont": "continuous_duty_cycle", "name": "name"}
KEEP = ("cycles",)


def one(rng, name, m):
    kind = rng.choice(["plain", "plain", "flat", "any", "strict"])
    a = {"plain": G.plain, "flat": G.flat, "any": G.cycles_any, "strict": G.cycles_strict}[kind](rng, name)
    a["wd"] = rng.choice([2, 2, 2, 0, 1])
    a["occ"] = rng.choice([1, 1, 1, 0.5])
    if m and rng.random() < 0.6:
        a["pref"] = rng.randrange(1, m + 1)
    if kind in ("plain", "flat") and rng.random() < 0.3:
        a["power"] = G.series(rng)
    return a


def edit(rng, st):
    """one edit of the model st, or None"""
    e = rng.choice(EDITS)
    us = st["users"]
    if e == "gen":
        o = {"e": e, "op": rng.choice(["seq", "seq", "par", "agg", "cases"])}
        if rng.random() < 0.25:
            o["draw"], o["exc"] = rng.choice([1, 3, 8, 20, 100]), rng.choice(["KeyboardInterrupt", "MemoryError"])
        return o
    if e == "days":
        return {"e": e, "start": G.date(rng), "days": rng.choice([1, 2, 3, 4])}
    if e == "enlarge":
        return {"e": e, "v": rng.choice([0.0, 0.1, 0.6])}
    k = "x%d" % rng.randrange(10 ** 6)
    if e == "adduser":
        m = rng.choice([0, 0, 2])
        return {"e": e, "user": M.user(k, rng.choice([1, 2]), m, [one(rng, k + "a", m) for _ in range(rng.choice([1, 1, 2]))])} if len(us) < 4 else None
    if not us:
        return None
    i = rng.randrange(len(us))
    u = us[i]
    if e == "deluser":
        return {"e": e, "u": i} if len(us) > 1 else None
    if e == "n":
        return {"e": e, "u": i, "v": rng.choice([1, 2, 3])}
    if e == "upref":
        low = max([a["pref"] for a in u["apps"]] or [0])
        return {"e": e, "u": i, "v": max(low, rng.choice([0, 1, 2, 3]))}
    if e == "addapp":
        return {"e": e, "u": i, "app": one(rng, k, u["pref"])} if len(u["apps"]) < 4 else None
    if e == "reject":
        r = rng.choice(REJ)
        return {"e": e, "r": r, "u": i, "a": rng.randrange(len(u["apps"]))}
    j = rng.randrange(len(u["apps"]))
    a = u["apps"][j]
    if e == "delapp":
        return {"e": e, "u": i, "a": j} if len(u["apps"]) > 1 else None
    if e == "power":
        return {"e": e, "u": i, "a": j, "v": G.series(rng) if isinstance(a["power"], dict) else rng.choice([1, 9.5, 400])}
    b = {"plain": G.plain, "flat": G.flat}[rng.choice(["plain", "flat"])](rng, "y")
    if e == "attr":
        k = rng.choice(["number", "ft", "ft", "v", "fc", "fixed", "occ", "wd", "pref", "th", "flat", "cont", "name"])
        v = b[k]
        if k == "occ":
            v = rng.choice([0.3, 0.7, 1])
        if k == "wd":
            v = rng.choice([0, 1, 2])
        if k == "pref":
            v = rng.choice(range(u["pref"] + 1))
        if k == "cont":
            v = rng.choice([0, 1])
        if k == "flat" and (a["cycles"] or a["th"]):
            return None
        if k == "th" and a["flat"] == "yes":
            return None
        if k == "name":
            v = "n%d" % rng.randrange(10 ** 6)
        if k == "ft":
            v = rng.randrange(1, G.total(a["windows"]) + 1)
        return {"e": e, "u": i, "a": j, "k": k, "v": v}
    if e == "windows":
        ws = b["windows"] if rng.random() < 0.5 else [[max(0, w[0] - rng.randrange(0, 50)), min(1440, w[1] + rng.randrange(0, 50))] for w in a["windows"]]
        return {"e": e, "u": i, "a": j, "windows": ws, "rvw": b["rvw"]} if len(ws) == len(a["windows"]) else None
    if e == "cycles":
        if not a["cycles"]:
            return None
        q = rng.randrange(len(a["cycles"]))
        c = copy.deepcopy(a["cycles"][q])
        c.update(t1=rng.randrange(1, 20), t2=rng.randrange(1, 20), p1=rng.choice(G.PRIMES), p2=rng.choice(G.PRIMES), r=rng.choice([0, 0.3]))
        if c["cws"] and rng.random() < 0.5:
            c["cws"] = [[max(0, x - 5), min(1440, y + 5)] for x, y in c["cws"]]
        return {"e": e, "u": i, "a": j, "c": q, "cyc": c}


def apply(st, o):
    """the model after an accepted edit"""
    st = copy.deepcopy(st)
    us = st["users"]
    e = o["e"]
    if e in ("gen", "reject"):
        return st
    if e == "days":
        st["start"], st["days"] = o["start"], o["days"]
    elif e == "enlarge":
        st["enlarge"] = o["v"]
    elif e == "adduser":
        us.append(copy.deepcopy(o["user"]))
    elif e == "deluser":
        del us[o["u"]]
    elif e == "n":
        us[o["u"]]["n"] = o["v"]
    elif e == "upref":
        us[o["u"]]["pref"] = o["v"]
    elif e == "addapp":
        us[o["u"]]["apps"].append(copy.deepcopy(o["app"]))
    elif e == "delapp":
        del us[o["u"]]["apps"][o["a"]]
    else:
        a = us[o["u"]]["apps"][o["a"]]
        if e == "power":
            a["power"] = o["v"]
        elif e == "attr":
            a[o["k"]] = o["v"]
        elif e == "windows":
            a["windows"], a["rvw"] = copy.deepcopy(o["windows"]), o["rvw"]
        elif e == "cycles":
            a["cycles"][o["c"]] = copy.deepcopy(o["cyc"])
    return st


def ok(st):
    if not st["users"] or st["days"] < 1:
        return False
    for u in st["users"]:
        if u["n"] < 1 or not u["apps"] or any(a["pref"] > u["pref"] for a in u["apps"]) or any(not A.valid_app(a) for a in u["apps"]):
            return False
        # the same appliance twice would not be added (equality of appliances)
        z = [json.dumps({k: v for k, v in a.items() if k != "api"}, sort_keys=True) for a in u["apps"]]
        if len(set(z)) < len(z):
            return False
        for a in u["apps"]:
            if a["flat"] == "yes" and (a["cycles"] or a["th"]):
                return False
    return True


def generate(rng, i, tier):
    us = []
    for j in range(rng.choice([1, 1, 2])):
        m = rng.choice([0, 0, 2])
        us.append(M.user("u%d" % j, rng.choice([1, 1, 2]), m, [one(rng, "a%d%d" % (j, k), m) for k in range(rng.choice([1, 2, 2]))]))
    st = {"users": us, "start": G.date(rng), "days": rng.choice([1, 2, 3]), "enlarge": 0.15}
    ops = []
    cur = st
    for _ in range(rng.choice([2, 4, 6, 10])):
        o = edit(rng, cur)
        if o is None:
            continue
        n = apply(cur, o)
        if ok(n):
            cur = n
            ops.append(o)
    env = G.env(rng, 0.3)
    env.update(G.pool_env(rng, maxcpu=4))
    return dict(st, ops=ops, final=rng.choice(["seq", "seq", "par", "agg"]), rseed=rng.randrange(1 << 30), env=env)


def valid(spec):
    cur = {k: spec[k] for k in ("users", "start", "days", "enlarge")}
    if not ok(cur):
        return False
    for o in spec["ops"]:
        if o.get("draw", 1) < 1:
            return False
        if o["e"] == "windows" and len(o["windows"]) != len(cur["users"][o["u"]]["apps"][o["a"]]["windows"]):
            return False
        if o["e"] == "cycles" and len(o["cyc"]["cws"]) != len(cur["users"][o["u"]]["apps"][o["a"]]["cycles"][o["c"]]["cws"]):
            return False
        if o["e"] == "power" and isinstance(o["v"], dict) != isinstance(cur["users"][o["u"]]["apps"][o["a"]]["power"], dict):
            return False
        if o["e"] == "reject":
            cur["users"][o["u"]]["apps"][o["a"]]
        if o["e"] == "cycles" and o["c"] >= len(cur["users"][o["u"]]["apps"][o["a"]]["cycles"]):
            return False
        cur = apply(cur, o)
        if not ok(cur):
            return False
    return spec["env"]["cpus"] >= 1


# ------------------------------------------------------------------ on the real model
def do(ctx, uc, st, o):
    """st: the model after the edit"""
    e = o["e"]
    us = uc.users
    if e == "days":
        uc.date_start = o["start"]
        uc.initialize(num_days=o["days"], force=True)
    elif e == "enlarge":
        uc.peak_enlarge = o["v"]
    elif e == "adduser":
        uc.add_user(M.build_user(o["user"]))
    elif e == "deluser":
        del us[o["u"]]
    elif e == "n":
        us[o["u"]].num_users = o["v"]
    elif e == "upref":
        us[o["u"]].user_preference = o["v"]
    elif e == "addapp":
        M.build_app(us[o["u"]], o["app"])
    elif e == "delapp":
        del us[o["u"]].App_list[o["a"]]
    else:
        app = us[o["u"]].App_list[o["a"]]
        a = st["users"][o["u"]]["apps"][o["a"]]
        if e == "power":
            app.power = np.array(M.series(o["v"])) if isinstance(o["v"], dict) else float(o["v"]) * np.ones(len(app.power))
        elif e == "attr":
            setattr(app, ATTR[o["k"]], o["v"])
        elif e == "windows":
            app.windows(random_var_w=o["rvw"], **{"window_%d" % (k + 1): np.array(w) for k, w in enumerate(o["windows"])})
            M.declare_cycles(app, a)
        elif e == "cycles":
            M.declare_cycles(app, a)


def reject(ctx, uc, st, o):
    """an edit which must be refused"""
    u = uc.users[o["u"]]
    app = u.App_list[o["a"]]
    r = o["r"]
    if r == "short_windows":
        w = {"window_%d" % (k + 1): np.array([10, 10]) for k in range(len(st["users"][o["u"]]["apps"][o["a"]]["windows"]))}
        app.windows(random_var_w=0.9, **w)
    elif r == "missing_window":
        app.num_windows, n = 3, app.num_windows
        try:
            app.windows(window_1=np.array([0, 1440]), window_2=np.array([1, 2]))
        finally:
            app.num_windows = n
    elif r == "bad_user":
        uc.add_user("a user")
    elif r == "bad_app":
        u.add_appliance(app, "an appliance")
    elif r == "short_series":
        import pandas as pd
        from ramp import User

        v = User("short", 1)
        x = v.add_appliance(number=1, power=pd.DataFrame([float(k) for k in range(st["days"] - 1)]), num_windows=1, func_time=10, name="s")
        x.windows([0, 1440])
        uc.add_user(v)
    elif r == "long_days":
        # longer than the power series of some appliance
        uc.initialize(num_days=o.get("long", 367 + st["days"]), force=True)
    elif r == "enlarge":
        uc.peak_enlarge = -0.5
    elif r == "app_windows":
        u.add_appliance(number=2, power=3, num_windows=1, func_time=100, name="bad", window_1=np.array([0, 20]))
    elif r == "series_app":
        u.add_appliance(number=2, power="no numbers", num_windows=1, func_time=100, name="bad", window_1=np.array([0, 200]))


def definitions(users):
    out = []
    for u in users:
        out.append((u.user_name, u.num_users, u.user_preference, len(u.App_list)))
        out.append([float("%.12g" % v) for v in u.maximum_profile])
        if u.App_list:
            out.append(u.export_to_dataframe().to_json(orient="split", default_handler=str))
    return out


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            x, y = str(x), str(y)
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), 0)
            return "...%s instead of ...%s" % (x[max(0, i - 60):i + 60], y[max(0, i - 60):i + 60])
    return "a different number of users or appliances" if len(a) != len(b) else None


def profile(ctx, st, uc, op):
    D = st["days"]
    if op == "agg":
        out = []
        for d in range(D):
            t = np.zeros(1440)
            for u in uc.users:
                t = t + u.generate_aggregated_load_profile(prof_i=d, peak_time_range=uc.peak_time_range, day_type=M.day_type(st["start"], d))
            out.append(t)
        return np.array(out)
    if op == "cases":
        return uc.generate_daily_load_profiles(cases=["x"]).DataFrame.to_numpy()
    uc.parallel_processing = op == "par"
    try:
        return np.asarray(uc.generate_daily_load_profiles(flat=False))
    finally:
        uc.parallel_processing = False


def fresh(ctx, st, seed=None):
    from ramp import UseCase

    users = M.build_users(st["users"])
    if seed is not None:
        random.seed(seed)
    uc = UseCase("uc", users, date_start=st["start"], peak_enlarge=st["enlarge"])
    uc.initialize(num_days=st["days"])
    return uc


def run(spec, ctx):
    w = W.current
    st = {k: copy.deepcopy(spec[k]) for k in ("users", "start", "days", "enlarge")}
    uc = ctx.call(fresh, ctx, st)
    cyc = False
    for n, o in enumerate(spec["ops"]):
        e = o["e"]
        ctx.hit(e)
        if e == "gen":
            ctx.hit("gen_" + o["op"])
            if "draw" in o:
                w.inject_draw = (w.draws + o["draw"], paths.EXC[o["exc"]])
                r = ctx.attempt(profile, ctx, st, uc, o["op"])
                w.inject_draw = None
                ctx.hit("interrupted", r[0] == "exc")
            else:
                ctx.call(profile, ctx, st, uc, o["op"])
            continue
        if e == "reject":
            if o["r"] == "long_days" and not any(isinstance(a["power"], dict) for u in st["users"] for a in u["apps"]):
                continue
            if o["r"] == "short_series" and st["days"] < 2:
                continue
            ctx.hit("rej_" + o["r"])
            before = definitions(uc.users)
            r = ctx.attempt(reject, ctx, uc, st, o)
            ctx.check(r[0] == "exc", "C26:accepted", "an inconsistent edit (%s) was accepted" % o["r"])
            x = diff(definitions(uc.users), before)
            ctx.check(x is None, "C26:rejected", "the rejected edit (%s: %s) changed the model: %s" % (o["r"], r[1:], x))
            if ctx.viol:
                return
            continue
        st = apply(st, o)
        ctx.call(do, ctx, uc, st, o)
    ctx.hit("cycles", any(a["cycles"] for u in st["users"] for a in u["apps"]))
    ctx.hit("final_" + spec["final"])
    ctx.hit("sim_days", st["days"])
    what = " after " + ", ".join(o["e"] + (":" + o["r"] if "r" in o else "") for o in spec["ops"])
    f = ctx.call(fresh, ctx, st)
    x = diff(definitions(uc.users), definitions(f.users))
    ctx.check(x is None, "C26:definitions", "definitions%s: %s" % (what, x))
    # without another initialisation
    f.peak_time_range = np.array(uc.peak_time_range)

    def seeded(c):
        random.seed(spec["rseed"])
        return np.array(ctx.call(profile, ctx, st, c, spec["final"]))

    same(ctx, "C26:generation", seeded(uc), seeded(f), "generation%s" % what)
    # initialised again
    def again():
        random.seed(spec["rseed"] + 1)
        uc.initialize(num_days=st["days"], force=True)
        return np.array(uc.peak_time_range), np.array(profile(ctx, st, uc, spec["final"]))

    def anew():
        c = fresh(ctx, st, spec["rseed"] + 1)
        return np.array(c.peak_time_range), np.array(profile(ctx, st, c, spec["final"]))

    p, P = ctx.call(again)
    q, Q = ctx.call(anew)
    ctx.rec(p, P)
    ctx.check(np.array_equal(p, q), "C26:peak", "peak time range %s%s, but %s in a new use case with the same definitions" % (p[[0, -1]], what, q[[0, -1]]))
    same(ctx, "C26:initialised", P, Q, "generation after re-initialisation%s" % what)


def same(ctx, key, P, Q, what):
    if P.shape != Q.shape:
        ctx.check(False, key, "%s: shape %s instead of %s" % (what, P.shape, Q.shape))
        return
    ctx.evals += 1
    if not np.array_equal(P, Q):
        d = int(np.argmax(np.abs(P - Q).ravel()))
        ctx.violation(key, "%s: %s W at minute %d, a new use case with the same definitions generates %s W" % (what, P.ravel()[d], d, Q.ravel()[d]))
