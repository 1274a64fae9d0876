from .. import gen as G, model as M, paths
from . import _appday as A

RUNS = {"quick": 1300, "thorough": 60000}
RULE = "A flat appliance (also with daily power series, several individuals, day types), or a non-flat one with a series, x path incl. parallel schedules x RNG mode x optional interrupted earlier generation; compared with the closed form of every minute."
PROBES = {"quick": ["extreme_draw", "interrupted", "series", "path_par", "path_cases", "moved_edge", "ineligible", "long"]}


def generate(rng, i, tier):
    if rng.random() < 0.75:
        a = G.flat(rng, "a")
        if rng.random() < 0.5:
            a["power"] = G.series(rng)
        a["wd"] = rng.choice([2, 2, 0, 1])
        n = 1
        if rng.random() < 0.3:
            a["rvw"] = 0
            n = rng.choice([2, 3, 5])
        D = rng.choice([1, 2, 7, 9, 30])
    else:
        a = G.plain(rng, "a")
        a["power"] = G.series(rng)
        a["th"] = 0
        n = 1
        D = rng.choice([2, 3, 9])
    if rng.random() < 0.03:
        # beyond one year
        D = rng.choice([367, 370, 500, 740])
        if isinstance(a["power"], dict):
            a["power"]["n"] = D + rng.choice([0, 1, 5])
            a["power"]["mod"] = rng.choice([31, 366, 1000])
    if rng.random() < 0.1:
        a["ft"] = 0
    spec = A.base(rng, a, D=D)
    if D > 366:
        spec["path"] = rng.choice(["single", "agg", "seq", "flat", "parflat"])
        if spec["path"] == "parflat":
            spec["env"].update(G.pool_env(rng))
        spec["again"] = 0
    spec["users"][0]["n"] = n
    return spec


def valid(spec):
    a = spec["users"][0]["apps"][0] if spec["users"] and spec["users"][0]["apps"] else None
    if a is None or spec["users"][0]["n"] < 1 or spec["days"] < 1:
        return False
    if isinstance(a["power"], dict) and a["power"].get("n", 366) < spec["days"]:
        return False
    if spec["users"][0]["n"] > 1 and (a["rvw"] or a["flat"] != "yes"):
        return False
    return a["ft"] == 0 or (A.valid_app(a) and a["th"] == 0)


def run(spec, ctx):
    u = spec["users"][0]
    a = u["apps"][0]
    n = 1 if spec["path"] == "single" else u["n"]
    ww = M.wide_windows(a)
    core = []
    for w in a["windows"]:
        rv = M.rv_of(a, w)
        core.append((w[0] + rv, w[1] - rv))
    ctx.hit("long", spec["days"] > 366 and isinstance(a["power"], dict))
    ctx.hit("series", isinstance(a["power"], dict))
    for d, P in A.days(spec, ctx):
        bad = M.check_shape(P)
        if bad:
            ctx.violations([("C06:shape", m) for _, m in bad])
            return
        P = [float(x) for x in P]
        lev = a["number"] * M.power_on(a, d) * n
        if not M.eligible(a, M.day_type(spec["start"], d)):
            ctx.hit("ineligible")
            ctx.check(not any(P), "C06:ineligible", "appliance runs on day %d although it must not" % d)
            continue
        tol = 1e-9 * max(1.0, lev)
        if a["flat"] == "yes":
            on = [False] * 1440
            must = [False] * 1440
            for x, y in ww:
                for m in range(x, y):
                    on[m] = True
            for x, y in core:
                for m in range(max(0, x), max(0, y)):
                    must[m] = True
            for m in range(1440):
                if abs(P[m] - lev) > tol and P[m] != 0:
                    ctx.fail("C06:level", "flat appliance day %d minute %d: %s W instead of %s x %s x %s users" % (d, m, P[m], a["number"], M.power_on(a, d), n))
                if P[m] == 0 and must[m]:
                    ctx.fail("C06:gap", "flat appliance day %d is off in minute %d, inside its windows %s (variability %s)" % (d, m, a["windows"], a["rvw"]))
                if P[m] != 0 and not on[m]:
                    ctx.fail("C06:outside", "flat appliance day %d is on in minute %d, outside its windows %s (variability %s)" % (d, m, a["windows"], a["rvw"]))
            rr = M.runs([x > 0 for x in P])
            if len(rr) > len(a["windows"]):
                ctx.fail("C06:pieces", "flat appliance day %d is on in %d pieces, it has %d windows" % (d, len(rr), len(a["windows"])))
            ctx.hit("moved_edge", a["rvw"] > 0 and sum(y - x for x, y in rr) != G.total(a["windows"]))
        else:
            p = M.power_on(a, d)
            ks = [a["number"]] if a["fixed"] == "yes" else range(1, a["number"] + 1)
            for m, x in enumerate(P):
                if x > 10 * M.MARK and not any(abs(x - k * p) < 1e-9 * k * p for k in ks):
                    ctx.fail("C06:series", "appliance with daily series day %d minute %d: %s W, the value of the day is %s W (%s units)" % (d, m, x, p, a["number"]))
