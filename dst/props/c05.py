from .. import gen as G, model as M, paths
from . import _appday as A

RUNS = {"quick": 550, "thorough": 40000}
RULE = "Use cases whose appliances have powers in separate base-8 digits, so that every minute reveals how many individuals run which appliance, x calendar x day type x occasional use x preferences x path (sequential and parallel under simulated schedules). Statistical parts only under the real generator, with 6-sigma bounds."
PROBES = {"quick": ["extreme_draw", "prefs", "par_prefs", "stat_occ", "stat_pref", "weekend", "workday", "path_cases", "interrupted"]}
B = 8


def generate(rng, i, tier):
    stat = rng.random() < 0.2
    us = []
    k = 0
    for j in range(rng.choice([1, 1, 2])):
        m = rng.choice([0, 0, 1, 2, 3])
        n = rng.choice([1, 1, 2, 3, 4])
        apps = []
        for x in range(rng.choice([1, 2, 3, 4, 5])):
            if k >= 10:
                break
            nonflat = (not stat) and rng.random() < 0.35
            a = M.app("a%d" % k, 1, B ** k, 1440 if nonflat else rng.choice([1, 700, 1440]), 1, 0, [[0, 1440]], 0, "yes" if rng.random() < 0.5 else "no",
                      occ=rng.choice([0, 1, 1, 1, 0.5, 0.1, 0.9]), flat="no" if nonflat else "yes", wd=rng.choice([2, 2, 2, 0, 1]), pref=rng.choice([0] + list(range(1, m + 1)) * 2))
            apps.append(a)
            k += 1
        us.append(M.user("u%d" % j, n, m, apps))
    D = rng.choice([90, 120]) if stat else rng.choice([1, 2, 3, 8])
    spec = {"users": us, "days": D, "path": paths.pick_path(rng, D, k), "start": G.date(rng)}
    if stat and spec["path"].startswith("par"):
        spec["days"] = 40
    spec["env"] = G.env(rng, 0.0 if stat else 0.6, par=spec["path"].startswith("par"))
    if not stat and rng.random() < 0.2:
        spec["interrupt"] = paths.interrupt(rng)
    if rng.random() < 0.3:
        spec["rseed"] = rng.randrange(1000)
    return spec


def valid(spec):
    if not spec["users"] or spec["days"] < 1:
        return False
    seen = set()
    for u in spec["users"]:
        if not 1 <= u["n"] <= 7 or not u["apps"]:
            return False
        for a in u["apps"]:
            p = a["power"]
            if p < 1 or p in seen or not _pow(p) or a["number"] != 1 or a["windows"] != [[0, 1440]] or a["ft"] < 1 or a["pref"] > u["pref"] or a["v"] or a["rvw"] or a["th"] or a["fc"] != 1:
                return False
            if a["flat"] == "no" and a["ft"] != 1440:
                return False
            seen.add(p)
    return True


def _pow(p):
    while p % B == 0 and p > 1:
        p //= B
    return p == 1


def counts(P, apps):
    """number of individuals which ran each appliance: largest digit over the minutes; for flat ones also the smallest"""
    hi = [0] * len(apps)
    lo = [99] * len(apps)
    last = None
    for x in P:
        v = int(x + 0.5)
        if v == last:
            continue
        last = v
        for i, a in enumerate(apps):
            c = (v // int(a["power"])) % B
            if c > hi[i]:
                hi[i] = c
            if c < lo[i]:
                lo[i] = c
    return hi, lo


def run(spec, ctx):
    us = spec["users"]
    apps = [a for u in us for a in u["apps"]]
    single = spec["path"] == "single"
    uc = paths.make_usecase(ctx, spec)
    paths.interrupted(ctx, spec, uc)
    mt = spec["env"]["rng"] == "mt"
    occ = {a["name"]: [0, 0] for a in apps}
    prefs = {u["name"]: {} for u in us}
    for d, P in paths.profiles(ctx, spec, uc):
        ctx.evals += 1
        dt = M.day_type(spec["start"], d)
        ctx.hit("weekend" if dt else "workday")
        hi, lo = counts(P, apps)
        got = dict(zip([a["name"] for a in apps], hi))
        for a, l in zip(apps, lo):
            if a["flat"] == "yes" and l != got[a["name"]]:
                ctx.fail("C05:flat", "flat appliance %s is not on all day long on day %d: %d..%d of its users" % (a["name"], d, l, got[a["name"]]))
        for u in us:
            n = 1 if single else u["n"]
            per = {}
            for a in u["apps"]:
                c = got[a["name"]]
                tag = "appliance %s (user %s x%d, wd_we_type %s, occasional_use %s, pref_index %s of %s) day %d (%s)" % (
                    a["name"], u["name"], n, a["wd"], a["occ"], a["pref"], u["pref"], d, "weekend" if dt else "weekday")
                if c > n:
                    ctx.fail("C05:too-many", "%s is run by %d users" % (tag, c))
                if a["wd"] not in (2, dt):
                    if c:
                        ctx.fail("C05:daytype", "%s ran" % tag)
                    continue
                if a["occ"] == 0:
                    if c:
                        ctx.fail("C05:occ0", "%s ran" % tag)
                    continue
                if a["pref"] == 0:
                    if a["occ"] == 1 and c != n:
                        ctx.fail("C05:not-run", "%s was run by %d users only" % (tag, c))
                    occ[a["name"]][0] += c
                    occ[a["name"]][1] += n
                else:
                    ctx.hit("prefs")
                    ctx.hit("par_prefs", spec["path"].startswith("par"))
                    if a["occ"] == 1:
                        if a["pref"] in per and per[a["pref"]] != c:
                            ctx.fail("C05:pref-differs", "%s was run by %d users, another appliance of the same preference by %d" % (tag, c, per[a["pref"]]))
                        per[a["pref"]] = c
            for a in u["apps"]:
                if a["pref"] and a["occ"] not in (0, 1) and a["wd"] in (2, dt) and a["pref"] in per and got[a["name"]] > per[a["pref"]]:
                    ctx.fail("C05:pref-other", "appliance %s ran for %d users, only %d follow preference %d on day %d" % (a["name"], got[a["name"]], per[a["pref"]], a["pref"], d))
            s = sum(per.values())
            if s > n or (len(per) == u["pref"] and u["pref"] and s != n):
                ctx.fail("C05:pref-count", "day %d: %d user(s) %s follow %d preferences together: %s" % (d, n, u["name"], s, per))
            for j, c in per.items():
                x = prefs[u["name"]].setdefault(j, [0, 0])
                x[0] += c
                x[1] += n
    if mt:
        for a in apps:
            c, n = occ[a["name"]]
            if 0 < a["occ"] < 1 and n >= 40:
                ctx.hit("stat_occ")
                sd = (n * a["occ"] * (1 - a["occ"])) ** 0.5
                if abs(c - n * a["occ"]) > 6.5 * sd + 1:
                    ctx.fail("C05:occ-fraction", "appliance %s with occasional_use %s ran on %d of %d user-days" % (a["name"], a["occ"], c, n))
        for u in us:
            for j, (c, n) in prefs[u["name"]].items():
                if n >= 80:
                    ctx.hit("stat_pref")
                    if c == 0:
                        ctx.fail("C05:pref-never", "preference %d of %d never followed on %d user-days" % (j, u["pref"], n))
                    if c == n and u["pref"] > 1:
                        ctx.fail("C05:pref-always", "preference %d of %d followed on all %d user-days" % (j, u["pref"], n))
