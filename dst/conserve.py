"""Use cases without net randomness, and their reference profile / energy (C07, C08, C09)."""
from . import gen as G, model as M
from .world import RealRandom  # noqa: F401


def generate(rng, small=False):
    us = []
    k = 0
    for j in range(rng.choice([0, 1, 1, 2, 2, 3] if not small else [1, 1, 2])):
        m = rng.choice([0, 0, 0, 2, 3])
        n = rng.choice([0, 1, 1, 2, 3, 5] if not small else [1, 2, 3])
        apps = []
        for x in range(rng.choice([0, 1, 2, 3] if not small else [1, 2])):
            kind = rng.choice(["flat", "flat", "series", "fixed"])
            ws = G.windows(rng, rng.choice(["one", "disjoint", "day", "edges", "three"] if kind == "fixed" else None or ["one", "disjoint", "touch", "overlap", "day", "edges", "three", "unsorted"]))
            t = G.total(ws)
            a = M.app("a%d" % k, rng.choice([1, 1, 2, 3]), 1 << min(k * 3, 30), rng.randrange(1, t + 1), 1, 0, ws, 0, "yes", flat="yes", wd=rng.choice([2, 2, 2, 0, 1]), occ=rng.choice([1, 1, 1, 1, 0]))
            if kind == "series":
                a["power"] = {"base": 1, "step": 1 << min(k * 3, 20), "mod": rng.choice([5, 9, 31])}
            if kind == "fixed":
                a["flat"] = "no"
            k += 1
            apps.append(a)
        if m:
            # one equal appliance per preference: whatever is preferred, the load is the same
            ws = G.windows(rng, "disjoint")
            for p in range(1, m + 1):
                apps.append(M.app("p%d_%d" % (j, p), 2, 1 << min(k * 3, 30), 10, 1, 0, ws, 0, "yes", flat="yes", pref=p))
            k += 1
        us.append(M.user("u%d" % j, n, m, apps))
    return us


def valid(users):
    for u in users:
        if u["n"] < 0:
            return False
        if u["pref"]:
            prefd = [a for a in u["apps"] if a["pref"]]
            if sorted(a["pref"] for a in prefd) != list(range(1, u["pref"] + 1)):
                return False
            z = [dict(a, name="", pref=0) for a in prefd]
            if any(x != z[0] for x in z):
                return False
        for a in u["apps"]:
            if a["pref"] > u["pref"] or a["number"] < 1 or not a["windows"] or a["ft"] < 1 or a["ft"] > G.total(a["windows"]) or a["v"] or a["rvw"] or a["th"] or a["fc"] != 1 or a["fixed"] != "yes" or a["occ"] not in (0, 1) or M.may_not_fit(a):
                return False
            if not isinstance(a["power"], dict) and a["power"] < 1:
                return False
            if a["flat"] != "yes" and M.windows_may_overlap(a):
                return False
    return True


def reference(users, day, dt, single=False):
    """(exact flat profile, upper profile, energy). single: one individual of each category"""
    lo = [0.0] * 1440
    hi = [0.0] * 1440
    energy = 0.0
    for u in users:
        n = 1 if single else u["n"]
        for a in u["apps"]:
            if not M.eligible(a, dt) or n == 0:
                continue
            if a["pref"] > 1:
                continue
            lev = n * a["number"] * M.power_on(a, day)
            mask = [False] * 1440
            for x, y in a["windows"]:
                for m in range(x, y):
                    mask[m] = True
            if a["flat"] == "yes":
                for m in range(1440):
                    if mask[m]:
                        lo[m] += lev
                        hi[m] += lev
                        energy += lev
            else:
                t = G.total(a["windows"])
                T = max(1, min(a["ft"], int(0.99 * t)))
                energy += T * lev + (t - T) * M.MARK * n
                for m in range(1440):
                    if mask[m]:
                        hi[m] += lev
    return lo, hi, energy


def check(ctx, users, day, dt, P, single=False):
    p = ctx.prop
    bad = M.check_shape(P)
    if bad:
        ctx.fail(p + ":shape", bad[0][1])
    lo, hi, energy = reference(users, day, dt, single)
    P = [float(x) for x in P]
    n = sum(u["n"] * len(u["apps"]) for u in users) + 1
    for m in range(1440):
        if P[m] < lo[m] - 1e-6 or P[m] > hi[m] + n * M.MARK + 1e-6:
            ctx.fail(p + ":profile", "day %d minute %d: load %s, expected %s..%s" % (day, m, P[m], lo[m], hi[m]))
    e = 0.0
    for x in P:
        e += x
    ctx.evals += 1
    if abs(e - energy) > 1e-6 + 1e-9 * energy:
        ctx.fail(p + ":energy", "day %d: energy %s Wmin, expected %s" % (day, e, energy))
