import math
import os
import sys
import numpy as np
from .. import gen as G, model as M
from .. import world as W

RUNS = {"quick": 560, "thorough": 30000}
RULE = ("Users with super-increasing loads (so the minutes of the highest theoretical load are unambiguous; none, zero-load and one-minute peaks included) x histories (generated days under extreme draws, added users, other use cases, forced "
        "re-initialisation) x ways to give the enlargement x command line; shape and position of the range are checked for every draw, its distribution over 120 initialisations under the real generator with 6-sigma bounds.")
PROBES = {"quick": ["stat", "extreme_draw", "no_users", "zero_load", "one_minute", "enlarge0", "history", "cli", "added", "series", "via_setter", "via_initialize", "via_calc", "narrow", "split"]}
K = 120


def generate(rng, i, tier):
    us = []
    w = rng.choice([1, 3, 50])
    for j in range(rng.choice([0, 1, 1, 2, 2, 3])):
        apps = []
        n = rng.choice([1, 1, 2, 5, 0])
        for k in range(rng.choice([0, 1, 1, 2, 3])):
            ws = G.windows(rng, rng.choice(["one", "disjoint", "touch", "overlap", "tiny", "edges", "three", "unsorted"]))
            num = rng.choice([1, 1, 3])
            p = 0 if rng.random() < 0.08 else w
            a = M.app("a%d%d" % (j, k), num, p, max(1, G.total(ws) // 3), 1, 0.1, ws, rng.choice([0, 0.2]), "no", flat=rng.choice(["yes", "no"]), occ=rng.choice([1, 0.5, 0]), wd=rng.choice([2, 0, 1]), th=rng.choice([0, 0.3]))
            if rng.random() < 0.15 and p:
                a["power"] = {"base": p, "step": 1, "mod": 2}
            if a["flat"] == "yes":
                a["th"] = 0
            apps.append(a)
            w = (w + 1) * num * max(1, n) * 7
        us.append(M.user("u%d" % j, n, 0, apps))
    kind = rng.choice(["stat", "stat", "adv", "adv", "adv", "cli"] if i % 2 else ["adv", "stat"])
    if kind == "cli":
        a, b = sorted(rng.sample(range(5, 1435), 2))
        b = min(b, a + rng.randrange(1, 60))
        us = [M.user("u0", 1, 0, [M.app("a0", 1, 10, (b - a) // 2 + 1, 1, 0.1, [[a, b]], 0)])]
        if rng.random() < 0.5:
            us[0]["apps"].insert(0, M.app("a1", 1, 3, 50, 1, 0, [[0, 1440]], 0))
    if kind != "cli" and rng.random() < 0.15:
        us.append(M.user("minute", 1, 0, [M.app("m", 1, w * 50, 1, 0, 0, [[i % 1440, i % 1440 + 1]], 0, occ=0)]))
    e = G.env(rng, 1.0 if kind == "adv" else 0.0)
    if kind != "adv":
        e["rng"], e["adv"] = "mt", [0.0, 0.0]
    if kind == "cli":
        e["clock"] = max(e["clock"], 4e8)  # zip archives know no time before 1980
    spec = {"kind": kind, "users": us, "enlarge": rng.choice([0.0, 0.0, 0.15, 0.15, 0.5, 1.0]), "via": rng.choice(["ctor", "setter", "initialize", "calc"]), "history": rng.choice([0, 0, 1, 2]),
            "add": rng.choice([0, 0, 1]), "days": rng.choice([1, 2]), "env": e}
    return spec


def valid(spec):
    seen = 0
    for u in spec["users"]:
        if u["n"] < 0:
            return False
        for a in u["apps"]:
            if a["number"] < 1 or not a["windows"] or a["ft"] < 1 or a["ft"] > G.total(a["windows"]) or (a["fc"] != 0 and a["name"] == "m"):
                return False
            x = M.mean_power(a) * a["number"] * u["n"]
            if x and x <= seen * 1.5:
                return False
            seen += x
    if spec["kind"] == "cli" and (not spec["users"] or any(u["n"] < 1 or not u["apps"] for u in spec["users"]) or not peak(spec["users"], True)):
        return False
    return spec["days"] >= 1 and spec["enlarge"] >= 0 and spec["env"]["rng"] == ("adv" if spec["kind"] == "adv" else "mt")


def peak(users, narrow=False):
    """minutes with the highest theoretical load"""
    v = np.zeros(1440)
    for u in users:
        for a in u["apps"]:
            m = np.zeros(1440)
            for x, y in a["windows"]:
                m[x:y] = 1
            v += m * M.mean_power(a) * a["number"] * u["n"]
    p = np.flatnonzero(v >= v.max() * (1 - 1e-9))
    if narrow and p[-1] - p[0] > 60:
        return None
    return p


def one(ctx, r, mu, sigma, pe, stat, what):
    ctx.evals += 1
    r = np.asarray(r)
    ctx.rec(r)
    if r.ndim != 1 or len(r) == 0:
        ctx.fail("C14:empty", "%s: peak time range is empty" % what)
    if len(r) > 1 and (np.diff(r) != 1).any():
        ctx.fail("C14:gaps", "%s: peak time range %s is not a run of consecutive minutes" % (what, r[:10]))
    if pe == 0 and len(r) not in (1, 2, 3):
        ctx.fail("C14:enlarge0", "%s: peak time range has %d minutes although the enlargement is 0" % (what, len(r)))
    c = (float(r[0]) + float(r[-1])) / 2
    lim = (6.5 if stat else 13.0) * sigma + 2
    if abs(c - mu) > lim:
        ctx.fail("C14:centre", "%s: peak time range %d..%d (centre %s) is not around minute %s +- %s in which the theoretical load is highest" % (what, r[0], r[-1], c, mu, round(sigma, 1)))
    return c, len(r)


def run(spec, ctx):
    from ramp import UseCase

    us = [dict(u, apps=list(u["apps"])) for u in spec["users"]]
    late = us.pop() if spec["add"] and len(us) > 1 and spec["kind"] != "cli" else None
    users = ctx.call(M.build_users, us)
    stat = spec["kind"] == "stat"
    if spec["kind"] == "cli":
        return cli(ctx, spec, users)
    pe = spec["enlarge"]
    via = spec["via"]
    ctx.hit("via_" + via)
    ctx.hit("enlarge0", pe == 0)
    kw = {"peak_enlarge": pe} if via == "ctor" else {}
    # another use case must not matter
    other = ctx.call(UseCase, "other", ctx.call(M.build_users, [M.user("o", 9, 0, [M.app("o", 9, 1e9, 3, 1, 0, [[1300, 1310]])])]), date_start="2022-01-01", date_end="2022-01-01")
    uc = ctx.call(UseCase, "uc", users, date_start="2022-01-03", **kw)

    def init(force):
        if via == "initialize":
            ctx.call(uc.initialize, num_days=spec["days"], peak_enlarge=float(pe), force=force)
        else:
            ctx.call(uc.initialize, num_days=spec["days"], force=force)
            if via == "setter":
                uc.peak_enlarge = float(pe)
            elif via == "calc":
                return ctx.call(uc.calc_peak_time_range, float(pe))
        return uc.peak_time_range

    def stats():
        p = peak(us)
        loads = [M.mean_power(a) * u["n"] for u in us for a in u["apps"]]
        ctx.hit("no_users", not us)
        ctx.hit("zero_load", bool(us) and not any(loads))
        ctx.hit("one_minute", len(p) == 1)
        ctx.hit("narrow", 1 < len(p) < 20)
        ctx.hit("split", p[-1] - p[0] + 1 != len(p))
        ctx.hit("series", any(isinstance(a["power"], dict) for u in us for a in u["apps"]))
        return float(np.average(p)), (p[-1] - p[0]) / 3.0

    mu, sigma = stats()
    one(ctx, init(False), mu, sigma, pe, stat, "initialisation")
    for _ in range(spec["history"]):
        ctx.hit("history")
        if any(a["name"] == "m" for u in us for a in u["apps"]):
            break  # a window of a minute is not meant to be used
        ctx.call(uc.generate_daily_load_profiles)
        ctx.hit("sim_days", spec["days"])
    if late is not None:
        ctx.hit("added")
        ctx.call(uc.add_user, ctx.call(M.build_user, late))
        us.append(late)
    mu, sigma = stats()
    if not stat:
        for _ in range(6):
            one(ctx, init(True), mu, sigma, pe, stat, "forced initialisation")
        return
    ctx.hit("stat")
    cs, ls = [], []
    for _ in range(K):
        c, n = one(ctx, init(True), mu, sigma, pe, stat, "forced initialisation")
        cs.append(c)
        ls.append(n)
    m = sum(cs) / K
    if abs(m - mu) > 6 * sigma / math.sqrt(K) + 1.1:
        ctx.fail("C14:centre-mean", "%d initialisations: the centre of the peak time range is %.1f on average, the theoretical load is highest around %.1f (+- %.1f)" % (K, m, mu, sigma))
    if sigma > 5:
        sd = math.sqrt(sum((c - m) ** 2 for c in cs) / K)
        if not 0.3 * sigma < sd < 3 * sigma:
            ctx.fail("C14:centre-spread", "%d initialisations: the centre of the peak time range has a standard deviation of %.2f, expected about %.1f" % (K, sd, sigma))
    if pe * mu > 20:
        h = sum(ls) / K / 2.0
        e = pe * math.sqrt(2 / math.pi) * math.hypot(mu, sigma)
        e0 = pe * math.sqrt(2 / math.pi) * mu
        if not 0.5 * e0 < h < 1.6 * e + 1:
            ctx.fail("C14:enlarge", "%d initialisations: the peak time range is enlarged by %.1f minutes on average, expected about %.1f (enlargement %s of minute %s)" % (K, h, e0, pe, mu))
        if len(set(ls)) < 5:
            ctx.fail("C14:enlarge-random", "the enlargement of the peak time range is not random: lengths %s" % sorted(set(ls)))


def cli(ctx, spec, users):
    from ramp import UseCase
    import ramp.cli as C

    ctx.hit("cli")
    f = os.path.join(ctx.work, "in.xlsx")
    uc = ctx.call(UseCase, "uc", users)
    ctx.call(uc.save, f[:-5])
    seen = []
    real = UseCase.generate_daily_load_profiles

    def spy(self, *a, **k):
        seen.append(np.array(self.peak_time_range))
        return real(self, *a, **k)

    UseCase.generate_daily_load_profiles = spy
    argv = sys.argv
    p = peak(spec["users"])
    mu, sigma = float(np.average(p)), (p[-1] - p[0]) / 3.0
    try:
        sys.argv = ["ramp", "-i", f, "-o", os.path.join(ctx.work, "out.csv"), "-n", "1"]
        ctx.call(C.main)
        sys.argv = ["ramp", "-i", f, "-o", os.path.join(ctx.work, "out.csv"), "--start-date", "2022-12-31"]
        ctx.call(C.main)
    finally:
        sys.argv = argv
        UseCase.generate_daily_load_profiles = real
    if not seen:
        raise RuntimeError("the command did not generate profiles through UseCase.generate_daily_load_profiles")
    for r in seen:
        one(ctx, r, mu, sigma, 0.15, True, "command line")
