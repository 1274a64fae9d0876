import math
import numpy as np
from .. import gen as G, model as M, paths, stats
from .. import world as W

RUNS = {"quick": 99, "thorough": 4000}
RULE = ("Use cases built so that one random quantity can be read off every day's profile (window edges, daily time of use, instant and length of a single switch-on, power factor, durations and order of the parts of a duty cycle, preference, occasional use), "
        "generated over hundreds of days under the real generator by every path, sequentially and in simulated workers, with and without seed, also as the first day of many use cases with consecutive seeds; each value and each cumulative share is compared with the "
        "declared distribution by exact binomial tail bounds of level 1e-11.")
KINDS = ["edges", "time", "start", "pair", "length", "power", "cycle", "cyclepower", "swap", "pref", "occ"]
PROBES = {"quick": KINDS + ["path_par", "path_seq", "path_single", "path_agg", "path_cases", "seeds", "clipped", "joint", "interrupted"]}
ASSUMPTIONS = ("deviations which several hundred draws cannot tell from the declared distribution are not seen",)
KEEP = ("users",)


def generate(rng, i, tier):
    kind = KINDS[i % len(KINDS)]
    r = i // len(KINDS)  # strata within the kind
    path = rng.choice(["single", "agg", "seq", "flat", "cases", "par", "par", "parflat", "seeds"])
    spec = {"kind": kind, "path": path, "start": G.date(rng), "n": 1, "enlarge": 0.15}
    spec["days"] = {"par": 260, "parflat": 260, "seeds": 1, "cases": 200}.get(path, 360)
    spec["reps"] = 2 if path != "seeds" else 300
    app = M.app("a", 1, 100.0, 60, 1, 0, [[0, 1440]], 0, "yes")
    if kind == "edges":
        nw = 1 + r % 3
        rv = rng.choice([0.011, 0.021, 0.03, 0.05])
        ln = rng.choice([100, 150])
        ws = [[60 + 450 * k, 60 + 450 * k + ln + 20 * k] for k in range(nw)]
        if rng.random() < 0.3:
            ws[0] = [0, ln]
            if rng.random() < 0.5:
                ws[-1] = [1440 - ln, 1440]
        if rng.random() < 0.3:
            rng.shuffle(ws)
        app.update(windows=ws, rvw=rv, flat=rng.choice(["yes", "no"]), ft=10, number=rng.choice([1, 3]))
    elif kind == "time":
        ft = rng.choice([100, 300, 500])
        app.update(ft=ft, v=rng.choice([0.3, 0.5, 1.0] if ft > 100 else [0.8, 1.0]), fc=1, windows=rng.choice([[[0, 1440]], [[0, 700], [720, 1440]]]), number=rng.choice([1, 4]))
    elif kind == "start":
        # one switch-on of fc minutes a day: uniform over all instants which leave room for it
        k = rng.choice([20, 110, 210])
        ws = []
        x = rng.randrange(0, 60)
        for w in range((1, 2, 3, 1)[r % 4]):
            g = rng.choice([1 + k // 80, 3, 4, 7]) if w == 0 else rng.choice([0, 1, 2, 5])
            ws.append([x, x + k + g])
            x += k + g + rng.randrange(2, 30)
        if rng.random() < 0.3:
            rng.shuffle(ws)
        app.update(ft=k, fc=k, windows=ws, number=rng.choice([1, 2]))
        while M.may_not_fit(app):
            app["windows"][0][1] += 1
            app["windows"] = app["windows"][:1]
    elif kind == "pair":
        # two switch-ons of one minute: every pair of minutes is equally likely
        ws = rng.choice([[[0, 4]], [[600, 605]], [[1436, 1440]], [[10, 13], [20, 22]], [[30, 33], [5, 7], [100, 101]], [[50, 53], [53, 56]], [[700, 704], [702, 706]]])
        app.update(ft=2, fc=1, windows=[list(w) for w in ws], number=rng.choice([1, 2]))
    elif kind == "length":
        # the first switch-on lasts between fc and the room left; more than half of the window: no second one
        k = rng.choice([30, 61])
        app.update(ft=2 * k - 2, fc=k, windows=[[700, 700 + 2 * k - 1]])
        app["ft"] = int(0.99 * (2 * k - 1))
    elif kind == "power":
        app.update(ft=20, fc=20, windows=[[300, 340]], th=rng.choice([0.1, 0.5, 1.0]), number=rng.choice([1, 3]))
    elif kind in ("cycle", "cyclepower", "swap"):
        n, act = [(3, 2), (1, 0), (2, 0), (2, 1), (3, 0), (3, 1)][r % 6]
        if kind == "swap":
            n, act = 3, r % 3
        cs = []
        ws = [[20 + 450 * c, 320 + 450 * c] for c in range(n)]
        for c in range(n):
            t1, t2 = rng.choice([(4, 7), (10, 5), (3, 12), (20, 9)])
            rc = rng.choice([0.25, 0.5]) if kind == "cycle" else 0
            cs.append(M.cyc(100.0 + c, t1, 10.0 + c, t2, rc, [list(ws[c])]))
        # only one window of use, within the window of the chosen cycle
        app.update(ft=70, fc=70, windows=[[ws[act][0] + 5, ws[act][0] + 80]], cycles=cs, cont=1, th=rng.choice([0.1, 0.4]) if kind == "cyclepower" else 0, number=rng.choice([1, 2]))
        spec["act"] = act
    elif kind == "pref":
        spec["pref"] = rng.choice([2, 3])
    elif kind == "occ":
        app.update(flat="yes", ft=1440, occ=rng.choice([0.05, 0.3, 0.5, 0.9]))
        spec["n"] = rng.choice([1, 1, 3]) if path not in ("single", "seeds") else 1
    if kind == "pair":
        spec["reps"] *= 3
    spec["app"] = app
    spec["users"] = []
    spec["env"] = {"rng": "mt", "adv": [0.0, 0.0], "clock": 1640995200.0, "tz": "UTC", "budget": 20_000_000}
    if path.startswith("par"):
        spec["env"].update(G.pool_env(rng, maxcpu=6))
    if path == "seeds":
        spec["seeds"] = rng.choice([[0, 1], [1000, 1], [7, 12], [0, 1 << 20]])
    elif rng.random() < 0.5:
        spec["rseed"] = rng.randrange(1 << 20)
    if rng.random() < 0.2 and path != "seeds":
        spec["interrupt"] = paths.interrupt(rng)
    if rng.random() < 0.25 and kind != "pref":
        # another appliance of the same user, out of the way
        spec["other"] = 1
    return spec


def valid(spec):
    return False  # the quantity read off the profile depends on the whole configuration: not minimised


def shrink(spec):
    return ()


def users(spec):
    a = dict(spec["app"])
    if spec["kind"] == "pref":
        m = spec["pref"]
        apps = [M.app("p%d" % p, 1, 8.0 ** (p - 1), 1440, 1, 0, [[0, 1440]], 0, "yes", flat="yes", pref=p) for p in range(1, m + 1)]
        return [M.user("u", 1, m, apps)]
    apps = [a]
    if spec.get("other"):
        apps.insert(0, M.app("o", 2, 1e-5, 30, 3, 0.3, [[200, 1240]], 0.2, "no", flat="yes"))
    return [M.user("u", spec["n"], 0, apps)]


def collect(spec, ctx):
    """rows of load of single user-days"""
    rows = []
    us = users(spec)
    if spec["path"] == "seeds":
        ctx.hit("seeds")
        s0, ds = spec["seeds"]
        us = ctx.call(M.build_users, us)
        for k in range(spec["reps"]):
            uc = paths.make_usecase(ctx, dict(spec, rseed=s0 + ds * k, path="seq"), us)
            P = np.asarray(ctx.call(uc.generate_daily_load_profiles))
            rows.append(P)
            ctx.rec(P)
        ctx.hit("sim_days", spec["reps"])
        return rows
    uc = paths.make_usecase(ctx, spec, ctx.call(M.build_users, us))
    paths.interrupted(ctx, spec, uc)
    for k in range(spec["reps"]):
        ctx.kept.clear()
        rows += [P for _, P in paths.profiles(ctx, spec, uc)]
    return rows


def run(spec, ctx):
    a = spec["app"]
    kind = spec["kind"]
    ctx.hit(kind)
    rows = collect(spec, ctx)
    globals()["k_" + kind](spec, ctx, a, rows)


def pmf(ctx, spec, draws, p, what):
    c = {}
    for x in draws:
        c[x] = c.get(x, 0) + 1
    ctx.evals += 1
    x = stats.pmf_problem(c, p)
    if x:
        ctx.fail("C24:" + spec["kind"], "%s: %s (%s)" % (what, x, spec["path"]))


def cdf(ctx, spec, draws, f, points, what, slack=0.0):
    ctx.evals += 1
    x = stats.cdf_problem(draws, f, points, slack)
    if x:
        ctx.fail("C24:" + spec["kind"], "%s: %s (%s)" % (what, x, spec["path"]))


def near(seg_on, w, rv):
    """the run of minutes which belongs to window w"""
    for x, y in seg_on:
        if w[0] - rv <= x <= w[0] + rv or w[1] - rv <= y <= w[1] + rv:
            return x, y
    return None


def k_edges(spec, ctx, a, rows):
    shifts = [[] for _ in a["windows"]]
    for P in rows:
        rr = M.runs([x > 0.00035 for x in P.tolist()])
        for i, w in enumerate(a["windows"]):
            rv = M.rv_of(a, w)
            r = near(rr, w, rv)
            if r is None:
                ctx.fail("C24:edges", "window %s is not used on a day although it can not vanish" % w)
            shifts[i].append((r[0] - w[0], r[1] - w[1]))
    for i, w in enumerate(a["windows"]):
        rv = M.rv_of(a, w)
        p = {}
        q = {}
        for s in range(-rv, rv + 1):
            x = max(0, w[0] + s) - w[0]
            p[x] = p.get(x, 0) + 1 / (2 * rv + 1)
            y = min(1440, w[1] + s) - w[1]
            q[y] = q.get(y, 0) + 1 / (2 * rv + 1)
        ctx.hit("clipped", len(p) < 2 * rv + 1 or len(q) < 2 * rv + 1)
        pmf(ctx, spec, [s[0] for s in shifts[i]], p, "shift of the start of window %d %s (variability %d min)" % (i + 1, w, rv))
        pmf(ctx, spec, [s[1] for s in shifts[i]], q, "shift of the end of window %d %s (variability %d min)" % (i + 1, w, rv))
        if rv <= 3:
            ctx.hit("joint")
            pmf(ctx, spec, shifts[i], {(x, y): p[x] * q[y] for x in p for y in q}, "shifts of both ends of window %d %s" % (i + 1, w))
        if i and rv <= 3 and M.rv_of(a, a["windows"][0]) <= 3:
            # the windows are shifted separately
            r0 = M.rv_of(a, a["windows"][0])
            w0 = a["windows"][0]
            p0 = {}
            for s in range(-r0, r0 + 1):
                x = max(0, w0[0] + s) - w0[0]
                p0[x] = p0.get(x, 0) + 1 / (2 * r0 + 1)
            pmf(ctx, spec, [(s[0], t[0]) for s, t in zip(shifts[0], shifts[i])], {(x, y): p0[x] * p[y] for x in p0 for y in p}, "shifts of the starts of windows 1 and %d" % (i + 1))


def k_time(spec, ctx, a, rows):
    T = [int((P > 50).sum()) for P in rows]
    w = a["ft"] * a["v"]

    def F(t):
        # between the functioning time and a uniform point of its variability range
        z = (t - a["ft"]) / w
        if z <= -1:
            return 0.0
        if z >= 1:
            return 1.0
        if z == 0:
            return 0.5
        g = 0.5 * abs(z) * (1 - math.log(abs(z)))
        return 0.5 + g if z > 0 else 0.5 - g

    cdf(ctx, spec, T, F, [a["ft"] + z * w for z in (-0.75, -0.5, -0.25, -0.1, 0.1, 0.25, 0.5, 0.75)], "daily time of use, functioning time %d +- %d" % (a["ft"], w), 2.0)


def k_start(spec, ctx, a, rows):
    k = a["fc"]
    pos = [s for w in a["windows"] for s in range(w[0], w[1] - k + 1)]
    out = []
    for P in rows:
        rr = M.runs([x > 50 for x in P.tolist()])
        if len(rr) != 1 or rr[0][1] - rr[0][0] != k:
            ctx.fail("C24:start", "%s instead of a single switch-on of %d minutes" % (rr, k))
        out.append(rr[0][0])
    pmf(ctx, spec, out, {s: 1 / len(pos) for s in pos}, "start of a switch-on of %d minutes in the windows %s" % (k, a["windows"]))


def k_pair(spec, ctx, a, rows):
    ms = sorted({m for x, y in a["windows"] for m in range(x, y)})
    out = []
    for P in rows:
        on = [i for i, v in enumerate(P.tolist()) if v > 50]
        if len(on) != 2:
            ctx.fail("C24:pair", "%d minutes of use instead of 2" % len(on))
        out.append(tuple(on))
    n = len(ms) * (len(ms) - 1) / 2
    pmf(ctx, spec, out, {(x, y): 1 / n for x in ms for y in ms if x < y}, "minutes of two switch-ons in the windows %s" % a["windows"])


def k_length(spec, ctx, a, rows):
    # start uniform over the window, length = floor of a uniform draw between fc and the room left (limited by the daily time)
    k = a["fc"]
    x, y = a["windows"][0]
    T = min(a["ft"], int(0.99 * (y - x)))
    n = y - x - k + 1
    joint = {}
    for s in range(n):
        m = min(T, y - (x + s))
        if m == k:
            joint[(s, k)] = 1 / n
        else:
            for l in range(k, m):
                joint[(s, l)] = 1 / n / (m - k)
    ps, pl = {}, {}
    for (s, l), p in joint.items():
        ps[s] = ps.get(s, 0) + p
        pl[l] = pl.get(l, 0) + p
    S, L = [], []
    for P in rows:
        rr = M.runs([v > 50 for v in P.tolist()])
        if len(rr) != 1:
            ctx.fail("C24:length", "%s instead of a single switch-on" % rr)
        S.append(rr[0][0] - x)
        L.append(rr[0][1] - rr[0][0])
    pmf(ctx, spec, S, ps, "start of the switch-on in the window %s, minimum %d min" % ([x, y], k))
    pmf(ctx, spec, L, pl, "length of the switch-on in the window %s, minimum %d min" % ([x, y], k))


def k_power(spec, ctx, a, rows):
    n = a["number"] * a["power"]
    f = [float(P.max()) / n for P in rows]
    th = a["th"]
    cdf(ctx, spec, f, lambda t: min(1.0, max(0.0, (t - 1 + th) / (2 * th))), [1 + th * z for z in (-0.95, -0.8, -0.5, -0.25, 0, 0.25, 0.5, 0.8, 0.95)], "power factor, thermal variability %s" % th, 1e-6)


def dur(t, r):
    """distribution of the integer part of a uniform draw within t (1 +- r)"""
    lo, hi = t * (1 - r), t * (1 + r)
    out = {}
    for d in range(math.floor(lo), math.floor(hi) + 1):
        p = (min(d + 1, hi) - max(d, lo)) / (hi - lo) if hi > lo else 1.0
        if p > 1e-12:
            out[d] = p
    return out


def parts(ctx, spec, P):
    on = [i for i, v in enumerate(P.tolist()) if v > 1]
    v = P.tolist()[on[0]:on[-1] + 1] if on else []
    out = []
    for x in v:
        if out and abs(out[-1][0] - x) < 1e-3:
            out[-1][1] += 1
        else:
            out.append([x, 1])
    if len(out) < 2 or out[0][0] == out[1][0]:
        ctx.fail("C24:" + spec["kind"], "the switch-on does not show the two parts of the cycle: %s" % out[:4])
    return out


def k_cycle(spec, ctx, a, rows):
    c = a["cycles"][spec["act"]]
    d1, d2 = [], []
    for P in rows:
        pp = parts(ctx, spec, P)
        if len(pp) < 3 or pp[0][1] + pp[1][1] > 62:
            ctx.fail("C24:cycle", "the switch-on of %d minutes does not show the cycle %s: %s" % (a["fc"], c, pp[:4]))
        swapped = pp[0][0] < pp[1][0]
        x = [pp[0][1], pp[1][1]]
        if swapped:
            x.reverse()
        d1.append(x[0])
        d2.append(x[1])
    pmf(ctx, spec, d1, dur(c["t1"], c["r"]), "duration of the first part of cycle %s" % c)
    pmf(ctx, spec, d2, dur(c["t2"], c["r"]), "duration of the second part of cycle %s" % c)
    # the parts are drawn separately
    p1 = sum(p for d, p in dur(c["t1"], c["r"]).items() if d >= c["t1"])
    p2 = sum(p for d, p in dur(c["t2"], c["r"]).items() if d >= c["t2"])
    q = {(x, y): (p1 if x else 1 - p1) * (p2 if y else 1 - p2) for x in (0, 1) for y in (0, 1)}
    pmf(ctx, spec, [(int(x >= c["t1"]), int(y >= c["t2"])) for x, y in zip(d1, d2)], q, "parts of cycle %s which are not shorter than declared (drawn separately)" % c)


def k_cyclepower(spec, ctx, a, rows):
    c = a["cycles"][spec["act"]]
    th = a["th"]
    f1, f2 = [], []
    for P in rows:
        pp = parts(ctx, spec, P)
        hi, lo = max(pp[0][0], pp[1][0]), min(pp[0][0], pp[1][0])
        f1.append(hi / c["p1"] / a["number"])
        f2.append(lo / c["p2"] / a["number"])
    F = lambda t: min(1.0, max(0.0, (t - 1 + th) / (2 * th)))
    pts = [1 + th * z for z in (-0.95, -0.8, -0.5, -0.25, 0, 0.25, 0.5, 0.8, 0.95)]
    cdf(ctx, spec, f1, F, pts, "power factor of the first part of the cycle, thermal variability %s" % th, 1e-6)
    cdf(ctx, spec, f2, F, pts, "power factor of the second part of the cycle, thermal variability %s" % th, 1e-6)
    q = {(x, y): 0.25 for x in (0, 1) for y in (0, 1)}
    pmf(ctx, spec, [(int(x > 1), int(y > 1)) for x, y in zip(f1, f2)], q, "power factors of both parts above 1 (drawn separately)")


def k_swap(spec, ctx, a, rows):
    s = []
    for P in rows:
        pp = parts(ctx, spec, P)
        s.append(int(pp[0][0] < pp[1][0]))
    pmf(ctx, spec, s, {0: 0.5, 1: 0.5}, "swapped parts of cycle %d of three" % (spec["act"] + 1))


def k_pref(spec, ctx, a, rows):
    m = spec["pref"]
    out = []
    for P in rows:
        v = int(round(float(P.max())))
        p = [i + 1 for i in range(m) if v == 8 ** i]
        if not p:
            ctx.fail("C24:pref", "a user runs the appliances of several preferences: %s" % v)
        out.append(p[0])
    pmf(ctx, spec, out, {i + 1: 1 / m for i in range(m)}, "preference followed, of %d" % m)


def k_occ(spec, ctx, a, rows):
    out = []
    for P in rows:
        c = int(round(float(P.max()) / a["power"]))
        out += [1] * c + [0] * (spec["n"] - c)
    pmf(ctx, spec, out, {0: 1 - a["occ"], 1: a["occ"]}, "days of use, occasional use %s" % a["occ"])
