import numpy as np
from .. import gen as G, model as M, paths, stats
from .. import world as W

RUNS = {"quick": 64, "thorough": 4000}
RULE = ("A use case whose peak time range is drawn around a narrow theoretical peak, possibly re-initialised after a first generation; appliances are then placed so that their single switch-on of the day lies far from the range, within it, "
        "or reaches / misses its first or last minute by one minute; the number of units on, read from the profile, is compared per class with the documented on-peak and off-peak distributions by exact tail bounds of level 1e-11.")
PROBES = {"quick": ["inside", "outside", "edge_in", "edge_out", "cut", "small_number", "large_number", "cycles", "reinit", "path_single", "path_seq", "path_par", "path_default", "path_agg", "path_cases", "interrupted"]}
ASSUMPTIONS = ("deviations which several hundred switch-ons per class cannot tell from the documented distribution are not seen",)
BIG = 20000
KEEP = ("number",)


def generate(rng, i, tier):
    path = ["single", "default", "seq", "par", "agg", "parflat", "cases", "flat"][i % 8] if i % 3 else rng.choice(["single", "default", "seq", "par"])
    spec = {"path": path, "start": G.date(rng), "days": 400, "reps": 2, "number": rng.choice([2, 3, 5, BIG, BIG, BIG]), "k": rng.choice([2, 3, 5, 12, 30]), "cut": rng.choice([0, 0, 1]),
            "peak": [rng.randrange(400, 700), rng.choice([1, 2, 10, 60])], "enlarge": rng.choice([0.0, 0.02, 0.05, 0.1]), "cycles": rng.choice([0, 0, 0, 1]), "edge": rng.choice([0, 1, 1, 2]), "reinit": rng.choice([0, 0, 1]), "n": 1, "users": []}
    spec["env"] = {"rng": "mt", "adv": [0.0, 0.0], "clock": 1640995200.0, "tz": "UTC"}
    if path.startswith("par"):
        spec["env"].update(G.pool_env(rng, maxcpu=6))
        spec["days"], spec["reps"] = 300, 2
    if rng.random() < 0.6:
        spec["rseed"] = rng.randrange(1 << 20)
    if rng.random() < 0.3 and not spec["reinit"]:
        spec["interrupt"] = paths.interrupt(rng)
    return spec


def valid(s):
    return s["days"] >= 100 and s["reps"] >= 1 and s["number"] in (2, 3, 5, BIG) and s["k"] >= 2 and s["peak"][1] >= 1 and 400 <= s["peak"][0] <= 760 and s["n"] == 1 and s["env"]["rng"] == "mt" and s["enlarge"] <= 0.1


def gauss_pmf(N):
    out = {}
    for k in range(1, N + 1):
        hi = 1.0 if k == N else stats.phi((k - N / 2) / (N / 4))
        lo = 0.0 if k == 1 else stats.phi((k - 1 - N / 2) / (N / 4))
        out[k] = hi - lo
    return out


def off_pmf(N):
    out = {k: 1 / (N - 0.5) for k in range(1, N)}
    out[N] = 0.5 / (N - 0.5)
    return out


def judge(ctx, spec, ks, inside, what):
    N = spec["number"]
    n = len(ks)
    if n < 60:
        return
    ctx.evals += 1
    ctx.hit("inside" if inside else "outside", n)
    doc = "documented %s distribution" % ("on-peak (half of the units on average, Gaussian)" if inside else "off-peak (uniform)")
    if N < BIG:
        c = {}
        for k in ks:
            c[k] = c.get(k, 0) + 1
        x = stats.pmf_problem(c, gauss_pmf(N) if inside else off_pmf(N))
        if x:
            ctx.fail("C25:distribution", "%s, %d units: %s (%s)" % (what, N, x, doc))
        return
    ext = sum(1 for k in ks if k in (1, N))
    p = stats.phi((1 - N / 2) / (N / 4)) + 1 - stats.phi((N - 1 - N / 2) / (N / 4)) if inside else 1.5 / (N - 0.5)
    if stats.unlikely(ext, n, p):
        ctx.fail("C25:extremes", "%s: one or all of the %d units were on in %d of %d switch-ons, expected %.1f (%s)" % (what, N, ext, n, n * p, doc))
    cdf = (lambda t: stats.phi((t - N / 2) / (N / 4))) if inside else (lambda t: t / (N - 0.5))
    x = stats.cdf_problem(ks, cdf, [N * f / 10 for f in range(1, 10)], 1.0)
    if x:
        ctx.fail("C25:distribution", "%s, %d units: %s (%s)" % (what, N, x, doc))


def run(spec, ctx):
    from ramp import UseCase, User

    N, k, D = spec["number"], spec["k"], spec["days"]
    par = spec["path"].startswith("par")
    a, w = spec["peak"]
    anchor = M.build_user(M.user("anchor", 1, 0, [M.app("big", 1, 10.0 * BIG, 1, 1, 0, [[a, a + w]], 0, occ=0)]))
    uc = ctx.call(UseCase, "uc", [anchor], date_start=spec["start"], parallel_processing=par, peak_enlarge=spec["enlarge"], random_seed=spec.get("rseed"))
    if spec["reinit"]:
        # another peak first, days are generated under it
        ctx.hit("reinit")
        u = M.build_user(M.user("other", 1, 0, [M.app("x", 3, 20.0 * BIG, 30, 30, 0, [[1300, 1400]], 0)]))
        uc.add_user(u)
        ctx.call(uc.initialize, num_days=2)
        ctx.call(uc.generate_daily_load_profiles)
        del uc.users[-1]
        ctx.call(uc.initialize, num_days=D, force=True)
    else:
        ctx.call(uc.initialize, num_days=D)
    R = np.asarray(uc.peak_time_range)
    ctx.check(R.size > 0, "C25:range", "the peak time range is empty")
    lo, hi = int(R[0]), int(R[-1])
    if not 150 <= lo <= hi <= 1290:
        ctx.hit("range_elsewhere")
        return
    # windows of k+1 minutes hold exactly one switch-on of k minutes, starting at the first or at the second minute
    j = max(1, k // 2)
    c = k if not spec["cut"] else j
    # (0: by one minute in or out, 1: by one minute or two in, 2: out)
    e = spec["edge"]
    sites = {"before": lo - c + (0, 1, -1)[e], "after": hi + (0, -1, 1)[e], "far": 60, "far2": 1380}
    if hi - lo >= 3 * k + 8:
        sites["within"] = lo + k + 3
    win = {s: [x, x + k + 1] for s, x in sites.items()}
    if hi - lo < 2 * k + 6:
        # the two edge windows would overlap: use one of them
        win.pop("before" if spec["start"] > "2022" else "after")
    apps = []
    if spec["cut"]:
        # two switch-ons a day: one of k minutes and one cut to j minutes, in either window
        ctx.hit("cut")
        names = [s for s in win if s not in ("far", "far2")]
        for s in names:
            f = "far" if s != "after" else "far2"
            apps.append((s, [win[s], [win[f][0] + (0 if s != "within" else 2 * k + 5), win[f][1] + (0 if s != "within" else 2 * k + 5)]], k + j))
    else:
        for s in win:
            apps.append((s, [win[s]], k))
    cfgs = []
    for s, ws, ft in apps:
        cfg = M.app(s, N, 7.0, ft, k, 0, ws, 0, "no")
        if spec["cycles"]:
            cfg["cycles"] = [M.cyc(7.0, k + 3, 7.0, 1, 0, None)]
            ctx.hit("cycles")
        if M.may_not_fit(cfg):
            cfg["windows"] = ws
            raise RuntimeError("window too short: %r" % cfg)
        cfgs.append(cfg)
    m = ctx.call(M.build_user, M.user("m", 1, 0, cfgs))
    ctx.call(uc.add_user, m)
    paths.interrupted(ctx, spec, uc)
    ctx.check(int(uc.peak_time_range[0]) == lo and int(uc.peak_time_range[-1]) == hi, "C25:range", "the peak time range moved although the use case was not initialised again")
    path = spec["path"]
    ctx.hit("sim_days", D)
    ctx.hit("path_" + ("par" if par else path))
    rows = []
    for _ in range(spec["reps"]):
        if path in ("single", "default", "agg"):
            kw = {} if path == "default" else {"peak_time_range": uc.peak_time_range}
            fn = m.generate_aggregated_load_profile if path == "agg" else m.generate_single_load_profile
            for d in range(D):
                rows.append(np.array(ctx.call(fn, prof_i=d, day_type=M.day_type(spec["start"], d), **kw)))
        elif path == "cases":
            df = ctx.call(uc.generate_daily_load_profiles, cases=["x"]).DataFrame
            rows += list(df.iloc[:, 0].to_numpy().reshape(D, 1440))
        else:
            P = np.asarray(ctx.call(uc.generate_daily_load_profiles, flat=path in ("flat", "parflat"))).reshape(D, 1440)
            rows += list(P)
    ctx.hit("large_number" if N == BIG else "small_number")
    cls = {}
    for P in rows:
        ctx.rec(P)
        for s, ws, ft in apps:
            for x, y in ws:
                seg = [float(v) for v in P[x:y]]
                on = [q for q, v in enumerate(seg) if v > 1]
                if not on:
                    continue
                vals = {seg[q] for q in on}
                if len(vals) != 1 or on[-1] - on[0] + 1 != len(on) or len(on) > k:
                    continue  # not a single switch-on: C02, C03
                u = int(round(seg[on[0]] / 7.0))
                b, e = x + on[0], x + on[-1]
                inside = b <= hi and e >= lo
                edge = "first" if e in (lo - 1, lo) else "last" if b in (hi, hi + 1) else ""
                cls.setdefault((inside, edge, len(on) < k), []).append(u)
    for (inside, edge, cut), ks in sorted(cls.items()):
        if edge:
            ctx.hit("edge_in" if inside else "edge_out", len(ks))
        judge(ctx, spec, ks, inside, "switch-ons %s the peak time range %d..%d%s%s (%s)" % (
            ("reaching the %s minute of" % edge if edge else "within") if inside else ("one minute away from the %s minute of" % edge if edge else "away from"), lo, hi, ", cut short by the daily time of use" if cut else "", "" if not spec["cycles"] else ", duty cycle", path))
