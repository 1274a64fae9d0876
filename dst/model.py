"""Configurations (plain JSON), their construction through the public API of ramp, and reference formulas derived from them."""
import datetime
import math

DAY = 1440


def app(name="a", number=1, power=10.0, ft=60, fc=1, v=0.0, windows=((0, 1440),), rvw=0.0, fixed="no", cont=1, occ=1, flat="no", th=0.0,
        pref=0, wd=2, cycles=(), api="add"):
    return dict(name=name, number=number, power=power, ft=ft, fc=fc, v=v, windows=[list(w) for w in windows], rvw=rvw, fixed=fixed, cont=cont,
                occ=occ, flat=flat, th=th, pref=pref, wd=wd, cycles=[dict(c) for c in cycles], api=api)


def cyc(p1, t1, p2, t2, r=0.0, cws=None):
    return dict(p1=p1, t1=t1, p2=p2, t2=t2, r=r, cws=[list(c) for c in cws] if cws else [])


def user(name="u", n=1, pref=0, apps=()):
    return dict(name=name, n=n, pref=pref, apps=list(apps))


# ------------------------------------------------------------------ construction
def power_arg(a):
    p = a["power"]
    if isinstance(p, dict):  # series
        import pandas as pd

        return pd.DataFrame(series(p))
    return p


def series(p):
    """daily series: {"base": x, "step": y, "mod": m, "n": 366}  or {"values": [...]}"""
    if "values" in p:
        return [float(x) for x in p["values"]]
    return [float(p["base"] + p["step"] * (d % p["mod"])) for d in range(p.get("n", 366))]


def power_on(a, day):
    p = a["power"]
    return series(p)[day] if isinstance(p, dict) else float(p)


def mean_power(a, ndays=None):
    p = a["power"]
    if isinstance(p, dict):
        s = series(p)
        return math.fsum(s) / len(s)
    return float(p)


def kwargs_of(a):
    k = dict(number=a["number"], power=power_arg(a), num_windows=max(1, len(a["windows"])), func_time=a["ft"],
             time_fraction_random_variability=a["v"], func_cycle=a["fc"], fixed=a["fixed"], fixed_cycle=len(a["cycles"]),
             continuous_duty_cycle=a["cont"], occasional_use=a["occ"], flat=a["flat"], thermal_p_var=a["th"], pref_index=a["pref"],
             wd_we_type=a["wd"], name=a["name"])
    return k


def cycle_args(a):
    import numpy as np

    cyk = {}
    cws = {}
    for i, c in enumerate(a["cycles"]):
        j = i + 1
        cyk[j] = {"p_%d1" % j: c["p1"], "t_%d1" % j: c["t1"], "p_%d2" % j: c["p2"], "t_%d2" % j: c["t2"], "r_c%d" % j: c["r"]}
        for m, w in enumerate(c["cws"]):
            cws["cw%d%d" % (j, m + 1)] = np.array(w)
    return cyk, cws


def build_app(u, a):
    import numpy as np

    k = kwargs_of(a)
    win = {"window_%d" % (i + 1): np.array(w) for i, w in enumerate(a["windows"])}
    api = a.get("api", "add")
    cyk, cws = cycle_args(a)
    if api == "add":
        for d in cyk.values():
            k.update(d)
        k.update(cws)
        if win:
            k.update(win)
            k["random_var_w"] = a["rvw"]
        return u.add_appliance(**k)
    obj = u.add_appliance(**k)
    if win:
        obj.windows(random_var_w=a["rvw"], **win)
    declare_cycles(obj, a)
    return obj


def declare_cycles(obj, a):
    """declares the duty cycles (and cycle windows) of the model on an existing appliance"""
    cyk, cws = cycle_args(a)
    if a.get("api") == "cycle_behaviour":
        for j, d in cyk.items():
            getattr(obj, "specific_cycle_%d" % j)(**d)
        if cws:
            obj.cycle_behaviour(**cws)
    else:
        for j, d in cyk.items():
            d = dict(d)
            d.update({kk: vv for kk, vv in cws.items() if kk.startswith("cw%d" % j)})
            obj.specific_cycle(j, **d)


def build_user(cfg, **kw):
    from ramp import User

    u = User(cfg["name"], cfg["n"], cfg["pref"], **kw)
    for a in cfg["apps"]:
        build_app(u, a)
    return u


def build_users(cfgs):
    return [build_user(c) for c in cfgs]


# ------------------------------------------------------------------ reference formulas
def rv_of(a, w):
    return int(a["rvw"] * (w[1] - w[0]))


def wide_windows(a):
    out = []
    for w in a["windows"]:
        rv = rv_of(a, w)
        out.append((max(0, w[0] - rv), min(DAY, w[1] + rv)))
    return out


def windows_may_overlap(a):
    ws = sorted(wide_windows(a))
    return any(x[1] > y[0] for x, y in zip(ws, ws[1:]))


def min_total(a):
    t = 0
    for w in a["windows"]:
        rv = rv_of(a, w)
        t += max(0, max(0, w[1] - rv) - (w[0] + rv))
    return t


def max_total(a):
    return sum(y - x for x, y in wide_windows(a))


def may_not_fit(a):
    """True if the windows, reduced by their variability, can be too short for the minimum switch-on duration"""
    return int(0.99 * min_total(a)) < a["fc"]


def day_type(start, i):
    d = datetime.date.fromisoformat(start) + datetime.timedelta(days=i)
    return 1 if d.weekday() > 4 else 0


def eligible(a, dt):
    return a["ft"] > 0 and a["occ"] > 0 and a["wd"] in (2, dt)


def max_unit_power(a, day):
    if a["cycles"]:
        return max(max(c["p1"], c["p2"]) for c in a["cycles"])
    return power_on(a, day)


def time_bounds(a, total_lo, total_hi):
    """(lower, upper) minutes of use; total_lo/hi bound the summed length of the windows of the day"""
    ft, v, fc = a["ft"], a["v"], a["fc"]
    ub = max(fc, ft, math.floor(ft * (1 + v) + 1e-9))
    lb = max(fc, min(ft, math.floor(ft * (1 - v) + 1e-9)))
    ub = min(ub, int(0.99 * total_hi + 1e-9))
    lb = min(lb, int(0.99 * total_lo + 1e-9))
    return lb, ub


MARK = 0.001


def runs(mask):
    """list of (start, stop) of the True runs of a boolean sequence"""
    out = []
    s = None
    for i, m in enumerate(mask):
        if m and s is None:
            s = i
        elif not m and s is not None:
            out.append((s, i))
            s = None
    if s is not None:
        out.append((s, len(mask)))
    return out


# ------------------------------------------------------------------ oracles for one appliance, one individual user, one day
def check_shape(P):
    import numpy as np

    P = np.asarray(P)
    if P.shape != (DAY,):
        return [("C01:shape", f"daily profile has shape {P.shape}")]
    if not np.all(np.isfinite(P)):
        return [("C01:nonfinite", "profile has non finite values")]
    if (P < 0).any():
        return [("C01:negative", f"profile has negative values, min {P.min()}")]
    return []


def units_near(r, th, number):
    """numbers of units whose power varied by th may make r times the power of one"""
    return range(max(1, int(r / (1 + th))), min(number, int(r / (1 - th) + 1) if th < 1 else number) + 1)


def check_envelope(a, P, day, n=1):
    """C01 for n individual users owning appliance a only"""
    out = check_shape(P)
    if out:
        return out
    P = [float(x) for x in P]
    cap = a["number"] * max_unit_power(a, day) * (1 + a["th"])
    tol = 1e-9 * max(1.0, cap) * n
    hi = n * cap + n * MARK + tol
    m = max(P)
    if m > hi:
        out.append(("C01:power", f"appliance {a['name']} day {day}: load {m} exceeds {n} x {cap} (minute {P.index(m)})"))
    allowed = [False] * DAY
    for x, y in wide_windows(a):
        for i in range(x, y):
            allowed[i] = True
    for i in range(DAY):
        if P[i] > 0 and not allowed[i]:
            out.append(("C01:outside", f"appliance {a['name']} day {day}: load {P[i]} at minute {i} outside its windows {a['windows']} (variability {a['rvw']})"))
            break
    if a["cycles"] and n == 1 and not out:
        # each minute plays one part of a cycle, by some of the units
        ps = sorted({c[k] for c in a["cycles"] for k in ("p1", "p2")})
        for i in range(DAY):
            x = P[i]
            if x > MARK * (1 + 1e-9) and not any(k * p * (1 - a["th"]) * (1 - 1e-9) <= x <= k * p * (1 + a["th"]) * (1 + 1e-9)
                                                     for p in ps for k in units_near(x / p, a["th"], a["number"])):
                out.append(("C01:part", f"appliance {a['name']} day {day}: load {x} at minute {i} is not that of 1 to {a['number']} units playing a part of a duty cycle of {ps} W +-{a['th']}"))
                break
    # idle marker
    if not a["cycles"]:
        lo = (a["number"] if a["flat"] == "yes" or a["fixed"] == "yes" else 1) * power_on(a, day) * ((1 - a["th"]) if a["flat"] != "yes" else 1)
        if lo > 10 * MARK * n:
            for i in range(DAY):
                if n * MARK * (1 + 1e-9) < P[i] < lo * (1 - 1e-9):
                    out.append(("C01:marker", f"appliance {a['name']} day {day}: load {P[i]} at minute {i} is neither idle marker nor consumption of one unit ({lo})"))
                    break
    return out


def check_time(a, P, day):
    """C02 for a non-flat appliance of one individual user; on minutes must be recognisable (power well above the marker)"""
    out = []
    on = [x > 10 * MARK for x in P]
    win = [x > 0 for x in P]
    T = sum(on)
    M = sum(win)
    if M == 0:
        return out
    if windows_may_overlap(a):
        lo, hi = M, max_total(a)
    else:
        lo = hi = M
    lb, ub = time_bounds(a, lo, hi)
    if T > ub:
        out.append(("C02:too-long", f"appliance {a['name']} day {day}: used {T} min, at most {ub} allowed (func_time {a['ft']} +-{a['v']}, cycle {a['fc']}, windows {M} min)"))
    if T < lb:
        need = max(1, a["fc"])
        gaps = [(x, y) for x, y in runs([w and not o for w, o in zip(win, on)]) if y - x >= need]
        if a["cycles"]:
            gaps = [g for g in gaps if gap_touches(a, g, need)]
        if gaps:
            out.append(("C02:too-short", f"appliance {a['name']} day {day}: used {T} min, at least {lb} expected and idle gap {gaps[0]} is left (func_time {a['ft']} +-{a['v']}, cycle {a['fc']})"))
    return out


def gap_touches(a, g, need):
    cws = [w for c in a["cycles"] for w in c["cws"]]
    if not cws and len(a["cycles"]) == 1:
        cws = a["windows"][:2]
    return any(g[0] <= w[1] and g[1] - 1 >= w[0] for w in cws)


def possible_cws(a):
    """every range which may act as a cycle window (undeclared ones default to the first minute, or to the windows of use with one cycle)"""
    cws = [w for c in a["cycles"] for w in c["cws"]] + [[0, 0]]
    if len(a["cycles"]) == 1:
        cws += a["windows"][:2]
    return cws


def segments(P):
    """maximal runs of equal consumption"""
    out = []
    i = 0
    n = len(P)
    while i < n:
        if P[i] <= 10 * MARK:
            i += 1
            continue
        j = i + 1
        while j < n and P[j] == P[i]:
            j += 1
        out.append((i, j, P[i]))
        i = j
    return out


def check_events(a, P, day):
    """C03"""
    out = []
    P = [float(x) for x in P]
    p = power_on(a, day)
    segs = segments(P)
    short = [s for s in segs if s[1] - s[0] < a["fc"]]
    if len(short) > 1:
        out.append(("C03:short", f"appliance {a['name']} day {day}: {len(short)} switch-on events shorter than {a['fc']} min: {short[:3]}"))
    ks = [a["number"]] if a["fixed"] == "yes" else list(range(1, a["number"] + 1))
    for s in segs:
        x = s[2] / p
        if not any(k * (1 - a["th"]) - 1e-9 * k <= x <= k * (1 + a["th"]) + 1e-9 * k for k in ks):
            out.append(("C03:coincidence", f"appliance {a['name']} day {day}: {x} units on in minutes {s[0]}-{s[1]} (owns {a['number']}, fixed={a['fixed']}, thermal {a['th']})"))
            break
    return out


# ------------------------------------------------------------------ duty cycles (C04)
def _durs(t, r):
    lo, hi = t * (1 - r), t * (1 + r)
    return list(range(max(0, math.floor(lo - 1e-9)), math.floor(hi + 1e-9) + 1))


def cycle_variants(a, ci):
    """all (durations, powers) patterns cycle ci may have on a day"""
    c = a["cycles"][ci]
    out = []
    for d1 in _durs(c["t1"], c["r"]):
        for d2 in _durs(c["t2"], c["r"]):
            out.append([(d1, c["p1"]), (d2, c["p2"])])
            if len(a["cycles"]) >= 3:
                out.append([(d2, c["p2"]), (d1, c["p1"])])
    # a swapped cycle draws its own durations: the ranges are the same
    seen = []
    for o in out:
        o = [x for x in o if x[0] > 0]
        if o and o not in seen:
            seen.append(o)
    return seen


def pattern(v):
    out = []
    for d, p in v:
        out.extend([p] * d)
    return out


def _accept(P, lo, hi, pats, ks, fc, cont, tol):
    """minimal number of short events needed to read P[lo:hi] (all minutes on) as a sequence of events, None if impossible.
    pats: list of patterns (lists of powers); each event plays one of them times one k"""
    n = hi - lo
    best = [None] * (n + 1)
    best[0] = 0
    # first positions: an event can only start where the value equals k * pattern[0]
    for s in range(n):
        if best[s] is None:
            continue
        for pat in pats:
            L = len(pat)
            for k in ks:
                m = 0
                lim = n - s if cont else min(n - s, L)
                while m < lim:
                    q = pat[m % L] * k
                    if abs(P[lo + s + m] - q) > tol * max(1.0, q):
                        break
                    m += 1
                    need = fc if cont else min(fc, L)
                    cost = best[s] + (0 if m >= need else 1)
                    if best[s + m] is None or best[s + m] > cost:
                        best[s + m] = cost
    return best[n]


def check_cycles_strict(a, P, day):
    """every window i of the appliance lies wholly in the cycle windows of cycle i and of no other cycle: each switch-on in it plays cycle i.
    Powers are positive, thermal variability is 0."""
    out = []
    P = [float(x) for x in P]
    on = [x > 10 * MARK for x in P]
    ks = [a["number"]] if a["fixed"] == "yes" else list(range(1, a["number"] + 1))
    ww = wide_windows(a)
    total_short = 0
    for i, (x, y) in enumerate(ww):
        rr = [(s, e) for s, e in runs(on[x:y])]
        if not rr:
            continue
        ok = None
        for var in cycle_variants(a, i):
            pat = pattern(var)
            short = 0
            for s, e in rr:
                r = _accept(P, x + s, x + e, [pat], ks, a["fc"], a["cont"], 1e-9)
                if r is None:
                    short = None
                    break
                short += r
            if short is not None and (ok is None or short < ok):
                ok = short
        if ok is None:
            seq = [(s + x, e + x, [P[x + s], P[min(DAY - 1, x + s + 1)], P[x + e - 1]]) for s, e in rr[:3]]
            out.append(("C04:pattern", f"appliance {a['name']} day {day} window {i + 1} {a['windows'][i]}: the switch-on events do not play duty cycle {i + 1} {a['cycles'][i]}: {seq}"))
        else:
            total_short += ok
    if not out and total_short > 1:
        out.append(("C04:short", f"appliance {a['name']} day {day}: {total_short} switch-on events shorter than the minimum duration {a['fc']}"))
    return out


def check_cycles_any(a, P, day):
    """one cycle per appliance, switch-ons anywhere, windows larger than the cycle window: all but the cut event touch the cycle window"""
    out = []
    P = [float(x) for x in P]
    on = [x > 10 * MARK for x in P]
    rr = runs(on)
    ks = [a["number"]] if a["fixed"] == "yes" else list(range(1, a["number"] + 1))
    cws = possible_cws(a)
    if rr and not any(s <= w[1] and e - 1 >= w[0] for s, e in [(wx, wy) for wx, wy in wide_windows(a)] for w in cws):
        out.append(("C04:unreachable", f"appliance {a['name']} day {day}: runs in {rr[:2]} although no switch-on can touch its cycle windows {cws}"))
    away = [(s, e) for s, e in rr if not any(s <= w[1] and e - 1 >= w[0] for w in cws)]
    if a["cont"] and len(away) > 1:
        out.append(("C04:away", f"appliance {a['name']} day {day}: switch-ons {away[:3]} touch none of the cycle windows {cws}"))
    return out


def check_multi(users, P, day, start):
    """C01 for a whole use case: sum of the per appliance bounds, minute by minute"""
    out = check_shape(P)
    if out:
        return out
    cap = [0.0] * DAY
    for u in users:
        for a in u["apps"]:
            if not eligible(a, day_type(start, day)):
                continue
            c = u["n"] * (a["number"] * max_unit_power(a, day) * (1 + a["th"]) + MARK)
            mask = [False] * DAY
            for x, y in wide_windows(a):
                for i in range(x, y):
                    mask[i] = True
            for i in range(DAY):
                if mask[i]:
                    cap[i] += c
    P = [float(x) for x in P]
    for i in range(DAY):
        if P[i] > cap[i] * (1 + 1e-9) + (1e-12 if cap[i] else 0):
            out.append(("C01:power" if cap[i] else "C01:outside", f"use case day {day}: load {P[i]} at minute {i}, at most {cap[i]} is possible"))
            break
    return out
