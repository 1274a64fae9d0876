"""Generators of configurations and environments shared by the properties."""
from . import model as M

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131]


def date(rng, weekend_bias=False):
    import datetime

    d = datetime.date(rng.choice([1999, 2020, 2022, 2023, 2024, 2100 - 1]), 1, 1) + datetime.timedelta(days=rng.randrange(366))
    return d.isoformat()


def env(rng, adv=0.6, par=False, budget=3_000_000):
    e = {"rng": "adv" if rng.random() < adv else "mt", "adv": [rng.choice([0.02, 0.1, 0.3, 0.6]), rng.choice([0.0, 0.1, 0.3])],
         "clock": round(rng.choice([0.0, 951782399.0, 1640995200.0, 1709164800.0, 1667091599.0, 4102444800.0]) + rng.randrange(0, 86400 * 30), 3),
         "tz": rng.choice(["UTC", "UTC", "Europe/Berlin", "Pacific/Kiritimati", "America/St_Johns"]), "budget": budget}
    if e["rng"] == "mt":
        e["adv"] = [0.0, 0.0]
    if par:
        e.update(pool_env(rng))
    return e


def sched(rng):
    m = rng.choice(["equal", "random", "random", "lifo", "starve", "bimodal", "single", "exp", "tape"])
    s = {"mode": m, "seed": rng.randrange(1 << 30)}
    if m == "tape":
        s["tape"] = [rng.choice([0, 1, 1, 2, 5, 50, 1000]) for _ in range(rng.randrange(1, 12))]
    return s


def pool_env(rng, gens=1, maxcpu=9):
    start = rng.choice(["fork", "fork", "spawn", "forkserver"])
    cpus = rng.choice([1, 2, 2, 3, 4, 8, maxcpu])
    e = {"start": start, "cpus": cpus, "sched": sched(rng)}
    if start != "fork":
        e["start"] = "spawn"
    return e


def windows(rng, kind=None):
    """list of 1..3 windows, not necessarily sorted"""
    kind = kind or rng.choice(["one", "one", "disjoint", "disjoint", "touch", "overlap", "tiny", "day", "edges", "three", "unsorted"])
    if kind == "day":
        return [[0, 1440]]
    if kind == "one":
        s = rng.randrange(0, 1300)
        return [[s, rng.randrange(s + 30, 1441)]]
    if kind == "tiny":
        s = rng.randrange(0, 1430)
        return [[s, s + rng.randrange(3, 11)]]
    if kind == "edges":
        a = rng.randrange(20, 300)
        b = rng.randrange(20, 300)
        return [[0, a], [1440 - b, 1440]]
    if kind == "touch":
        a = rng.randrange(0, 800)
        b = rng.randrange(a + 10, 1100)
        c = rng.randrange(b + 10, 1300)
        w = [[a, b], [b, c]]
        if rng.random() < 0.4:
            w.append([c, rng.randrange(c + 10, 1441)])
        if rng.random() < 0.4:
            rng.shuffle(w)
        return w
    if kind == "overlap":
        a = rng.randrange(0, 600)
        b = rng.randrange(a + 60, 1000)
        c = rng.randrange(a, b)
        w = [[a, b], [c, rng.randrange(c + 30, 1441)]]
        if rng.random() < 0.3:
            s = rng.randrange(0, 1300)
            w.append([s, rng.randrange(s + 20, 1441)])
        return w
    n = 3 if kind == "three" else 2
    cuts = sorted(rng.sample(range(0, 1441, 5), 2 * n))
    w = [[cuts[2 * i], cuts[2 * i + 1]] for i in range(n)]
    if kind == "unsorted":
        rng.shuffle(w)
    return w


def total(ws):
    return sum(w[1] - w[0] for w in ws)


def fitting(a):
    """reduces fc / rvw until the minimum switch-on duration fits, whatever is drawn"""
    while M.may_not_fit(a):
        if a["rvw"] > 0.05:
            a["rvw"] = round(a["rvw"] / 2, 3)
        elif a["rvw"] > 0:
            a["rvw"] = 0.0
        else:
            a["fc"] = max(1, int(0.99 * M.min_total(a)))
            if M.may_not_fit(a):
                a["windows"] = [[0, 1440]]
    a["ft"] = min(a["ft"], total(a["windows"]))
    return a


def common(rng, name, power=None, flat=False):
    ws = windows(rng)
    t = total(ws)
    ft = rng.choice([1, rng.randrange(1, t + 1), rng.randrange(1, t + 1), rng.randrange(1, min(t, 120) + 1), t])
    fc = rng.choice([1, 1, 2, 5, 10, rng.randrange(1, max(2, ft + 1)), rng.randrange(1, max(2, t // 2))])
    a = M.app(name, number=rng.choice([1, 1, 2, 3, 5, 12]), power=power if power is not None else rng.choice([1, 7.0, 13, 100.0, 2500.5]), ft=ft, fc=fc,
              v=rng.choice([0, 0, 0.1, 0.2, 0.5, 1.0]), windows=ws, rvw=rng.choice([0, 0, 0.1, 0.2, 0.35, 0.6, 1.0]), fixed=rng.choice(["no", "no", "yes"]),
              occ=1, flat="yes" if flat else "no", th=rng.choice([0, 0, 0.1, 0.3, 0.5]), api=rng.choice(["add", "windows"]))
    return fitting(a)


def plain(rng, name, power=None):
    """non-flat appliance without duty cycle"""
    return common(rng, name, power)


def flat(rng, name, power=None):
    a = common(rng, name, power, flat=True)
    a["th"] = 0
    return a


def series(rng):
    if rng.random() < 0.5:
        return {"base": rng.choice([1, 3, 10]), "step": rng.choice([1, 2, 7]), "mod": rng.choice([5, 7, 11, 31])}
    return {"base": rng.choice([50, 400]), "step": 3, "mod": 366}


def cycles_strict(rng, name):
    """window i lies wholly inside the cycle window of cycle i, and windows are spaced apart: each switch-on is attributable"""
    k = rng.choice([1, 2, 3, 3])
    if k == 1:
        s = rng.randrange(3, 600)
        e = rng.randrange(s + 60, 1437)
        ws = [[s, e]]
    else:
        cuts = sorted(rng.sample(range(4, 1430, 12), 2 * k))
        ws = [[cuts[2 * i] + 2, max(cuts[2 * i] + 6, cuts[2 * i + 1] - 2)] for i in range(k)]
        if rng.random() < 0.5:
            rng.shuffle(ws)
    ps = rng.sample(PRIMES, 2 * k)
    cs = []
    for i in range(k):
        r = rng.choice([0, 0, 0, 0.2, 0.3])
        t1, t2 = (rng.randrange(1, 9), rng.randrange(1, 9)) if r else (rng.randrange(1, 40), rng.randrange(1, 40))
        cs.append(M.cyc(ps[2 * i], t1, ps[2 * i + 1], t2, r, None))
    t = total(ws)
    ft = rng.choice([t, rng.randrange(1, t + 1), rng.randrange(1, min(t, 200) + 1)])
    a = M.app(name, number=rng.choice([1, 1, 2, 3]), power=rng.choice([1, 10]), ft=ft, fc=rng.choice([1, 3, 5, 10, 20]), v=rng.choice([0, 0.2]), windows=ws,
              rvw=0, fixed=rng.choice(["no", "yes"]), cont=rng.choice([1, 1, 0]), th=0, cycles=cs, api=rng.choice(["add", "cycle_behaviour", "specific"]))
    for i, c in enumerate(cs):
        c["cws"] = [list(ws[i])]
    a["cycles"] = cs
    # a randomised window can shift by rv: keep it 0, so that windows stay inside their cycle windows
    return fitting(a)


def cycles_any(rng, name, powers=True):
    """duty cycles with cycle windows which need not cover the windows of use"""
    ws = windows(rng)
    k = rng.choice([1, 1, 2, 2, 3])
    ps = rng.sample(PRIMES, 2 * k)
    cs = []
    for i in range(k):
        cws = []
        for _ in range(rng.choice([1, 1, 2]) if (k > 1 or rng.random() < 0.7) else 0):
            w = rng.choice(ws)
            kind = rng.choice(["same", "inner", "part", "far"])
            if kind == "same":
                cws.append(list(w))
            elif kind == "inner":
                s = rng.randrange(w[0], w[1])
                cws.append([s, rng.randrange(s, w[1]) + 1])
            elif kind == "part":
                cws.append([max(0, w[0] - rng.randrange(1, 60)), rng.randrange(w[0], w[1]) + 1])
            else:
                s = rng.randrange(1, 1400)
                cws.append([s, min(1440, s + rng.randrange(1, 200))])
        r = rng.choice([0, 0, 0.2, 0.5])
        cs.append(M.cyc(ps[2 * i], rng.randrange(1, 30), ps[2 * i + 1], rng.randrange(1, 30), r, cws))
    t = total(ws)
    a = M.app(name, number=rng.choice([1, 1, 2, 3]), power=rng.choice([1, 10]), ft=rng.choice([t, rng.randrange(1, t + 1), rng.randrange(1, min(t, 200) + 1)]),
              fc=rng.choice([1, 3, 5, 10, 20]), v=rng.choice([0, 0.2]), windows=ws, rvw=rng.choice([0, 0, 0.1, 0.35, 1.0]), fixed=rng.choice(["no", "yes"]),
              cont=rng.choice([1, 1, 0]), th=rng.choice([0, 0, 0.2]), cycles=cs, api=rng.choice(["add", "cycle_behaviour", "specific"]))
    return fitting(a)
