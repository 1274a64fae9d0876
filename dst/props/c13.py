import datetime
import numpy as np
from .. import env as E, gen as G, model as M
from .. import world as W

RUNS = {"quick": 520, "thorough": 60000}
RULE = ("Histories of construction, initialisation (plain / forced, with and without number of days, answer from stdin), changes of the dates, added users and appliances, clock jumps and time zone changes (also around local midnight and DST), and "
        "generations of up to 800 days; after every step the days, the minute index and the generated minutes are compared with a small reference model of the calendar.")
PROBES = {"quick": ["today", "midnight", "end_only", "start_only", "both", "both_n", "stdin", "forced", "plain_again", "long", "late_user", "late_app", "gen", "gen_par", "cases", "leap"]}
KEEP = ("base",)


def app(k, wd=2, w=(0, 1440), p=1):
    return M.app("a%d" % k, 1, p, 1, 1, 0, [list(w)], 0, "yes", flat="yes", wd=wd)


def base_users():
    return [M.user("u0", 1, 0, [app(0, 2, (600, 900), 1), app(1, 0, (0, 1440), 4), app(2, 1, (0, 1440), 16), app(3, 2, (0, 3), 64), app(4, 2, (1437, 1440), 256)])]


def rdate(rng, near=None):
    if near:
        return (datetime.date.fromisoformat(near) + datetime.timedelta(days=rng.choice([0, 1, 2, 6, 7, 30, 364, 365, 366, 400, 430]))).isoformat()
    y = rng.choice([1970, 1999, 2000, 2020, 2022, 2023, 2024, 2099])
    return rng.choice(["%d-01-01" % y, "%d-02-28" % y, "%d-12-31" % y, "%d-%02d-%02d" % (y, rng.randrange(1, 13), rng.randrange(1, 29)), "2024-02-29"])


def rn(rng, long=True):
    return rng.choice([1, 1, 2, 3, 7, 31] + ([365, 366, 367, 400, 500, 800] if long else []))


def generate(rng, i, tier):
    ops = []
    start = rdate(rng) if rng.random() < 0.6 else None
    end = rdate(rng, start) if rng.random() < 0.5 else None
    form = rng.choice(["str", "str", "datetime", "timestamp"])
    for _ in range(rng.randrange(2, 9)):
        k = rng.choice(["init", "init", "init", "force", "force", "start", "end", "user", "app", "clock", "tz", "read", "gen", "gen"])
        if k in ("init", "force"):
            ops.append([k, rng.choice([None, rn(rng), rn(rng)])])
        elif k == "start":
            start = rdate(rng, end)
            ops.append([k, start])
        elif k == "end":
            end = rdate(rng, start)
            ops.append([k, rng.choice([end, end, None])])
        elif k == "clock":
            ops.append([k, rng.choice([-86400.0, 3600.0, 86400.0 * 31, "midnight", "midnight"])])
        elif k == "tz":
            ops.append([k, rng.choice(["UTC", "Europe/Berlin", "Pacific/Kiritimati", "America/St_Johns", "Pacific/Honolulu"])])
        elif k == "gen":
            ops.append([k, rng.choice(["flat", "flat", "days", "par", "cases"])])
        else:
            ops.append([k, None])
    ops.append(["init", rn(rng)])
    ops.append(["gen", "flat"])
    if i % 4:
        # few long runs: they cost most of the time
        for o in ops:
            if o[0] in ("init", "force") and o[1]:
                o[1] = min(o[1], 31)
    ctor = [start if rng.random() < 0.5 else None, None]
    if rng.random() < 0.5:
        ctor = [rdate(rng), None]
        ctor[1] = rdate(rng, ctor[0]) if rng.random() < 0.7 else None
    elif rng.random() < 0.4:
        ctor = [None, rdate(rng)]
    e = G.env(rng, 0.5, budget=200_000_000)
    e.update({"start": "fork", "cpus": rng.choice([1, 2, 3]), "sched": G.sched(rng)})
    return {"ctor": ctor, "form": form, "ops": ops, "answers": [rn(rng, i % 4 == 0) for _ in range(4)], "env": e, "n0": rng.choice([1, 1, 0])}


def valid(spec):
    if spec["env"]["cpus"] < 1 or any(a < 1 for a in spec["answers"]) or len(spec["ctor"]) != 2 or len(spec["answers"]) < 4:
        return False
    for o in spec["ops"]:
        if len(o) != 2 or (o[0] in ("init", "force") and o[1] is not None and o[1] < 1) or (o[0] == "start" and not o[1]):
            return False
        if o[0] == "clock" and o[1] not in (-86400.0, 3600.0, 86400.0 * 31, "midnight"):
            return False
    return True


def D(s):
    return datetime.date.fromisoformat(s) if s else None


def conv(s, form):
    if s is None:
        return None
    if form == "str":
        return s
    if form == "timestamp":
        import pandas as pd

        return pd.Timestamp(s)
    return datetime.datetime.fromisoformat(s)


def today():
    """local date of the simulated clock, without reading it"""
    return datetime.datetime.fromtimestamp(W.current.clock).date()


class Model:
    """reference: the set of admissible first days and the number of days"""

    def __init__(self, start, end):
        self.start, self.end = start, end
        self.first, self.n = None, None

    def can(self, n):
        """whether the request is defined"""
        return not (self.start and self.end and self.end < self.start and n is None)

    def compute(self, n, t0, t1):
        if self.start and self.end and n is None:
            self.n = (self.end - self.start).days + 1
            self.first = {self.start}
        elif self.start:
            self.n, self.first = n, {self.start}
        elif self.end:
            self.n, self.first = n, {self.end - datetime.timedelta(days=n - 1)}
        else:
            self.n, self.first = n, {t0, t1}


def build(a, u):
    M.build_app(u, a)


def run(spec, ctx):
    from ramp import UseCase, User
    import pandas as pd

    w = W.current
    form = spec["form"]
    w.stdin = []
    answers = list(spec["answers"])
    s, e = spec["ctor"]
    m = Model(D(s), D(e))
    if m.start and m.end and not 0 <= (m.end - m.start).days <= 800:
        m.end = m.start
        e = s
    cfg = base_users()
    users = ctx.call(M.build_users, cfg) if spec["n0"] else []
    cfg = cfg if spec["n0"] else []
    t0 = today()
    uc = ctx.call(UseCase, name="uc", users=users, date_start=conv(s, form), date_end=conv(e, form))
    if m.start and m.end:
        m.compute(None, t0, today())
        ctx.hit("both")
    k = 10
    left = 600 if len(spec["ops"]) > 3 else 2000  # days to be generated
    verify(ctx, uc, m, "construction with dates %s..%s" % (s, e))
    for j, (op, x) in enumerate(spec["ops"]):
        what = "step %d %s(%s)" % (j + 1, op, x)
        if op == "start":
            if m.end and not 0 <= (m.end - D(x)).days <= 800:
                continue
            uc.date_start = conv(x, form)
            m.start = D(x)
        elif op == "end":
            if x and m.start and not 0 <= (D(x) - m.start).days <= 800:
                continue
            uc.date_end = conv(x, form)
            m.end = D(x)
        elif op == "clock":
            w.fault("clock_jump")
            if x == "midnight":
                # shortly before the next local midnight
                ctx.hit("midnight")
                d = datetime.datetime.fromtimestamp(w.clock)
                w.clock += 86400 - (d.hour * 3600 + d.minute * 60 + d.second + d.microsecond * 1e-6) - 0.0025
            else:
                w.clock = max(86400.0, w.clock + x)
        elif op == "tz":
            w.fault("tz_change")
            E.set_tz(x)
        elif op == "user":
            if m.n is not None:
                ctx.hit("late_user")
            a = app(k, 2, (60, 63), 1024)
            c = M.user("late%d" % k, 1, 0, [a])
            k += 1
            cfg.append(c)
            ctx.call(uc.add_user, ctx.call(M.build_user, c))
        elif op == "app":
            if uc.users:
                ctx.hit("late_app", m.n is not None)
                a = app(k, 2, (70, 73), 4096)
                k += 1
                cfg[-1]["apps"].append(a)
                ctx.call(build, a, uc.users[-1])
        elif op in ("init", "force", "read"):
            n = x
            forced = op == "force" and m.n is not None
            if m.n is None or forced:
                if not m.can(n):
                    continue
                if n is None and not (m.start and m.end):
                    if forced:
                        continue  # the number of days is not given
                    if not answers:
                        continue
                    n = answers.pop()
                    w.stdin.append(str(n))
                    ctx.hit("stdin")
                t0 = today()
                fresh = True
            else:
                fresh = False
                ctx.hit("plain_again")
            if op == "read":
                ctx.call(lambda: (uc.num_days, uc.datetimeindex))
            elif op == "init":
                ctx.call(uc.initialize, num_days=x)
            else:
                ctx.hit("forced", forced)
                ctx.call(uc.initialize, num_days=x, force=True)
            if fresh:
                ctx.hit("today" if not (m.start or m.end) else "both_n" if m.start and m.end and n else "start_only" if not m.end else "end_only" if not m.start else "both")
                m.compute(n, t0, today())
        elif op == "gen":
            if m.n is None or left <= 0:
                continue
            left -= m.n
            if x in ("par", "cases", "days") and m.n > 40:
                x = "flat"
            generated(ctx, spec, uc, m, cfg, x, what)
        verify(ctx, uc, m, what)


def verify(ctx, uc, m, what):
    ctx.evals += 1
    if m.n is None:
        ctx.check(not uc.is_initialized, "C13:premature", "initialised after " + what)
        return
    if not uc.is_initialized:
        ctx.fail("C13:uninitialised", "not initialised after " + what)
    ctx.hit("long", m.n > 366)
    days = [d.date() for d in uc.days]
    ctx.rec(days[0] if days else None, len(days))
    exp = "%d days from %s" % (m.n, "/".join(str(d) for d in sorted(m.first)))
    if len(days) != m.n or uc.num_days != m.n:
        ctx.fail("C13:number", "%s: %d days (num_days %s), expected %s" % (what, len(days), uc.num_days, exp))
    if days[0] not in m.first:
        ctx.fail("C13:first", "%s: first day is %s, expected %s" % (what, days[0], exp))
    m.first = {days[0]}
    if any(d != days[0] + datetime.timedelta(days=i) for i, d in enumerate(days)):
        ctx.fail("C13:consecutive", "%s: days are not consecutive" % what)
    ctx.hit("leap", any(d.month == 2 and d.day == 29 for d in days))
    ix = uc.datetimeindex
    t0 = datetime.datetime.combine(days[0], datetime.time())
    if len(ix) != 1440 * m.n or ix[0] != t0 or ix[-1] != t0 + datetime.timedelta(minutes=1440 * m.n - 1):
        ctx.fail("C13:index", "%s: minute index has %d entries from %s to %s, expected %s" % (what, len(ix), ix[0], ix[-1], exp))
    v = ix.asi8
    u = np.diff(v)
    if len(u) and (u != u[0]).any():
        ctx.fail("C13:index", "%s: minute index is not regular" % what)


def generated(ctx, spec, uc, m, cfg, how, what):
    ctx.hit("gen")
    ctx.hit("sim_days", m.n)
    if how == "par":
        ctx.hit("gen_par")
    uc.parallel_processing = how == "par"
    try:
        if how == "cases":
            ctx.hit("cases")
            df = ctx.call(uc.generate_daily_load_profiles, cases=[1, 2]).DataFrame
            if not df.index.equals(uc.datetimeindex):
                ctx.fail("C13:index", "%s: the result of cases has another index than the use case" % what)
            P = df.iloc[:, 1].to_numpy()
        else:
            P = np.asarray(ctx.call(uc.generate_daily_load_profiles, flat=how != "days"))
    finally:
        uc.parallel_processing = False
    shape = (m.n, 1440) if how == "days" else (m.n * 1440,)
    if P.shape != shape:
        ctx.fail("C13:length", "%s: profile has shape %s, expected %s" % (what, P.shape, shape))
    P = P.reshape(m.n, 1440)
    first = list(m.first)[0]
    exp = []
    for dt in (0, 1):
        v = np.zeros(1440)
        for u in cfg:
            for a in u["apps"]:
                if a["wd"] in (2, dt):
                    x, y = a["windows"][0]
                    v[x:y] += a["power"]
        exp.append(v)
    for i in range(m.n):
        d = first + datetime.timedelta(days=i)
        dt = 1 if d.weekday() > 4 else 0
        if not np.array_equal(P[i], exp[dt]):
            k = int(np.argmax(P[i] != exp[dt]))
            ctx.fail("C13:profile", "%s: day %d (%s, %s) has load %s in minute %d, expected %s" % (what, i, d, "weekend" if dt else "weekday", P[i][k], k, exp[dt][k]))
