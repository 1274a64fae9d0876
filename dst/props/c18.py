import datetime
import gc
import os
import sys
from .. import boot, conserve as K, disk, gen as G, model as M, paths
from .. import world as W
from . import c16

RUNS = {"quick": 80, "thorough": 12000}
RULE = ("Random input spreadsheets without net randomness, ordinary stochastic ones (profile captured), or twelve monthly ones (listed in any order, with decoys) are run through the real command line under random options, dates, clocks, worker "
        "schedules and disk faults; every row of every output is compared with the closed form or the captured profile, and nothing else may have changed on disk. Non-trivial: the command ran a simulation.")
PROBES = {"quick": ["months", "permuted_listing", "several", "mismatch", "only_start", "only_end", "year", "n", "n_start", "n_end", "both", "stdin", "par", "fault_run", "fault_raised", "fault_ok", "captured", "wrong_count", "overwrite", "quota", "default_output", "duplicates"]}
KEEP = ("base",)
PATTERNS = ["month_%d", "m%dv2", "in_2022_%d", "village.%d", "%02d", "%d_profile", "%d-2022"]


def users(rng):
    us = [u for u in K.generate(rng, small=True) if u["apps"]]
    return us or [M.user("u0", 2, 0, [M.app("a", 1, 4, 60, 1, 0, [[100, 400]], 0, "yes", flat="yes")])]


def month_users(rng, k):
    a = M.app("m%d" % k, 1, 100 + 7 * k, 1, 1, 0, [sorted(rng.sample(range(0, 1441, 10), 2))], 0, "yes", flat="yes", wd=rng.choice([2, 2, 0, 1]))
    b = M.app("n%d" % k, 1, 3 + k, 1, 1, 0, [[0, 1440]], 0, "yes", flat="yes")
    return [M.user("u", rng.choice([1, 2]), 0, [a, b])]


def generate(rng, i, tier):
    if i % 10 == 5:
        pat = PATTERNS[i // 10 % 7]
        s = {"mode": "months", "inputs": [month_users(rng, k) for k in range(12)], "pattern": pat, "base": rng.choice([1, 1, 0]), "dir": rng.choice(["months", "in2024", "a/b1"]), "form": rng.choice(["rel", "slash", "abs", "dot"]),
             "decoys": rng.choice([[], ["notes.txt"], ["x.csv", "y.xls"]]), "drop": int(i // 10 % 8 == 7), "listing": rng.randrange(1 << 20), "out": rng.choice(["res", "res", None, "abs", "ready"]), "year": rng.choice([2022, 2024, 2099, 2000])}
        s["par"] = rng.random() < 0.25
        s["faults"] = []
        s["fault"] = None
        if rng.random() < 0.4:
            s["fault"] = [c16.fault(rng)]
            s["fault"][0].update({"kind": rng.choice(["ENOSPC", "EIO", "torn"]), "op": rng.choice(["write", "open-w", "close"])})
    else:
        k = rng.choice([1, 1, 1, 2, 3])
        s = {"mode": "files", "inputs": [users(rng) for _ in range(k)], "stoch": rng.random() < 0.25, "outs": k if rng.random() < 0.88 else rng.choice([1, 2]), "outform": rng.choice(["rel", "sub", "abs", "default"]), "dup": int(k > 1 and rng.random() < 0.25), "pre": rng.random() < 0.3}
        if s["stoch"]:
            s["inputs"] = [c16.model(rng, 1, names=False) for _ in range(k)]
        t = rng.choice(["n", "n", "n_start", "n_end", "both", "only_start", "only_end", "stdin"] + (["year"] if i % 23 == 9 else []))
        if i % 23 == 9:
            t = "year"
            s["inputs"] = [month_users(rng, 1)]
            s["stoch"] = False
            s["outs"] = 1
        y = rng.choice([1999, 2022, 2024, 2098])
        d = datetime.date(y, rng.choice([1, 2, 12]), rng.randrange(1, 29))
        n = [rng.choice([1, 1, 2, 3, 5]) for _ in range(k if rng.random() < 0.5 else 1)]
        s["time"] = {"kind": t, "n": n, "start": d.isoformat(), "end": (d + datetime.timedelta(days=rng.randrange(0, 6))).isoformat(), "year": y}
        if t == "only_start":
            s["time"]["start"] = datetime.date(y, 12, rng.randrange(27, 32)).isoformat()
        if t == "year" and s["outform"] == "default":
            s["outform"] = "rel"
        if t == "only_end":
            s["time"]["end"] = datetime.date(y, 1, rng.randrange(1, 6)).isoformat()
        s["par"] = rng.random() < 0.3
        s["fault"] = None
        if rng.random() < 0.5 and t != "year":
            s["fault"] = [c16.fault(rng) for _ in range(rng.choice([1, 1, 2]))]
            for f in s["fault"]:
                # most faults on the outputs, which come last
                if rng.random() < 0.8 and f["kind"] not in ("short",):
                    f["op"] = rng.choice(["write", "open-w", "write"])
            if i % 9 == 1:
                for f in s["fault"]:
                    f.update({"kind": "short", "op": rng.choice(["write", "read"])})
            elif rng.random() < 0.3:
                s["fault"] = []
                s["quota"] = round(rng.random() * 1.1, 4)
    s["env"] = G.env(rng, 0.3, par=s["par"], budget=50_000_000)
    s["env"]["clock"] = max(s["env"]["clock"], 4e8)
    return s


def valid(spec):
    if not spec["inputs"]:
        return False
    if spec["mode"] == "months":
        return len(spec["inputs"]) == 12 and all(len(u) and all(x["apps"] for x in u) and K.valid(u) for u in spec["inputs"]) and spec["pattern"] in PATTERNS and 1900 < spec["year"] < 2200 and spec["base"] in (0, 1) and spec["dir"] != "" and all("." in d and not d.endswith("xlsx") for d in spec["decoys"])
    for us in spec["inputs"]:
        if not us or any(not u["apps"] for u in us):
            return False
        if spec["stoch"]:
            if not c16.valid({"users": us, "old": None, "mode": "plain"}) or any(M.may_not_fit(a) for u in us for a in u["apps"]):
                return False
        elif not K.valid(us):
            return False
    t = spec["time"]
    if t["kind"] not in ("n", "n_start", "n_end", "both", "only_start", "only_end", "stdin", "year") or not t["n"] or min(t["n"]) < 1 or max(t["n"]) > 40 or len(t["n"]) > 12 or not 1970 <= t["year"] < 2200:
        return False
    try:
        a, b = datetime.date.fromisoformat(t["start"]), datetime.date.fromisoformat(t["end"])
    except ValueError:
        return False
    if not 0 <= (b - a).days < 40 and t["kind"] == "both" or t["kind"] == "only_start" and (a.month, a.day) < (12, 1) or t["kind"] == "only_end" and (b.month, b.day) > (1, 31):
        return False
    if spec["outform"] == "default" and t["kind"] == "year":
        return False
    if spec["fault"] is not None and not spec["fault"] and spec.get("quota") is None:
        return False
    return 1 <= spec["outs"] <= 4


# ------------------------------------------------------------------ expectations
def period(t, k):
    """(first days admitted, number of days) of input k"""
    one = datetime.timedelta(days=1)
    D = datetime.date.fromisoformat
    n = t["n"][0] if len(t["n"]) == 1 else t["n"][k]
    kind = t["kind"]
    if kind == "n_start":
        return D(t["start"]), n
    if kind == "n_end":
        return D(t["end"]) - (n - 1) * one, n
    if kind == "both":
        return D(t["start"]), (D(t["end"]) - D(t["start"])).days + 1
    if kind == "only_start":
        a = D(t["start"])
        return a, (datetime.date(a.year, 12, 31) - a).days + 1
    if kind == "only_end":
        b = D(t["end"])
        a = datetime.date(b.year, 1, 1)
        return a, (b - a).days + 1
    if kind == "year":
        a = datetime.date(t["year"], 1, 1)
        return a, (datetime.date(t["year"], 12, 31) - a).days + 1
    return None, n


def argv_time(t):
    k = t["kind"]
    out = []
    if k in ("n", "n_start", "n_end"):
        out += ["-n"] + [str(x) for x in t["n"]]
    if k in ("n_start", "both", "only_start"):
        out += ["--start-date", t["start"]]
    if k in ("n_end", "both", "only_end"):
        out += ["--end-date", t["end"]]
    if k == "year":
        out += ["-y", str(t["year"])]
    return out


def rows(path):
    """(labels, columns) of a csv file"""
    gc.collect()
    with disk.real_open(path, "r", newline="") as h:
        text = h.read()
    if not text.endswith("\n"):
        return None, "does not end with a complete row"
    lines = text.split("\n")[1:-1]
    lab, cols = [], None
    for l in lines:
        c = l.rstrip("\r").split(",")
        if cols is None:
            cols = [[] for _ in c[1:]]
        if len(c) != len(cols) + 1:
            return None, "row %d has %d fields" % (len(lab) + 1, len(c))
        lab.append(c[0])
        for x, v in zip(cols, c[1:]):
            x.append(float(v))
    return (lab, cols or []), None


def default_name(i):
    """what the results of an input are called when no output path is given"""
    return "output_file_%s.csv" % os.path.basename(i).replace(".", "_")


def command(argv):
    import ramp.cli

    old = sys.argv
    sys.argv = ["ramp"] + argv
    try:
        return ramp.cli.main()
    finally:
        sys.argv = old


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with disk.real_open(p, "rb") as h:
                out[p] = hash(h.read())
    return out


class Capture:
    """records what the generation returned"""

    def __enter__(self):
        import numpy as np
        from ramp import UseCase

        self.cls, self.real, self.got = UseCase, UseCase.generate_daily_load_profiles, []
        me = self

        def wrapper(uc, *a, **k):
            r = me.real(uc, *a, **k)
            me.got.append(np.array(r, dtype=float).ravel().copy())
            return r

        UseCase.generate_daily_load_profiles = wrapper
        return self

    def __exit__(self, *a):
        self.cls.generate_daily_load_profiles = self.real
        return False


def run(spec, ctx):
    # automatic collection is off, and writing long tables is slow on a large heap
    disk.state.collect = spec["mode"] == "months" or spec["time"]["kind"] == "year"
    if spec["par"]:
        ctx.hit("par")
    if spec["mode"] == "months":
        return months(spec, ctx)
    st = disk.state
    ins = []
    default = spec["outform"] == "default"
    dup = bool(spec["dup"]) and len(spec["inputs"]) > 1
    for k, us in enumerate(spec["inputs"]):
        name = "in%d" % k
        if default and dup and k < 2:
            # the default output path depends on the name of the input only
            os.makedirs("dir%d" % k)
            name = "dir%d/same" % k
        ctx.call(c16.new_usecase(M.build_users(us)).save, name)
        ins.append(name + ".xlsx")
    d = {"rel": "", "sub": "results/sub", "abs": os.path.join(ctx.work, "deep"), "default": os.path.join(ctx.work, "package")}[spec["outform"]]
    if d:
        os.makedirs(d, exist_ok=True)
    n_outs = len(ins) if default else spec["outs"]
    outs = [os.path.join(d, "out_%d.csv" % k) for k in range(n_outs)]
    if default:
        ctx.hit("default_output")
        st.redirect = (os.path.join(os.path.realpath(boot.REPO), "ramp", "results"), d)
        outs = [os.path.join(d, default_name(i)) for i in ins]
    elif dup and len(outs) > 1:
        outs[1] = os.path.join(d, ".", os.path.basename(outs[0]))
    else:
        dup = False
    if spec["pre"]:
        ctx.hit("overwrite")
        for o in outs:
            with disk.real_open(o, "w") as h:
                h.write(",0\n" + "".join("%d,77.0\n" % x for x in range(9000)))
    t = spec["time"]
    argv = ["-i"] + ins + (["-o"] + outs if not default else []) + argv_time(t) + (["-p"] if spec["par"] else [])
    mismatch = len(outs) != len(ins) or (t["kind"] in ("n", "n_start", "n_end") and len(t["n"]) not in (1, len(ins)))
    before = tree(ctx.work)
    allowed = {os.path.normpath(os.path.join(ctx.work, o)) for o in outs}
    ctx.hit("several", len(ins) > 1)
    ctx.hit(t["kind"])
    state = dict(stdin=[str(t["n"][0] if len(t["n"]) == 1 else t["n"][k % len(t["n"])]) for k in range(len(ins))] if t["kind"] == "stdin" else [])
    if t["kind"] == "stdin" and len(t["n"]) not in (1, len(ins)):
        t = dict(t, n=t["n"][:1])
        state["stdin"] = [str(t["n"][0])] * len(ins)

    def go():
        W.current.stdin = list(state["stdin"])
        a = datetime.datetime.fromtimestamp(W.current.clock).date()
        with Capture() as cap:
            command(argv)
        b = datetime.datetime.fromtimestamp(W.current.clock).date()
        return cap.got, a, b

    if dup and not mismatch:
        ctx.hit("duplicates")
        r = ctx.attempt(go)
        ctx.check(r[0] != "ok", "C18:overwritten", "command %s: the results of two inputs went to the same file, with success" % " ".join(argv))
        confined(ctx, before, allowed)
        return
    if mismatch:
        ctx.hit("mismatch")
        r = ctx.attempt(go)
        ctx.check(r[0] != "ok", "C18:mismatch", "%d inputs with %d outputs and %d day counts ended with success" % (len(ins), len(outs), len(t["n"])))
        confined(ctx, before, allowed)
        return
    if spec["fault"] is not None:
        def dry():
            st.arm()
            try:
                go()
            finally:
                points = st.disarm()
            return points, list(st.trace), st.used

        r = ctx.in_process(dry)
        if r[0] != "ok":
            ctx.fail("C18:exception", "command failed without any fault: %s" % (r[1:],))
        points, trace, used = r[1]
        for p in list(tree(ctx.work)):
            if p not in before:
                os.unlink(p)
        plan = c16.resolve({"faults": spec["fault"]}, points, trace)
        quota = int(spec["quota"] * used) if spec.get("quota") is not None else None
        ctx.hit("quota", quota is not None)
        ctx.hit("fault_run")
        crash = any(p["kind"].startswith("crash") for p in plan)

        def doit():
            st.arm(plan, quota)
            try:
                return go()
            finally:
                st.disarm()

        r = ctx.in_process(doit) if crash else ctx.attempt(doit)
        what = "command with %s: %s" % (plan or "quota %s of %s" % (quota, used), r[0])
        if r[0] == "ok":
            ctx.hit("fault_ok")
            verify(ctx, spec, t, outs, r[1], what)
        else:
            ctx.hit("fault_raised")
            if r[0] == "exc":
                ctx.check(bool(ctx.last_fired if crash else st.fired), "C18:exception", "%s failed without any fault: %s" % (what, r))
        confined(ctx, before, allowed)
    r = ctx.call(go)
    verify(ctx, spec, t, outs, r, "command " + " ".join(argv))
    confined(ctx, before, allowed)


def confined(ctx, before, allowed):
    after = tree(ctx.work)
    for p in sorted(set(before) | set(after)):
        if p in allowed:
            continue
        ctx.check(before.get(p) == after.get(p), "C18:write-elsewhere", "%s was %s" % (os.path.relpath(p, ctx.work), "removed" if p not in after else "changed" if p in before else "created"))


def verify(ctx, spec, t, outs, r, what):
    got, a, b = r
    for k, o in enumerate(outs):
        first, n = period(t, k)
        if not os.path.exists(o):
            ctx.fail("C18:missing", "%s: no output %s" % (what, o))
        x, bad = rows(o)
        if bad:
            ctx.fail("C18:incomplete", "%s: output %s %s" % (what, o, bad))
        lab, cols = x
        ctx.evals += 1
        if len(lab) != 1440 * n or len(cols) != 1:
            ctx.fail("C18:rows", "%s: output %s has %d rows of %d values, expected %d minutes" % (what, o, len(lab), len(cols), 1440 * n))
        if all(l.isdigit() for l in lab[:5]) and [int(l) for l in lab] != list(range(int(lab[0]), int(lab[0]) + len(lab))):
            ctx.fail("C18:order", "%s: rows of %s are not consecutive" % (what, o))
        v = cols[0]
        ctx.rec(len(v), sum(v))
        if len(got) == len(outs):
            ctx.hit("captured")
            g = [float(y) for y in got[k]]
            if g != v:
                m = next((i for i in range(min(len(g), len(v))) if g[i] != v[i]), -1)
                ctx.fail("C18:values", "%s: output %s differs from the generated profile in minute %d" % (what, o, m))
        if not spec["stoch"]:
            # the simulated clock moves while the workers run: any day of the command may be today
            firsts = [first] if first else [a + datetime.timedelta(days=x) for x in range((b - a).days + 1)][:400]
            for f in firsts:
                try:
                    for d in range(n):
                        dt = 1 if (f + datetime.timedelta(days=d)).weekday() > 4 else 0
                        K.check(ctx, spec["inputs"][k], d, dt, v[1440 * d:1440 * d + 1440])
                    break
                except BaseException:
                    if f == firsts[-1]:
                        raise
                    ctx.viol.clear()


def months(spec, ctx):
    st = disk.state
    ctx.hit("months")
    os.makedirs(spec["dir"])
    for k, us in enumerate(spec["inputs"]):
        if spec["drop"] and k == 5:
            continue
        ctx.call(c16.new_usecase(M.build_users(us)).save, os.path.join(spec["dir"], spec["pattern"] % (k + spec["base"])))
    for d in spec["decoys"]:
        with disk.real_open(os.path.join(spec["dir"], d), "w") as h:
            h.write("x")
    src = {"rel": spec["dir"], "slash": spec["dir"] + "/", "abs": os.path.join(ctx.work, spec["dir"]), "dot": "./" + spec["dir"]}[spec["form"]]
    out = {"res": "res", None: None, "abs": os.path.join(ctx.work, "yr"), "ready": "ready"}[spec["out"]]
    if out == "ready":
        os.mkdir("ready")
    argv = ["-i", src, "-y", str(spec["year"])] + (["-o", out] if out else []) + (["-p"] if spec["par"] else [])
    st.list_seed = spec["listing"]
    o = os.path.join(ctx.work, out or "")
    f1, f2 = os.path.join(o, "yearly_profile_min_resolution.csv"), os.path.join(o, "yearly_profile_hourly_resolution.csv")
    before = tree(ctx.work)
    if spec["drop"]:
        ctx.hit("wrong_count")
        r = ctx.attempt(command, argv)
        ctx.check(r[0] != "ok", "C18:wrong-count", "eleven monthly files were accepted for a year")
        confined(ctx, before, {f1, f2})
        return
    y = spec["year"]
    what = "command " + " ".join(argv).replace(ctx.work, "<work>")
    if spec["fault"]:
        # placed on the outputs alone: there are as many output operations as two large files need
        st.arm([dict({k: v for k, v in spec["fault"][0].items() if k != "pos"}, at=1 + int(spec["fault"][0]["pos"] * {"write": 1500, "open-w": 2, "close": 14}[spec["fault"][0]["op"]]))])
        r = ctx.attempt(command, argv)
        fired = bool(st.fired)
        st.disarm()
        ctx.hit("fault_run")
        if r[0] != "ok":
            ctx.hit("fault_raised")
            ctx.check(fired, "C18:exception", "%s failed without any fault: %s" % (what, r))
            confined(ctx, before, {f1, f2})
            return
        ctx.hit("fault_ok")
    else:
        ctx.call(command, argv)
    confined(ctx, before, {f1, f2})
    for f in (f1, f2):
        if not os.path.exists(f):
            ctx.fail("C18:missing", "%s: no %s" % (what, os.path.basename(f)))
    x, bad = rows(f1)
    if bad:
        ctx.fail("C18:incomplete", "%s: minute file %s" % (what, bad))
    lab, (v,) = x[0], x[1][:1]
    start = datetime.datetime(y, 1, 1)
    days = (datetime.datetime(y + 1, 1, 1) - start).days
    if len(lab) != 1440 * days:
        ctx.fail("C18:rows", "%s: %d rows for %d days" % (what, len(lab), days))
    ix = 0
    for d in range(days):
        day = start + datetime.timedelta(days=d)
        pre = day.strftime("%Y-%m-%d ")
        for h in range(24):
            for m in range(60):
                if lab[ix] != "%s%02d:%02d:00" % (pre, h, m):
                    ctx.fail("C18:order", "%s: row %d is labelled %r" % (what, ix, lab[ix]))
                ix += 1
        K.check(ctx, spec["inputs"][day.month - 1], (day - datetime.datetime(y, day.month, 1)).days, 1 if day.weekday() > 4 else 0, v[1440 * d:1440 * d + 1440])
    x, bad = rows(f2)
    if bad:
        ctx.fail("C18:incomplete", "%s: hourly file %s" % (what, bad))
    lab, cols = x
    with disk.real_open(f2) as h:
        head = h.readline().rstrip("\r\n").split(",")[1:]
    if len(lab) != 24 * days or sorted(head) != ["max", "mean", "min"]:
        ctx.fail("C18:rows", "%s: hourly file has %d rows of %s" % (what, len(lab), head))
    c = dict(zip(head, cols))
    for k in range(24 * days):
        w = v[60 * k:60 * k + 60]
        if lab[k] != (start + datetime.timedelta(hours=k)).strftime("%Y-%m-%d %H:%M:%S"):
            ctx.fail("C18:order", "%s: hourly row %d is labelled %r" % (what, k, lab[k]))
        if c["max"][k] != max(w) or c["min"][k] != min(w) or abs(c["mean"][k] - sum(w) / 60) > 1e-9 * (1 + abs(c["mean"][k])):
            ctx.fail("C18:hourly", "%s: hour %d has mean %s, max %s, min %s, expected %s, %s, %s" % (what, k, c["mean"][k], c["max"][k], c["min"][k], sum(w) / 60, max(w), min(w)))
    ctx.evals += 1
    ctx.rec(sum(v))
