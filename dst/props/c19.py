import datetime
import os
from .. import boot, disk, gen as G, model as M
from .. import world as W
from . import c16, c18

RUNS = {"quick": 520, "thorough": 60000}
RULE = ("Result tables (generated cases and synthetic ones of any length, resolution, column names and magnitude) are exported to csv (any separator) or spreadsheet and read back, the example files are copied and the example data loaded, on a simulated "
        "disk with errors, short or torn transfers, a full disk or a crash at every kind of I/O point of the export, the copy or the read. Non-trivial: a table or an example file went through the disk.")
PROBES = {"quick": ["csv", "xlsx", "simulated", "sep", "examples", "load_data", "read_fault", "write_fault", "copy_fault", "crash", "ok_despite_fault", "raised", "overwrite", "missing_dir", "quota", "index", "near_copy"]}
KEEP = ("base",)
FILES = ["input_file_1.py", "input_file_2.py", "input_file_3.py", "shower_P.csv", "daily_T.csv", "T_gw.csv"]
COLS = ["case 1", "Mean", "a;b", "a,b", "q'x", "Kühlung", "100%", "low/high", "c1", "c2", "c3"]


def fault(rng):
    f = c16.fault(rng)
    if f.get("op") == "open":
        f["op"] = rng.choice(["open-w", "open-r"])
    return f


def generate(rng, i, tier):
    what = ["csv", "csv", "xlsx", "examples", "examples", "load_data", "csv", "xlsx"][i % 8]
    s = {"what": what, "env": G.env(rng, 0.3), "fault": None, "side": rng.choice(["write", "write", "read"]), "pre": rng.random() < 0.4, "dest": rng.choice(["rel", "abs", "slash", "deep"])}
    s["env"]["clock"] = max(s["env"]["clock"], 4e8)
    if what in ("csv", "xlsx"):
        k = rng.choice([1, 2, 3])
        big = what == "csv"
        s["table"] = {"kind": rng.choice(["sim", "table", "table"]) if big else "table", "rows": rng.choice([1, 2, 24, 60, 1440, 3000] if big else [1, 2, 24, 60, 200]), "freq": rng.choice(["min", "min", "h", "15min", "D"]),
                      "start": G.date(rng), "cols": rng.sample(COLS, k), "mag": rng.choice([0, 1, 1000.0, 1e9, 1e-6]), "digits": rng.choice([0, 1, 6, 17]), "seed": rng.randrange(1 << 20)}
        if not big and rng.random() < 0.1:
            s["table"]["rows"] = 1440
        s["sep"] = rng.choice([",", ",", ";", "\t", "|"])
        s["index"] = rng.random() < 0.15
    if rng.random() < 0.75:
        s["fault"] = [fault(rng) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.2:
            for f in s["fault"]:
                f["kind"] = "short"
                f["op"] = rng.choice(["read", "write"])
        if rng.random() < 0.15:
            s["fault"] = []
            s["side"] = "write"
            s["quota"] = round(rng.random() * 1.05, 4)
    if what == "load_data":
        s["side"] = "read"
    return s


def valid(spec):
    if spec["what"] in ("csv", "xlsx"):
        t = spec["table"]
        if t["rows"] < 1 or not t["cols"] or len(set(t["cols"])) != len(t["cols"]) or any(c not in COLS for c in t["cols"]) or t["freq"] not in ("min", "h", "15min", "D") or spec["sep"] not in (",", ";", "\t", "|"):
            return False
        try:
            datetime.date.fromisoformat(t["start"])
        except ValueError:
            return False
    return spec["fault"] is None or bool(spec["fault"]) or spec.get("quota") is not None


def table(spec, ctx):
    import numpy as np
    import pandas as pd
    from ramp.post_process.post_process import Plot

    t = spec["table"]
    if t["kind"] == "sim":
        from ramp import UseCase

        ctx.hit("simulated")
        us = M.build_users([M.user("u", 2, 0, [M.app("a", 2, 33.3, 600, 5, 0.2, [[0, 1440]], 0.1, "no", th=0.3)])])
        uc = ctx.call(UseCase, users=us, date_start=t["start"], date_end=t["start"])
        return ctx.call(uc.generate_daily_load_profiles, cases=t["cols"])
    r = W.prng("table", t["seed"])
    data = {c: [round(r.random() * t["mag"], t["digits"]) for _ in range(t["rows"])] for c in t["cols"]}
    return Plot(pd.DataFrame(data, index=pd.date_range(t["start"], periods=t["rows"], freq=t["freq"])))


def content(plot):
    """(minutes, cases, values)"""
    df = plot.DataFrame
    return [str(x) for x in df.index], [str(c) for c in df.columns], [[float(v) for v in df[c]] for c in df.columns]


def differs(a, b):
    if a[0] != b[0]:
        k = next((i for i, (x, y) in enumerate(zip(a[0], b[0])) if x != y), min(len(a[0]), len(b[0])))
        return "%d minutes, expected %d (first difference in row %d: %s, expected %s)" % (len(a[0]), len(b[0]), k, a[0][k:k + 1], b[0][k:k + 1])
    if a[1] != b[1]:
        return "cases %s, expected %s" % (a[1], b[1])
    for c, x, y in zip(b[1], a[2], b[2]):
        for k, (p, q) in enumerate(zip(x, y)):
            if not c16.same(p, q) and not (p != p and q != q):
                return "case %s row %d: %s, expected %s" % (c, k, p, q)
    return None


def run(spec, ctx):
    if spec["what"] in ("csv", "xlsx"):
        tables(spec, ctx)
    elif spec["what"] == "examples":
        examples(spec, ctx)
    else:
        load_data(spec, ctx)


def disturbed(spec, ctx, fn, undo=lambda: None):
    """runs fn with the faults of the spec: (outcome, text, whether a fault happened)"""
    st = disk.state

    def dry():
        st.arm()
        try:
            fn()
        finally:
            n = st.disarm()
        return n, list(st.trace), st.used

    r = ctx.in_process(dry)
    if r[0] != "ok":
        ctx.fail("C19:exception", "failed without any fault: %s" % (r[1:],))
    undo()
    points, trace, used = r[1]
    plan = c16.resolve({"faults": spec["fault"]}, points, trace)
    quota = int(spec["quota"] * used) if spec.get("quota") is not None else None
    ctx.hit("quota", quota is not None)
    crash = any(p["kind"].startswith("crash") for p in plan)

    def doit():
        st.arm(plan, quota)
        try:
            return fn()
        finally:
            st.disarm()

    r = ctx.in_process(doit) if crash else ctx.attempt(doit)
    ctx.hit("crash", r[0] == "crash")
    fired = r[0] == "crash" or bool(ctx.last_fired if crash else st.fired)
    text = "%s: %s" % (plan or "disk full after %s of %s bytes" % (quota, used), "the process died" if r[0] == "crash" else "returned" if r[0] == "ok" else "raised " + r[1])
    if r[0] == "exc":
        ctx.check(fired, "C19:exception", "failed without any fault: %s" % (r[1:],))
    ctx.hit("ok_despite_fault" if r[0] == "ok" and fired else "raised" if r[0] == "exc" else "undisturbed", fired)
    return r, text


def tables(spec, ctx):
    from ramp.post_process.post_process import Plot
    import pandas as pd

    ctx.hit(spec["what"])
    p = table(spec, ctx)
    want = content(p)
    ext = spec["what"]
    d = {"rel": "", "abs": os.path.join(ctx.work, "d"), "slash": "./d", "deep": "d/e"}[spec["dest"]]
    if d:
        os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "result." + ext)
    sep = spec["sep"] if ext == "csv" else ","
    ctx.hit("sep", sep != ",")
    kw = {"sep": sep} if sep != "," else {}

    def export():
        if ext == "csv":
            p.to_csv(f, **kw)
        else:
            p.to_excel(f)

    def back():
        return content(Plot.from_file(f, **kw))

    old = None
    if spec["pre"]:
        ctx.hit("overwrite")
        o = Plot(pd.DataFrame({"old": [5.0] * 2000 if ext == "csv" else [5.0] * 300}, index=pd.date_range("2001-01-01", periods=2000 if ext == "csv" else 300, freq="min")))
        q = p
        p = o
        export()
        p = q
        old = content(o)
    before = c18.tree(ctx.work)
    allowed = {os.path.normpath(os.path.join(ctx.work, f))}

    def same(r, what):
        if ctx.check(r[0] == "ok", "C19:unreadable", "%s: reading the file raised %s" % (what, r[1:])):
            x = differs(r[1], want)
            ctx.check(x is None, "C19:differs", "%s: %s" % (what, x))

    if spec["fault"] is not None and spec["side"] == "write":
        ctx.hit("write_fault")
        keep = disk.real_open(f, "rb").read() if os.path.exists(f) else None

        def undo():
            if keep is None:
                os.unlink(f)
            else:
                with disk.real_open(f, "wb") as h:
                    h.write(keep)

        r, text = disturbed(spec, ctx, export, undo)
        if r[0] == "ok":
            same(ctx.attempt(back), "export with " + text)
        elif ext == "xlsx" and os.path.exists(f):
            x = ctx.attempt(back)
            if x[0] == "ok":
                ctx.check(differs(x[1], want) is None or old is not None and differs(x[1], old) is None, "C19:torn", "export with %s: the incomplete spreadsheet is read as other results: %s" % (text, differs(x[1], want)))
        c18_confined(ctx, before, allowed)
    ctx.call(export)
    same(ctx.attempt(back), "export")
    x = differs(content(p), want)
    ctx.check(x is None, "C19:memory", "exporting changed the results: %s" % x)
    if spec["index"]:
        ctx.hit("index")
        ix = pd.date_range("2031-05-05", periods=len(want[0]), freq="min")
        r = ctx.attempt(lambda: content(Plot.from_file(f, index=ix, **kw)))
        if ctx.check(r[0] == "ok", "C19:unreadable", "reading with another index raised %s" % (r[1:],)):
            x = differs(r[1], ([str(t) for t in ix], want[1], want[2]))
            ctx.check(x is None, "C19:differs", "read with another index: %s" % x)
    if spec["fault"] is not None and spec["side"] == "read":
        ctx.hit("read_fault")
        r, text = disturbed(spec, ctx, back)
        if r[0] == "ok":
            same(r, "read with " + text)
        same(ctx.attempt(back), "read again after " + text)
    c18_confined(ctx, before, allowed)
    ctx.rec(repr(want)[:3000])


def c18_confined(ctx, before, allowed):
    after = c18.tree(ctx.work)
    for p in sorted(set(before) | set(after)):
        if p not in allowed:
            ctx.check(before.get(p) == after.get(p), "C19:write-elsewhere", "%s was %s" % (os.path.relpath(p, ctx.work), "removed" if p not in after else "changed" if p in before else "created"))


def sources():
    out = {}
    for f in FILES:
        with disk.real_open(os.path.join(boot.REPO, "ramp", "example", f), "rb") as h:
            out[f] = h.read()
    return out


def examples(spec, ctx):
    from ramp import download_example

    ctx.hit("examples")
    st = disk.state
    src = sources()
    d = {"rel": "ex", "abs": os.path.join(ctx.work, "ex"), "slash": "ex/", "deep": "a/b/ex"}[spec["dest"]]
    st.watch = os.path.join(boot.REPO, "ramp", "example") + os.sep
    r = ctx.attempt(download_example, d)
    ctx.hit("missing_dir")
    if r[0] == "ok":
        complete(ctx, d, src, "copy into a directory which did not exist")
    os.makedirs(d, exist_ok=True)
    keep = {}
    if spec["pre"]:
        ctx.hit("overwrite")
        for f in FILES[:4]:
            with disk.real_open(os.path.join(d, f), "wb") as h:
                h.write(b"# old\n" * 50000)
        keep = c18.tree(ctx.work)
    allowed = {os.path.join(ctx.work, os.path.normpath(d), f) for f in src}
    before = c18.tree(ctx.work)
    if spec["fault"] is not None:
        ctx.hit("copy_fault")

        def undo():
            for f in FILES:
                p = os.path.join(d, f)
                if spec["pre"] and f in FILES[:4]:
                    with disk.real_open(p, "wb") as h:
                        h.write(b"# old\n" * 50000)
                elif os.path.exists(p):
                    os.unlink(p)

        r, text = disturbed(spec, ctx, lambda: download_example(d), undo)
        if r[0] == "ok":
            complete(ctx, d, src, "copy with " + text)
        c18_confined(ctx, before, allowed)
    ctx.call(download_example, d)
    complete(ctx, d, src, "copy")
    c18_confined(ctx, before, allowed)
    ctx.check(sources() == src, "C19:examples-changed", "the example files of the package changed")


def complete(ctx, d, src, what):
    for f, data in src.items():
        p = os.path.join(d, f)
        if not os.path.exists(p):
            ctx.check(False, "C19:example-missing", "%s: %s is missing" % (what, f))
            continue
        with disk.real_open(p, "rb") as h:
            got = h.read()
        ctx.check(got == data, "C19:example-differs", "%s: %s has %d bytes, expected %d" % (what, f, len(got), len(data)))


def load_data(spec, ctx):
    from ramp import load_data as load

    ctx.hit("load_data")
    st = disk.state
    st.watch = os.path.join(boot.REPO, "ramp", "example") + os.sep
    with disk.real_open(os.path.join(boot.REPO, "ramp", "example", "shower_P.csv")) as h:
        lines = h.read().split("\n")
    want = [[float(v) for v in l.split(",")] for l in lines[1:] if l]

    def get():
        df = load("shower")
        return [[float(v) for v in row] for row in df.to_numpy()]

    def same(r, what):
        if ctx.check(r[0] == "ok", "C19:exception", "%s raised %s" % (what, r[1:])):
            ok = len(r[1]) == len(want) and all(c16.same(a, b) for a, b in zip(r[1], want))
            ctx.check(ok, "C19:differs", "%s: %d rows of example data, expected %d" % (what, len(r[1]), len(want)))

    same(ctx.attempt(get), "load_data")
    # with an example directory, complete or not, around
    d = {"rel": ".", "abs": os.path.join(ctx.work, "ex"), "slash": "ex", "deep": "a/b"}[spec["dest"]]
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    if spec["pre"]:
        ctx.hit("near_copy")
        from ramp import download_example

        ctx.call(download_example, ".")
        with disk.real_open("shower_P.csv", "r+") as h:
            h.truncate(600)
        same(ctx.attempt(get), "load_data beside a truncated copy")
    if spec["fault"] is not None:
        r, text = disturbed(spec, ctx, get)
        if r[0] == "ok":
            same(r, "load_data with " + text)
        same(ctx.attempt(get), "load_data again")
