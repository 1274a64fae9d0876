import os
import sys
from .. import disk, gen as G, inject, model as M
from .. import world as W
from . import c16

RUNS = {"quick": 230, "thorough": 60000}
RULE = ("Random models are written as python input files (legacy and current API, line endings, with or without a final newline, absolute / relative paths, odd directory names) on a simulated disk; histories of conversions through the API and the "
        "command line, editor changes of the line endings and of the model, with a disk error, full disk, torn write, interrupt, process crash or power loss (unsynced data gone) at every kind of I/O point of a conversion. After each step the "
        "input file is compared with what it held, and the spreadsheet with the users and appliances the file defines. Non-trivial: a conversion ran.")
PROBES = {"quick": ["legacy", "current", "crash", "power_loss", "fault", "interrupt", "repeat", "crlf", "no_final_newline", "absolute", "relative", "cli", "several", "edited", "faulted_ok", "faulted_raised", "anonymous", "keep_names_off", "quota",
                    "left_original", "left_converted"]}
KEEP = ("base",)
DIRS = [".", "sub", "sub/deep", "my.py.dir", "pyramid", "with space"]
VARS = ["U%d_app_%d", "U%d_app_%d", "_u%da%d", "u%d_lamp%d_", "__x%d_%d", "É%d_%d", "letters"]
LETTERS = "iajkxylabcd"
NAMES = ["model.py", "input_file.py", "model.v1.py", "my.pyfile.py", "village.py"]


def generate(rng, i, tier):
    mode = ["plain", "plain", "fault", "fault", "crash", "crash", "crash", "interrupt"][i % 8]
    files = []
    for k in range(rng.choice([1, 1, 2]) if mode == "plain" else 1):
        users = c16.model(rng, rng.choice([1, 1, 2]), names=False)
        for u in users:
            for a in u["apps"]:
                a["cycles"] = a["cycles"][:3]
                a["var"] = rng.random() < 0.85
        files.append({"users": users, "style": rng.choice(["legacy", "legacy", "legacy2", "current", "current2"]), "eol": rng.choice(["\n", "\n", "\r\n"]), "end": rng.choice(["\n", "", "# end", "\n\n\n", "\n    \n"]),
                      "dir": rng.choice(DIRS), "name": rng.choice(NAMES) if k == 0 else "second.py", "n0": rng.choice([1, 7]), "vars": rng.choice(VARS)})
    ops = []
    for _ in range(rng.randrange(1, 5)):
        k = rng.choice(["convert", "convert", "convert", "convert", "eol", "edit"])
        if k == "convert":
            ops.append([k, {"via": rng.choice(["api", "api", "cli"]), "abs": rng.random() < 0.4, "out": rng.choice([None, None, "out", "abs"]), "suffix": rng.choice(["", "", "_new", ".v2"]), "keep": rng.random() < 0.9}])
        elif k == "eol":
            ops.append([k, rng.choice(["\n", "\r\n"])])
        else:
            ops.append([k, rng.randrange(2, 40)])
    if not any(o[0] == "convert" for o in ops):
        ops.append(["convert", {"via": "api", "abs": False, "out": None, "suffix": "", "keep": True}])
    s = {"mode": mode, "files": files, "ops": ops, "env": G.env(rng, 0), "faults": [], "power": False, "victim": rng.randrange(9), "cutfrac": rng.choice([0.0, 0.0, 0.5, 0.97])}
    s["env"]["clock"] = max(s["env"]["clock"], 4e8)
    if mode in ("fault", "crash"):
        s["faults"] = [c16.fault(rng) for _ in range(rng.choice([1, 1, 2]))]
        for f in s["faults"]:
            # most I/O points belong to the spreadsheet: half of the faults aim at the first ones, which belong to the input file
            if rng.random() < 0.6:
                f["pos"] = ["abs", rng.randrange(1, 16)]
                f.pop("op", None)
            if mode == "fault" and f["kind"].startswith("crash"):
                f["kind"] = rng.choice(["EIO", "torn", "ENOSPC"])
            if mode == "crash":
                f["kind"] = rng.choice(["crash", "crash", "crash_torn"])
        s["power"] = mode == "crash" and rng.random() < 0.6
        if mode == "fault" and rng.random() < 0.25:
            s["faults"] = []
            s["quota"] = round(rng.random() ** 2, 4)
    elif mode == "interrupt":
        s["line"] = [round(rng.random() ** 2, 5), rng.choice(["KeyboardInterrupt", "MemoryError"])]
    return s


def valid(spec):
    if not spec["files"] or not any(o[0] == "convert" for o in spec["ops"]):
        return False
    for f in spec["files"]:
        if not c16.valid({"users": f["users"], "old": None, "mode": "plain"}) or f["dir"] not in DIRS or not f["name"].endswith(".py") or f["eol"] not in ("\n", "\r\n") or f["n0"] < 1 or f["vars"] not in VARS or sum(len(u["apps"]) for u in f["users"]) > 22:
            return False
        if f["style"] not in ("legacy", "legacy2", "current", "current2") or f["end"] not in ("\n", "", "# end", "\n\n\n", "\n    \n"):
            return False
    if len({os.path.join(f["dir"], f["name"]) for f in spec["files"]}) != len(spec["files"]) or len({f["name"] for f in spec["files"]}) != len(spec["files"]):
        return False
    for o in spec["ops"]:
        if o[0] == "convert":
            if not isinstance(o[1], dict) or set(o[1]) != {"via", "abs", "out", "suffix", "keep"}:
                return False
        elif o[0] == "eol" and o[1] not in ("\n", "\r\n") or o[0] == "edit" and o[1] < 1:
            return False
    for f in spec["faults"]:
        p = f["pos"]
        if isinstance(p, list) and (len(p) != 2 or p[0] != "abs" or p[1] < 1):
            return False
    return spec["mode"] == "plain" or bool(spec["faults"] or spec.get("quota") is not None or spec.get("line"))


# ------------------------------------------------------------------ the input file
def lit(p):
    if isinstance(p, dict):
        return "pd.DataFrame(%r)" % (M.series(p),)
    return repr(p)


def source(f):
    """the text of an input file and the name of the variable of each appliance (None: it has none)"""
    L = ["# -*- coding: utf-8 -*-", '"""', "Input data definition, not from core imports", '"""', ""]
    st = f["style"]
    if st == "legacy":
        L += ["from core import User, np"]
    elif st == "legacy2":
        L += ["from core import User", "from core import np", "import numpy"]
    elif st == "current":
        L += ["from ramp.core.core import User", "import numpy as np"]
    else:
        L += ["from ramp import User", "import numpy as np"]
    L += ["import pandas as pd", "", "User_list = []", "N0 = %d" % f["n0"], ""]
    names = []
    legacy = st.startswith("legacy")
    for k, u in enumerate(f["users"]):
        uv = "USER_%d" % k
        L.append("%s = User(%r, %s, %d)" % (uv, u["name"], "N0" if k == 0 else u["n"], u["pref"]))
        L.append("User_list.append(%s)" % uv)
        for j, a in enumerate(u["apps"]):
            v = f["vars"] % (k, j) if f["vars"] != "letters" else (LETTERS * 2)[len(names)] + ("" if len(names) < 11 else "_2")
            names.append(v if a["var"] else None)
            if not a["var"]:
                v = "User_list[-1].App_list[-1]"
            n = len(a["cycles"])
            if legacy and a["cont"] == 1:
                call = "%s.Appliance(%d, %s, %d, %d, %r, %d, %r, fixed_cycle=%d, occasional_use=%r, flat=%r, thermal_P_var=%r, pref_index=%d, wd_we_type=%d, name=%r)" % (
                    uv, a["number"], lit(a["power"]), len(a["windows"]), a["ft"], a["v"], a["fc"], a["fixed"], n, a["occ"], a["flat"], a["th"], a["pref"], a["wd"], a["name"])
            else:
                call = ("%s.add_appliance(number=%d, power=%s, num_windows=%d, func_time=%d, time_fraction_random_variability=%r, func_cycle=%d, fixed=%r, fixed_cycle=%d, continuous_duty_cycle=%d, occasional_use=%r, flat=%r, "
                        "thermal_p_var=%r, pref_index=%d, wd_we_type=%d, name=%r)") % (
                    uv, a["number"], lit(a["power"]), len(a["windows"]), a["ft"], a["v"], a["fc"], a["fixed"], n, a["cont"], a["occ"], a["flat"], a["th"], a["pref"], a["wd"], a["name"])
            L.append(("%s = %s" % (v, call)) if a["var"] else call)
            L.append("%s.windows(%s, random_var_w=%r)" % (v, ", ".join("window_%d=%r" % (x + 1, w) for x, w in enumerate(a["windows"])), a["rvw"]))
            for x, c in enumerate(a["cycles"]):
                L.append("%s.specific_cycle_%d(%r, %r, %r, %r, %r)" % (v, x + 1, c["p1"], c["t1"], c["p2"], c["t2"], c["r"]))
            cws = ["cw%d%d=%r" % (x + 1, y + 1, w) for x, c in enumerate(a["cycles"]) for y, w in enumerate(c["cws"])]
            if cws:
                L.append("%s.cycle_behaviour(%s)" % (v, ", ".join(cws)))
        L.append("")
    text = "\n".join(L)
    text = text.rstrip("\n") + "\n" + f["end"] if f["end"] else text.rstrip("\n")
    return text.replace("\n", f["eol"]), names


def adapted(text):
    return text.replace("from core import", "from ramp.core.core import")


def read(path):
    with disk.real_open(path, "rb") as h:
        return h.read().decode()


def write(path, text):
    with disk.real_open(path, "wb") as h:
        h.write(text.encode())


class File:
    def __init__(self, f, ctx):
        self.f = f
        self.dir = f["dir"]
        os.makedirs(self.dir, exist_ok=True)
        self.rel = os.path.join(f["dir"], f["name"]) if f["dir"] != "." else f["name"]
        self.abs = os.path.join(ctx.work, self.rel)
        text, self.vars = source(f)
        write(self.abs, text)
        self.n0 = f["n0"]
        self.named = False

    def want(self, named):
        cfg = [dict(u, apps=[dict(a) for a in u["apps"]]) for u in self.f["users"]]
        cfg[0]["n"] = self.n0
        it = iter(self.vars)
        for u in cfg:
            for a in u["apps"]:
                v = next(it)
                a["api"] = "cycle_behaviour"  # the calls the input file is made of
                if v and named:
                    a["name"] = v
        return c16.describe(M.build_users(cfg))


def perform(op, files, ctx):
    """the conversion itself, as a user does it"""
    from ramp import ramp_py2xlsx
    from ramp.ramp_convert_old_input_files import cli

    out = {None: None, "out": "out", "abs": os.path.join(ctx.work, "o", "p")}[op["out"]]
    paths = [f.abs if op["abs"] else f.rel for f in files]
    if op["via"] == "cli":
        argv = sys.argv
        sys.argv = ["ramp_convert", "-i"] + paths + (["-o", out] if out else []) + (["--suffix", op["suffix"]] if op["suffix"] else [])
        try:
            cli()
        finally:
            sys.argv = argv
    else:
        for p in paths:
            ramp_py2xlsx(p, output_path=out, suffix=op["suffix"], keep_names=op["keep"])


def xlsx(op, f, ctx):
    base = f.f["name"][:-3] + op["suffix"] + ".xlsx"
    d = {None: f.dir, "out": "out", "abs": os.path.join(ctx.work, "o", "p")}[op["out"]]
    return os.path.join(ctx.work, d, base)


def run(spec, ctx):
    st = disk.state
    files = [File(f, ctx) for f in spec["files"]]
    os.makedirs("out", exist_ok=True)
    os.makedirs(os.path.join("o", "p"), exist_ok=True)
    for f in files:
        ctx.hit("legacy" if f.f["style"].startswith("legacy") else "current")
        if f.f["eol"] == "\r\n":
            ctx.hit("crlf")
        if not read(f.abs).endswith("\n"):
            ctx.hit("no_final_newline")
        if any(v is None for v in f.vars):
            ctx.hit("anonymous")
    if len(files) > 1:
        ctx.hit("several")
    converts = [i for i, o in enumerate(spec["ops"]) if o[0] == "convert"]
    victim = converts[spec["victim"] % len(converts)]
    done = 0
    for i, (kind, arg) in enumerate(spec["ops"]):
        if kind == "eol":
            for f in files:
                write(f.abs, read(f.abs).replace("\r\n", "\n").replace("\n", arg))
            if done:
                ctx.hit("edited")
            continue
        if kind == "edit":
            for f in files:
                write(f.abs, read(f.abs).replace("N0 = %d" % f.n0, "N0 = %d" % arg, 1))
                f.n0 = arg
            if done:
                ctx.hit("edited")
            continue
        if done:
            ctx.hit("repeat")
        ctx.hit("absolute" if arg["abs"] else "relative")
        if arg["via"] == "cli":
            ctx.hit("cli")
        if i == victim and spec["mode"] != "plain":
            disturbed(spec, ctx, arg, files)
        convert(ctx, arg, files)
        done += 1
    ctx.rec(*[read(f.abs) for f in files])


def convert(ctx, op, files):
    """an undisturbed conversion and its checks"""
    before = [read(f.abs) for f in files]
    keep = op["keep"] or op["via"] == "cli"
    if not keep:
        ctx.hit("keep_names_off")
    ctx.call(perform, op, files, ctx)
    for f, b in zip(files, before):
        after = read(f.abs)
        if f.named:
            ctx.check(after == b, "C17:not-idempotent", "converting a converted input file again changed it: %s" % tail(b, after))
        else:
            ctx.check(after == adapted(b) if not keep else after.startswith(adapted(b)), "C17:input-lost", "the conversion lost or changed lines of the input file: %s" % tail(adapted(b), after))
        f.named = f.named or keep
        result(ctx, op, f, "converted")


def result(ctx, op, f, what):
    want = f.want(f.named)
    r = ctx.attempt(lambda: c16.describe(c16.load(xlsx(op, f, ctx)).users))
    if ctx.check(r[0] == "ok", "C17:no-spreadsheet", "%s: the spreadsheet cannot be loaded: %s" % (what, r[1:])):
        d = c16.compare(r[1], want)
        ctx.check(d is None, "C17:spreadsheet", "%s: %s" % (what, d))


def tail(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "at %d of %d/%d: %r became %r" % (i, len(a), len(b), a[i:i + 60], b[i:i + 60])


def disturbed(spec, ctx, op, files):
    """the same conversion with faults; leaves the input file as the faults left it"""
    st = disk.state
    f = files[0]
    keep = op["keep"] or op["via"] == "cli"
    c0 = read(f.abs)
    out = xlsx(op, f, ctx)
    had = disk.real_open(out, "rb").read() if os.path.exists(out) else None
    # fault-free execution in a process of its own: its I/O points and its result
    lines = inject.Lines()

    def dry():
        st.arm()
        n = 0
        try:
            if spec["mode"] == "interrupt":
                with lines:
                    perform(op, files, ctx)
                n = lines.n
            else:
                perform(op, files, ctx)
        finally:
            points = st.disarm()
        return points, list(st.trace), st.used, n

    r = ctx.in_process(dry)
    if r[0] != "ok":
        ctx.fail("C17:exception", "conversion failed without any fault: %s" % (r[1:],))
    points, trace, used, nlines = r[1]
    ref = read(f.abs)
    # back to the state before
    write(f.abs, c0)
    if had is None:
        os.unlink(out)
    else:
        with disk.real_open(out, "wb") as h:
            h.write(had)
    plan = []
    for x in spec["faults"]:
        g = {k: v for k, v in x.items() if k != "pos"}
        n = sum(1 for o in trace if o.startswith(x["op"])) if "op" in x else points
        g["at"] = min(x["pos"][1], points) if isinstance(x["pos"], list) else 1 + int(x["pos"] * max(1, n))
        plan.append(g)
    quota = int(spec["quota"] * used) if spec.get("quota") is not None else None
    if quota is not None:
        ctx.hit("quota")
    ctx.hit(spec["mode"])
    if spec["power"]:
        ctx.hit("power_loss")

    def lose():
        for p in sorted(st.unsynced):
            if os.path.isfile(p):
                n = os.path.getsize(p)
                disk.real["truncate"](p, int(n * spec["cutfrac"]))

    def doit():
        st.unsynced = {}
        if spec["power"]:
            st.on_crash = lose
        line = None
        if spec["mode"] == "interrupt":
            line = inject.Lines(1 + int(spec["line"][0] * nlines), spec["line"][1])
        st.arm(plan, quota)
        try:
            if line:
                with line:
                    perform(op, files, ctx)
            else:
                perform(op, files, ctx)
        finally:
            st.disarm()
        if spec["mode"] == "crash" and spec["power"] and not st.fired:
            disk.crash()  # power goes right after the conversion

    r = ctx.in_process(doit)
    if r[0] == "crash" and spec["power"]:
        W.current.fault("power_loss")
    after = read(f.abs) if os.path.exists(f.abs) else None
    what = "conversion with %s: %s" % (plan or (spec.get("line") or "quota %s" % quota), r[:2])
    if after is None:
        ctx.fail("C17:input-gone", "%s: the input file is gone" % what)
    ok = after in (c0, adapted(c0), ref)
    ctx.hit("left_original" if after == c0 else "left_converted")
    if not ctx.check(ok, "C17:input-damaged", "%s left the input file damaged: %s" % (what, tail(ref, after))):
        write(f.abs, c0)
        after = c0
    if r[0] == "ok":
        ctx.hit("faulted_ok")
        named = f.named
        f.named = f.named or keep
        result(ctx, op, f, what)
        f.named = named
    elif r[0] == "exc":
        ctx.hit("faulted_raised")
    # named as soon as the block is there
    if keep and after == ref:
        f.named = True
