import os
import numpy as np
from .. import disk, gen as G, model as M, snap
from .. import world as W

RUNS = {"quick": 320, "thorough": 60000}
RULE = ("Random use cases and single users are saved to and loaded from spreadsheets on a simulated disk: without faults (definitions, daily powers, theoretical maximum and a generated day compared with the original), with optional cells "
        "emptied, with the documented forms of a daily power series, and with a fault (error, short, torn, full disk, process crash) at every kind of I/O point of the save or the load, or with the file truncated, zeroed or bit-flipped. "
        "Non-trivial: a model went through a file.")
PROBES = {"quick": ["plain", "save_user", "blank", "series_json", "series_cells", "series_stamped", "save_fault", "save_crash", "save_quota", "load_fault", "damage", "overwrite", "unnamed", "faulted_save_ok", "faulted_save_raised",
                    "damaged_refused", "damaged_same", "behaviour", "replaced"]}
KEEP = ("base",)

PARAMS = ("name", "number", "num_windows", "func_time", "time_fraction_random_variability", "func_cycle", "fixed", "fixed_cycle", "continuous_duty_cycle", "occasional_use", "flat",
          "thermal_p_var", "pref_index", "wd_we_type", "random_var_w", "window_1", "window_2", "window_3", "p_11", "t_11", "cw11", "p_12", "t_12", "cw12", "r_c1",
          "p_21", "t_21", "cw21", "p_22", "t_22", "cw22", "r_c2", "p_31", "t_31", "cw31", "p_32", "t_32", "cw32", "r_c3")
KINDS = ["EIO", "EIO", "ENOSPC", "EACCES", "short", "torn", "crash", "crash_torn"]
BLANKS = {"number": 1, "time_fraction_random_variability": 0, "func_cycle": 1, "fixed": "no", "continuous_duty_cycle": 1, "occasional_use": 1, "thermal_p_var": 0, "wd_we_type": 2, "name": "", "random_var_w": 0,
          "power": 0, "r_c1": 0, "pref_index": 0, "flat": "no", "num_users": 1, "user_preference": 0}
KEYS = {"number": "number", "time_fraction_random_variability": "v", "func_cycle": "fc", "fixed": "fixed", "continuous_duty_cycle": "cont", "occasional_use": "occ", "thermal_p_var": "th", "wd_we_type": "wd", "name": "name",
        "random_var_w": "rvw", "power": "power", "pref_index": "pref", "flat": "flat"}


def model(rng, n=None, names=True):
    users = []
    for k in range(n or rng.choice([1, 1, 2, 3])):
        apps = []
        for j in range(rng.choice([1, 1, 2, 3, 4])):
            kind = rng.choice(["plain", "plain", "flat", "cs", "cs", "ca", "none"])
            name = "a%d" % j
            if kind == "flat":
                a = G.flat(rng, name)
            elif kind == "cs":
                a = G.cycles_strict(rng, name)
            elif kind == "ca":
                a = G.cycles_any(rng, name)
            else:
                a = G.plain(rng, name)
            if rng.random() < 0.3:
                a["power"] = rng.choice([G.series(rng), {"values": [round(rng.random() * 3000, rng.choice([0, 1, 6])) for _ in range(366)]},
                                         {"values": [5.0] * 365 + [6.0]}, {"values": [6.0] + [5.0] * 365}, {"values": [1.0, 2.0] * 183}, {"values": [0.0, 3.0] + [0.0] * 364}])
            a["occ"] = rng.choice([1, 1, 0.5, 0.33, 0])
            a["wd"] = rng.choice([0, 1, 2])
            a["pref"] = rng.choice([0, 1, 2, 3])
            if names and rng.random() < 0.3:
                a["name"] = rng.choice(["Indoor bulb", "Kühlschrank", "TV & DVD", "a'b\"c", "=x", "007", "0.5", "nan", "True", " lead", "", "None", "a<b>", "line\nbreak", "[1, 2]", "1e5"]) + rng.choice(["", str(j)])
            apps.append(a)
        seen = set()
        for a in apps:
            while a["name"] in seen:
                a["name"] += "_"
            seen.add(a["name"])
        users.append(M.user("u%d" % k, rng.choice([1, 2, 50]), rng.choice([0, 1, 2, 3]), apps))
    if names and rng.random() < 0.3:
        users[0]["name"] = rng.choice(["", "Haushalt Ö", "12", "nan", "A B", "None", "x=y"])
    return users


def fault(rng):
    k = rng.choice(KINDS)
    f = {"kind": k, "pos": round(rng.random(), 4), "frac": rng.choice([0.0, 0.3, 0.5, 0.99])}
    if rng.random() < 0.35:
        f["op"] = rng.choice(["open", "write", "close", "write"])
    if k == "ENOSPC" and rng.random() < 0.5:
        f["persistent"] = True
    return f


def generate(rng, i, tier):
    mode = ["plain", "plain", "blank", "series", "save_fault", "save_fault", "save_crash", "load_fault", "damage", "damage"][i % 10]
    s = {"mode": mode, "users": model(rng), "env": G.env(rng, 0.4), "where": rng.choice(["m", "m", "sub/m", "abs", "my.model v2"]), "user_save": rng.random() < 0.25, "old": None, "faults": [], "n": rng.choice([0, 1, 400])}
    s["env"]["clock"] = max(s["env"]["clock"], 4e8)
    if mode == "blank":
        s["user_save"] = False
        s["blanks"] = [[rng.choice(sorted(BLANKS)), rng.randrange(99), rng.random() < 0.3] for _ in range(rng.randrange(1, 6))]
    elif mode == "series":
        s["user_save"] = False
        s["forms"] = [[rng.choice(["json", "json2", "cells", "cells2"]), rng.randrange(99), rng.choice([1, 5]), rng.choice(["ts", "other sheet"])] for _ in range(rng.choice([1, 1, 2]))]
    elif mode == "plain":
        if rng.random() < 0.4:
            s["old"] = model(rng)
    elif mode in ("save_fault", "save_crash"):
        s["faults"] = [fault(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
        for f in s["faults"]:
            if mode == "save_fault" and f["kind"].startswith("crash"):
                f["kind"] = rng.choice(["EIO", "torn"])
            if mode == "save_crash" and rng.random() < 0.8:
                f["kind"] = rng.choice(["crash", "crash_torn"])
        if mode == "save_fault" and rng.random() < 0.35:
            s["faults"] = []
            s["quota"] = round(rng.random(), 4)
        if rng.random() < 0.5:
            s["old"] = model(rng)
    elif mode == "load_fault":
        s["faults"] = [fault(rng) for _ in range(rng.choice([1, 1, 2]))]
        for f in s["faults"]:
            f["kind"] = rng.choice(["EIO", "EIO", "EACCES", "short", "short"])
            f["frac"] = rng.choice([0.0, 0.01, 0.5, 0.9])
            if "op" in f:
                f["op"] = rng.choice(["open", "read", "read", "close"])
    elif mode == "damage":
        s["damage"] = [[rng.choice(["cut", "cut", "flip", "flip", "flip", "zero", "append"]), round(rng.random(), 5), rng.randrange(8), rng.choice([1, 64, 512])] for _ in range(rng.choice([1, 1, 2]))]
    return s


def valid(spec):
    for us in (spec["users"], spec["old"] or []):
        if us is spec["users"] and not us:
            return False
        if len({u["name"] for u in us}) != len(us) or any(not u["apps"] or u["n"] < 1 or len({a["name"] for a in u["apps"]}) != len(u["apps"]) for u in us):
            return False
        for u in us:
            for a in u["apps"]:
                if a["number"] < 1 or not a["windows"] or a["ft"] < 1 or a["ft"] > G.total(a["windows"]):
                    return False
                if isinstance(a["power"], dict) and len(M.series(a["power"])) != 366:
                    return False
    m = spec["mode"]
    if m == "blank" and not spec.get("blanks") or m == "series" and not spec.get("forms") or m == "damage" and not spec.get("damage"):
        return False
    return m in ("plain", "blank", "series") or bool(spec["faults"] or spec.get("quota") is not None or m == "damage")


# ------------------------------------------------------------------ what a model is
def canon(v):
    if isinstance(v, (list, tuple, np.ndarray)):
        return [canon(x) for x in v]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        return float(v)
    return v


def describe(users):
    """what the definitions of a list of users are, through their documented parameters"""
    out = []
    for u in users:
        apps = []
        for a in u.App_list:
            d = {p: canon(getattr(a, p, None)) for p in PARAMS}
            p = np.ravel(np.asarray(a.power, dtype=float))
            # a constant power has as many values as the use case has days
            d["power"] = [float(p[0])] * 366 if len(p) and not np.diff(p).any() else [float(x) for x in p[:366]]
            apps.append(d)
        out.append({"name": u.user_name, "n": canon(u.num_users), "pref": canon(u.user_preference), "apps": apps, "max": [round(float(x), 6) for x in u.maximum_profile]})
    return out


def expect(cfg):
    """the same, from the configuration alone (parameters every kind of appliance has)"""
    out = []
    for u in cfg:
        apps = []
        for a in u["apps"]:
            d = {"name": a["name"], "number": a["number"], "num_windows": len(a["windows"]), "func_time": a["ft"], "time_fraction_random_variability": a["v"], "func_cycle": a["fc"], "fixed": a["fixed"],
                 "fixed_cycle": len(a["cycles"]), "continuous_duty_cycle": a["cont"], "occasional_use": a["occ"], "flat": a["flat"], "thermal_p_var": a["th"], "pref_index": a["pref"], "wd_we_type": a["wd"], "random_var_w": a["rvw"]}
            for k, w in enumerate(a["windows"]):
                d["window_%d" % (k + 1)] = w
            for k, c in enumerate(a["cycles"]):
                j = k + 1
                d.update({"p_%d1" % j: c["p1"], "t_%d1" % j: c["t1"], "p_%d2" % j: c["p2"], "t_%d2" % j: c["t2"], "r_c%d" % j: c["r"]})
                for m, w in enumerate(c["cws"]):
                    d["cw%d%d" % (j, m + 1)] = w
            d = {k: canon(v) for k, v in d.items()}
            if not a["name"]:
                del d["name"]  # gets a name when it is added
            p = a["power"]
            d["power"] = [float(x) for x in M.series(p)] if isinstance(p, dict) else [float(p)] * 366
            apps.append(d)
        out.append({"name": u["name"], "n": float(u["n"]), "pref": float(u["pref"]), "apps": apps})
    return out


def same(a, b):
    """equal up to the last digits a decimal representation may lose"""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def compare(got, want):
    """first difference; keys missing in `want` are not compared"""
    if [u["name"] for u in got] != [u["name"] for u in want]:
        return "users %r, expected %r" % ([u["name"] for u in got], [u["name"] for u in want])
    for g, w in zip(got, want):
        for k in ("n", "pref", "max"):
            if k in w and not same(g[k], w[k]):
                return "%s of user %r: %s, expected %s" % (k, w["name"], str(g[k])[:80], str(w[k])[:80])
        if len(g["apps"]) != len(w["apps"]):
            return "user %r has %d appliances, expected %d" % (w["name"], len(g["apps"]), len(w["apps"]))
        for x, y in zip(g["apps"], w["apps"]):
            for k in y:
                if not same(x.get(k), y[k]):
                    a, b = x.get(k), y[k]
                    if isinstance(b, list) and len(b) > 4 and isinstance(a, list):
                        i = next((i for i in range(min(len(a), len(b))) if not same(a[i], b[i])), min(len(a), len(b)))
                        a, b = "[..%d: %s]" % (i, a[i:i + 3]), "[..%d: %s]" % (i, b[i:i + 3])
                    return "%s of appliance %r of user %r: %s, expected %s" % (k, y.get("name"), w["name"], str(a)[:90], str(b)[:90])
    return None


def new_usecase(users=()):
    from ramp import UseCase

    uc = UseCase(users=[])
    for u in users:
        uc.add_user(u)
    return uc


def load(path, n=0):
    from ramp import UseCase

    uc = UseCase(users=[])
    if n:
        uc.initialize(num_days=n)
    uc.load(path)
    return uc


def target(spec, ctx):
    p = {"abs": os.path.join(ctx.work, "deep", "er", "file"), "sub/m": "sub/m"}.get(spec["where"], spec["where"])
    d = os.path.dirname(p)
    if d:
        os.makedirs(d, exist_ok=True)
    return p


def day(users, seed):
    """one generated day with a given seed"""
    from ramp import UseCase

    uc = UseCase(users=users, random_seed=seed, date_start="2022-01-03", date_end="2022-01-03")
    return uc.generate_daily_load_profiles()


def reload_check(ctx, path, want, key, what, n=0):
    r = ctx.attempt(lambda: describe(load(path, n).users))
    if not ctx.check(r[0] == "ok", key + ":unreadable", "%s: loading raised %s" % (what, r[1:])):
        return None
    d = compare(r[1], want)
    ctx.check(d is None, key + ":differs", "%s: %s" % (what, d))
    return r[1]


def run(spec, ctx):
    if spec["mode"] in ("plain", "blank", "series"):
        return plain(spec, ctx)
    return faulty(spec, ctx)


def plain(spec, ctx):
    st = disk.state
    users = M.build_users(spec["users"])
    uc = new_usecase(users)
    want = describe(users)
    d = compare(want, expect(spec["users"]))
    ctx.check(d is None, "C16:built", "the model built through the API: %s" % d)
    before = snap.snapshot(users)
    p = target(spec, ctx)
    mode = spec["mode"]
    if spec["old"]:
        # the file held, and was read as, another model before
        ctx.hit("replaced")
        ou = M.build_users(spec["old"])
        ctx.call(new_usecase(ou).save, p)
        reload_check(ctx, p + ".xlsx", describe(ou), "C16:roundtrip", "previous model saved and loaded")
    if spec["user_save"]:
        ctx.hit("save_user")
        for k, u in enumerate(users):
            ctx.call(u.save, p + str(k))
            reload_check(ctx, p + str(k) + ".xlsx", [want[k]], "C16:user-save", "user saved alone", spec["n"])
    else:
        ctx.call(uc.save, p)
    if any(u["name"] == "" for u in spec["users"]):
        ctx.hit("unnamed")
    d = snap.diff(before, snap.snapshot(users))
    ctx.check(d is None, "C16:memory", "saving changed the model in memory: %s" % d)
    if spec["user_save"]:
        return
    f = p + ".xlsx"
    if mode == "plain":
        ctx.hit("plain")
        size = os.path.getsize(f)
        reload_check(ctx, f, want, "C16:roundtrip", "saved and loaded", spec["n"])
        ctx.check(os.path.getsize(f) == size, "C16:load-writes", "loading changed the file")
        # a second generation: load, save, load
        r = ctx.attempt(load, f)
        if r[0] == "ok":
            second = r[1]
            ctx.call(second.save, p + "_2")
            reload_check(ctx, p + "_2.xlsx", want, "C16:roundtrip2", "loaded model saved and loaded again")
            if spec["n"] == 0:
                mode_, budget = W.current.rng_mode, W.current.draw_budget
                W.current.rng_mode = "mt"
                x = ctx.attempt(day, users, 7)
                y = ctx.attempt(day, second.users, 7)
                W.current.rng_mode = mode_
                ctx.hit("behaviour")
                ok = x[0] == y[0] and (x[0] != "ok" or np.allclose(x[1], y[1], rtol=1e-9, atol=1e-9))
                ctx.check(ok, "C16:behaviour", "the loaded model generates another day than the saved one for the same seed (%s, %s)" % (x[0] if x[0] == "ok" else x[1:], y[0] if y[0] == "ok" else y[1:]))
                if x[0] == "ok":
                    ctx.rec(x[1])
        ctx.rec(repr(want)[:4000])
        return
    # edited spreadsheets
    import openpyxl

    wb = openpyxl.load_workbook(f)
    ws = wb.worksheets[0]
    head = [c.value for c in ws[1]]
    exp = expect(spec["users"])
    if mode == "blank":
        ctx.hit("blank")
        rows = [(k, j) for k, u in enumerate(spec["users"]) for j in range(len(u["apps"]))]
        for col, at, whole in spec["blanks"]:
            targets = rows if whole else [rows[at % len(rows)]]
            if col in ("num_users", "user_preference"):
                ks = {k for k, _ in targets}
                targets = [(k, j) for k, j in rows if k in ks]
            for k, j in targets:
                ws.cell(2 + rows.index((k, j)), head.index(col) + 1).value = None
                if col == "num_users":
                    exp[k]["n"] = 1.0
                elif col == "user_preference":
                    exp[k]["pref"] = 0.0
                elif col == "power":
                    exp[k]["apps"][j]["power"] = [0.0] * 366
                elif col == "name":
                    exp[k]["apps"][j].pop("name", None)
                elif not col.startswith("r_c"):
                    exp[k]["apps"][j][col] = canon(BLANKS[col])
                else:
                    exp[k]["apps"][j].pop(col, None)
                    exp[k]["apps"][j][col] = 0.0
    else:
        rows = [(k, j) for k, u in enumerate(spec["users"]) for j in range(len(u["apps"]))]
        sheets = {}
        for form, at, step, title in spec["forms"]:
            k, j = rows[at % len(rows)]
            vals = [round(10 + step * ((x * 7) % 13) + 0.25, 2) for x in range(366)]
            cell = ws.cell(2 + rows.index((k, j)), head.index("power") + 1)
            if form == "json":
                ctx.hit("series_json")
                cell.value = repr(vals)
            elif form == "json2":
                ctx.hit("series_stamped")
                cell.value = repr([[x, v] for x, v in enumerate(vals)])
            else:
                if title not in sheets:
                    sheets[title] = [wb.create_sheet(title), 1]
                s, c = sheets[title]
                ctx.hit("series_cells" if form == "cells" else "series_stamped")
                from openpyxl.utils import get_column_letter as L
                import datetime

                w = 1 if form == "cells" else 2
                for x, v in enumerate(vals):
                    if w == 2:
                        s.cell(x + 2, c).value = datetime.datetime(2020, 1, 1) + datetime.timedelta(days=x)
                    s.cell(x + 2, c + w - 1).value = v
                cell.value = "=%s!%s2:%s367" % (title, L(c), L(c + w - 1))
                sheets[title][1] += w
            exp[k]["apps"][j]["power"] = vals
    wb.save(f)
    reload_check(ctx, f, exp, "C16:" + mode, "edited spreadsheet", spec["n"])


def resolve(spec, points, ops):
    """places the faults of the spec on the I/O points seen in a fault-free execution"""
    plan = []
    for f in spec["faults"]:
        g = {k: v for k, v in f.items() if k != "pos"}
        n = points
        if "op" in f:
            n = sum(1 for o in ops if o.startswith(f["op"]))
        g["at"] = 1 + int(f["pos"] * max(1, n))
        plan.append(g)
    return plan


def faulty(spec, ctx):
    st = disk.state
    users = M.build_users(spec["users"])
    uc = new_usecase(users)
    want = describe(users)
    before = snap.snapshot(users)
    p = target(spec, ctx)
    f = p + ".xlsx"
    save = uc.save
    if spec["user_save"]:
        users, want = users[:1], want[:1]
        before = snap.snapshot(users)
        save = users[0].save
    mode = spec["mode"]
    # fault free execution: where the I/O points are
    st.arm()
    ctx.call(save, p)
    points, ops, used = st.disarm(), list(st.trace), st.used
    size = os.path.getsize(f)
    W.current.event("points", points)
    if mode in ("save_fault", "save_crash"):
        os.unlink(f)
        old = None
        if spec["old"]:
            ctx.hit("overwrite")
            ou = M.build_users(spec["old"])
            old = describe(ou)
            ctx.call(new_usecase(ou).save, p)
        plan = resolve(spec, points, ops)
        quota = int(spec["quota"] * size) if spec.get("quota") is not None else None
        ctx.hit("save_quota" if quota is not None else mode)

        def doit():
            st.arm(plan, quota)
            try:
                save(p)
            finally:
                st.disarm()
            return None

        r = ctx.in_process(doit) if mode == "save_crash" else ctx.attempt(doit)
        fired = ctx.last_fired if mode == "save_crash" else st.fired
        what = "save with %s: %s" % (plan or "quota %s" % quota, r[:2])
        if r[0] == "ok":
            ctx.hit("faulted_save_ok")
            reload_check(ctx, f, want, "C16:silent-save", what)
        else:
            if r[0] == "exc":
                ctx.hit("faulted_save_raised")
                ctx.check(bool(fired), "C16:spurious", "%s raised without a fault: %s" % (what, r))
            left = ctx.attempt(lambda: describe(load(f).users))
            if left[0] == "ok":
                dn = compare(left[1], want)
                do = compare(left[1], old) if old is not None else "no previous file"
                ctx.check(dn is None or do is None, "C16:wrong-model", "%s: the file left behind loads as another model: %s" % (what, dn))
        if mode == "save_fault":
            d = snap.diff(before, snap.snapshot(users))
            ctx.check(d is None, "C16:memory", "a failed save changed the model in memory: %s" % d)
        # the fault is gone
        ctx.call(save, p)
        reload_check(ctx, f, want, "C16:retry", "saved again after " + what)
        return
    if mode == "load_fault":
        ctx.hit("load_fault")
        target_uc = new_usecase()
        st.arm()
        ctx.call(target_uc.load, f)
        points, ops = st.disarm(), list(st.trace)
        plan = resolve(spec, points, ops)
        fresh = new_usecase()

        def doit():
            st.arm(plan)
            try:
                fresh.load(f)
            finally:
                st.disarm()

        r = ctx.attempt(doit)
        if r[0] == "ok":
            d = compare(describe(fresh.users), want)
            ctx.check(d is None, "C16:load-wrong", "loading with %s returned another model: %s" % (plan, d))
        else:
            ctx.check(bool(st.fired), "C16:spurious", "loading raised without a fault: %s" % (r,))
            d = compare(describe(fresh.users), want[:len(fresh.users)])
            ctx.check(d is None, "C16:load-wrong", "a failed load left another model behind: %s" % d)
        ctx.check(os.path.getsize(f) == size, "C16:load-writes", "loading changed the file")
        reload_check(ctx, f, want, "C16:retry-load", "loaded again after a fault")
        return
    # damaged file
    ctx.hit("damage")
    data = bytearray(disk.real_open(f, "rb").read())
    for kind, pos, bit, n in spec["damage"]:
        at = min(len(data) - 1, int(pos * len(data)))
        if not data:
            break
        if kind == "cut":
            del data[at:]
        elif kind == "flip":
            data[at] ^= 1 << bit
        elif kind == "zero":
            data[at:at + n] = bytes(len(data[at:at + n]))
        else:
            data += bytes(n)
        W.current.fault("file_" + kind)
    with disk.real_open(f, "wb") as h:
        h.write(bytes(data))
    r = ctx.attempt(lambda: describe(load(f).users))
    if r[0] == "ok":
        ctx.hit("damaged_same")
        d = compare(r[1], want)
        ctx.check(d is None, "C16:damaged-loaded", "a damaged file (%s) was loaded as another model: %s" % (spec["damage"], d))
    else:
        ctx.evals += 1
        ctx.hit("damaged_refused")
