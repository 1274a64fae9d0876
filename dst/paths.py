"""Ways to obtain daily profiles through the public interface."""
import contextlib
from . import inject
from . import model as M
from . import world as W

PATHS = ("single", "agg", "seq", "flat", "cases", "par", "parflat")


def make_usecase(ctx, spec, users=None):
    from ramp import UseCase

    if users is None:
        users = ctx.call(M.build_users, spec["users"])
    par = spec["path"].startswith("par")
    start = spec.get("start", "2022-01-03")
    kw = dict(name="uc", users=users, date_start=start, parallel_processing=par, random_seed=spec.get("rseed"))
    if "enlarge" in spec:
        kw["peak_enlarge"] = spec["enlarge"]
    uc = ctx.call(UseCase, **kw)
    ctx.call(uc.initialize, num_days=spec["days"])
    return uc


def profiles(ctx, spec, uc):
    """list of (day index, profile)"""
    import numpy as np

    D = spec["days"]
    path = spec["path"]
    start = spec.get("start", "2022-01-03")
    ctx.hit("path_" + path)
    ctx.hit("sim_days", D)
    out = []
    if path in ("single", "agg"):
        for d in range(D):
            tot = np.zeros(1440)
            for u in uc.users:
                fn = u.generate_single_load_profile if path == "single" else u.generate_aggregated_load_profile
                one = ctx.call(fn, prof_i=d, peak_time_range=uc.peak_time_range, day_type=M.day_type(start, d))
                ctx.keep(one)
                tot = tot + one
            out.append((d, tot))
    elif path in ("seq", "par"):
        P = ctx.call(uc.generate_daily_load_profiles, flat=False)
        if tuple(np.shape(P)) != (D, 1440):
            ctx.fail(ctx.prop + ":shape", "generated profiles have shape %s instead of %s" % (np.shape(P), (D, 1440)))
        ctx.keep(P)
        out = [(d, np.array(P[d])) for d in range(D)]
    elif path in ("flat", "parflat"):
        P = np.asarray(ctx.call(uc.generate_daily_load_profiles, flat=True))
        if P.shape != (D * 1440,):
            ctx.fail(ctx.prop + ":shape", "flattened profile has shape %s instead of %s" % (P.shape, (D * 1440,)))
        ctx.keep(P)
        out = [(d, P[d * 1440:(d + 1) * 1440].copy()) for d in range(D)]
    elif path == "cases":
        pl = ctx.call(uc.generate_daily_load_profiles, cases=["x", "y"])
        df = pl.DataFrame
        if df.shape != (D * 1440, 2):
            ctx.fail(ctx.prop + ":shape", "result of two cases has shape %s instead of %s" % (df.shape, (D * 1440, 2)))
        if not df.index.equals(uc.datetimeindex):
            ctx.fail(ctx.prop + ":index", "index of the result of cases differs from the minutes of the use case")
        for c in range(2):
            v = df.iloc[:, c].to_numpy()
            ctx.keep(v)
            out += [(d, v[d * 1440:(d + 1) * 1440].copy()) for d in range(D)]
    else:
        raise RuntimeError("unknown path " + path)
    for d, p in out:
        ctx.rec(d, p)
    return out


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def interrupted(ctx, spec, uc, path=None):
    """an earlier generation which is interrupted at the chosen draw"""
    it = spec.get("interrupt")
    if not it:
        return
    w = W.current
    for x in (it if isinstance(it, list) else [it]):
        tr = contextlib.nullcontext()
        if "line" in x:
            tr = inject.Lines(x["line"], x["exc"], distinct=True)
        else:
            w.inject_draw = (w.draws + x["draw"], EXC[x["exc"]])
        sub = dict(spec, path=path or ("seq" if spec["path"].startswith("par") else spec["path"]))
        par = uc.parallel_processing
        uc.parallel_processing = False
        try:
            with tr:
                _plain(sub, uc)
            w.inject_draw = None
            ctx.hit("interrupt_missed")
        except (KeyboardInterrupt, MemoryError):
            ctx.hit("interrupted")
        finally:
            w.inject_draw = None
            uc.parallel_processing = par


def _plain(spec, uc):
    if spec["path"] in ("single", "agg"):
        for d in range(spec["days"]):
            for u in uc.users:
                u.generate_aggregated_load_profile(d, uc.peak_time_range, 0)
    else:
        uc.generate_daily_load_profiles()


def pick_path(rng, D, n_apps, par_ok=True):
    return rng.choice(["single", "agg", "seq", "seq", "flat", "cases"] + (["par", "parflat"] if par_ok and rng.random() < 0.35 else []))


def interrupt(rng):
    if rng.random() < 0.5:
        return {"line": rng.randrange(1, 180), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
    return {"draw": rng.choice([1, 2, 3, 5, 8, 13, 20, 40, 100, 300]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
