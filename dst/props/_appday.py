"""Shared runner for properties of single appliance-days (C01-C04)."""
from .. import gen as G, model as M, paths


def base(rng, app, D=None, par_ok=True, adv=0.6):
    D = D or rng.choice([1, 1, 2, 3, 6])
    spec = {"users": [M.user("u", 1, 0, [app])], "days": D, "path": paths.pick_path(rng, D, 1, par_ok), "start": G.date(rng), "enlarge": rng.choice([0.0, 0.15, 0.15, 1.0])}
    spec["env"] = G.env(rng, adv, par=spec["path"].startswith("par"))
    if rng.random() < 0.5:
        spec["rseed"] = rng.randrange(1 << 20)
    if rng.random() < 0.25:
        spec["interrupt"] = paths.interrupt(rng)
    # a second appliance-day history on the same objects
    spec["again"] = rng.choice([0, 0, 1])
    return spec


def valid(spec):
    if not spec["users"] or spec["days"] < 1:
        return False
    for u in spec["users"]:
        if u["n"] < 1 or not u["apps"]:
            return False
        for a in u["apps"]:
            if not valid_app(a):
                return False
    return True


def valid_app(a):
    if a["number"] < 1 or a["ft"] < 1 or a["ft"] > G.total(a["windows"]) or not a["windows"] or a["fc"] < 1 or M.may_not_fit(a):
        return False
    if not isinstance(a["power"], dict) and a["power"] < 1:
        return False
    for c in a["cycles"]:
        if c["t1"] < 1 or c["t2"] < 1 or c["p1"] < 1 or c["p2"] < 1:
            return False
        if len(c["cws"]) == 0 and len(a["cycles"]) > 1:
            return False
    return True


def days(spec, ctx):
    uc = paths.make_usecase(ctx, spec)
    paths.interrupted(ctx, spec, uc)
    out = paths.profiles(ctx, spec, uc)
    for _ in range(spec.get("again", 0)):
        out += paths.profiles(ctx, spec, uc)
    ctx.evals += len(out)
    return out
