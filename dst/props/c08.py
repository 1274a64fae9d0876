from .. import conserve as K, gen as G, model as M, paths, snap

RUNS = {"quick": 320, "thorough": 40000}
RULE = "Use cases without net randomness x number of processors 1..64 x fork/spawn x simulated worker schedules (random, LIFO, starving, bimodal, exponential, taped); the parallel profile is compared with the closed form and with the sequential profile, the definitions before and after."
PROBES = {"quick": ["extreme_draw", "pool_completions", "empty_days", "prefs", "spawn", "again"]}


def generate(rng, i, tier):
    D = rng.choice([1, 2, 3, 5, 9])
    spec = {"users": K.generate(rng, small=rng.random() < 0.5), "days": D, "path": rng.choice(["par", "parflat"]), "start": G.date(rng), "again": rng.choice([0, 0, 1])}
    spec["env"] = G.env(rng, 0.5, par=True)
    if rng.random() < 0.05:
        spec["env"]["cpus"] = rng.choice([16, 61, 64, 70])
        spec["env"]["start"] = "fork"
    return spec


def valid(spec):
    return spec["days"] >= 1 and spec["env"]["cpus"] >= 1 and K.valid(spec["users"])


def run(spec, ctx):
    us = spec["users"]
    uc = paths.make_usecase(ctx, spec)
    before = snap.snapshot(uc.users)
    flat_only = all(a["flat"] == "yes" for u in us for a in u["apps"])
    ctx.hit("spawn", spec["env"]["start"] == "spawn")
    ctx.hit("prefs", any(u["pref"] for u in us))
    ctx.hit("again", spec["again"])
    for _ in range(1 + spec["again"]):
        res = paths.profiles(ctx, spec, uc)
        for d, P in res:
            dt = M.day_type(spec["start"], d)
            ctx.hit("empty_days", not any(M.eligible(a, dt) for u in us for a in u["apps"]))
            K.check(ctx, us, d, dt, P)
        x = snap.diff(before, snap.snapshot(uc.users))
        ctx.check(x is None, "C08:model", "parallel generation changed the definitions: %s" % x)
    uc.parallel_processing = False
    seq = paths.profiles(ctx, dict(spec, path="seq"), uc)
    for (d, P), (_, Q) in zip(res, seq):
        if flat_only:
            ctx.check((P == Q).all(), "C08:sequential", "day %d: the parallel profile differs from the sequential one" % d)
        K.check(ctx, us, d, M.day_type(spec["start"], d), Q)
