from .. import conserve as K, gen as G, model as M, paths

RUNS = {"quick": 1000, "thorough": 60000}
RULE = "Use cases without net randomness (flat, fixed non-flat, daily series, one equal appliance per preference; categories without members or appliances) x calendar x path x interrupted histories x several generations on the same objects; every minute and the energy of every day are compared with the closed form, flattened and day-by-day results and cases with each other."
PROBES = {"quick": ["extreme_draw", "interrupted", "path_par", "path_cases", "empty", "no_members", "prefs", "standalone"]}


def generate(rng, i, tier):
    D = rng.choice([1, 2, 3, 8])
    spec = {"users": K.generate(rng), "days": D, "path": paths.pick_path(rng, D, 1), "start": G.date(rng), "again": rng.choice([0, 1])}
    spec["env"] = G.env(rng, 0.6, par=spec["path"].startswith("par"))
    if rng.random() < 0.3:
        spec["interrupt"] = [paths.interrupt(rng) for _ in range(rng.choice([1, 2]))]
    spec["standalone"] = int(rng.random() < 0.2)
    return spec


def valid(spec):
    return spec["days"] >= 1 and K.valid(spec["users"])


def run(spec, ctx):
    us = spec["users"]
    start = spec["start"]
    ctx.hit("empty", not us or any(not u["apps"] for u in us))
    ctx.hit("no_members", any(u["n"] == 0 for u in us))
    ctx.hit("prefs", any(u["pref"] for u in us))
    if spec.get("standalone") and us:
        # users which belong to no use case
        ctx.hit("standalone")
        for u, obj in zip(us, ctx.call(M.build_users, us)):
            for d in range(2):
                dt = M.day_type(start, d)
                P = ctx.call(obj.generate_single_load_profile, prof_i=d, day_type=dt)
                ctx.keep(P)
                K.check(ctx, [u], d, dt, P, single=True)
                P = ctx.call(obj.generate_aggregated_load_profile, prof_i=d, day_type=dt)
                ctx.keep(P)
                K.check(ctx, [u], d, dt, P)
    uc = paths.make_usecase(ctx, spec)
    paths.interrupted(ctx, spec, uc)
    single = spec["path"] == "single"
    for _ in range(1 + spec.get("again", 0)):
        for d, P in paths.profiles(ctx, spec, uc):
            K.check(ctx, us, d, M.day_type(start, d), P, single)
    if not single:
        # each category on its own
        for u, obj in zip(us, uc.users):
            d = spec["days"] - 1
            P = ctx.call(obj.generate_aggregated_load_profile, prof_i=d, peak_time_range=uc.peak_time_range, day_type=M.day_type(start, d))
            K.check(ctx, [u], d, M.day_type(start, d), P)
            K.check(ctx, [u], d, M.day_type(start, d), obj.load)
    ctx.check_kept()
