from .. import gen as G, model as M
from . import _appday as A

RUNS = {"quick": 1100, "thorough": 60000}
RULE = "A random appliance definition (or a use case of several users) x generation path x RNG mode (real or adversarial) x optional interrupted earlier generation; every generated day is compared minute by minute with the envelope of the definition."
PROBES = {"quick": ["extreme_draw", "interrupted", "path_par", "path_cases", "running", "hot1", "hot2", "hot3"]}
valid = A.valid


def one(rng, name):
    k = rng.random()
    if k < 0.45:
        a = G.plain(rng, name)
    elif k < 0.65:
        a = G.flat(rng, name)
    elif k < 0.77:
        a = G.cycles_any(rng, name)
    elif k < 0.86:
        a = hot(rng, name)
    else:
        a = G.plain(rng, name)
        a["power"] = G.series(rng)
    return a


def hot(rng, name):
    """one part of one duty cycle outweighs all others, its cycle is the one played"""
    a = G.cycles_any(rng, name)
    j = rng.randrange(len(a["cycles"]))
    for i, c in enumerate(a["cycles"]):
        c["cws"] = [list(w) for w in a["windows"][:2]] if i == j else [[1500, 1501]]
    a["cycles"][j][rng.choice(["p1", "p2"])] *= 1000
    a["th"] = rng.choice([0.1, 0.3, 0.5])
    return a


def generate(rng, i, tier):
    if rng.random() < 0.6:
        spec = A.base(rng, one(rng, "a"))
    else:
        spec = A.base(rng, one(rng, "a"), D=rng.choice([1, 2, 3]))
        us = []
        for j in range(rng.choice([1, 1, 2, 3])):
            us.append(M.user("u%d" % j, rng.choice([1, 2, 3]), rng.choice([0, 0, 2]), [one(rng, "a%d%d" % (j, m)) for m in range(rng.choice([1, 2, 3]))]))
        for u in us:
            for a in u["apps"]:
                if u["pref"]:
                    a["pref"] = rng.choice([0, 1, 2])
                a["occ"] = rng.choice([1, 1, 0.5])
                a["wd"] = rng.choice([2, 2, 0, 1])
        spec["users"] = us
    return spec


def run(spec, ctx):
    us = spec["users"]
    single = len(us) == 1 and len(us[0]["apps"]) == 1 and us[0]["pref"] == 0
    start = spec["start"]
    for d, P in A.days(spec, ctx):
        n = sum(1 for x in P if x > 0)
        ctx.hit("running" if n else "idle")
        if single:
            a, u = us[0]["apps"][0], us[0]
            if n and a["th"] and a["cycles"] and M.max_unit_power(a, d) >= 1000:
                ctx.hit("hot%d" % len(a["cycles"]))
            ctx.violations(M.check_envelope(a, P, d, 1 if spec["path"] == "single" else u["n"]))
        else:
            ctx.violations(M.check_multi(us, P, d, start))
        if ctx.viol:
            return
