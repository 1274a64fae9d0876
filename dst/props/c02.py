from .. import gen as G, model as M
from . import _appday as A

RUNS = {"quick": 1400, "thorough": 80000}
RULE = "One non-flat appliance of one individual user x path x RNG mode x optional interrupted earlier generation; minutes of use and idle gaps of every generated day are compared with the bounds derived from the definition and from the windows of that day (visible through the idle marker)."
PROBES = {"quick": ["extreme_draw", "interrupted", "exhausted", "cycle_app", "overlap_app"]}
valid = A.valid


def generate(rng, i, tier):
    a = G.cycles_any(rng, "a") if rng.random() < 0.25 else G.plain(rng, "a")
    if rng.random() < 0.4:
        # dense use: most of the windows are needed
        a["ft"] = max(1, int(G.total(a["windows"]) * rng.choice([0.7, 0.9, 1.0])))
        a["fc"] = rng.choice([1, 2, 7, 20])
        a["th"] = 0
        G.fitting(a)
    return A.base(rng, a)


def run(spec, ctx):
    a = spec["users"][0]["apps"][0]
    ctx.hit("cycle_app", bool(a["cycles"]))
    ctx.hit("overlap_app", M.windows_may_overlap(a))
    for d, P in A.days(spec, ctx):
        bad = M.check_shape(P)
        if bad:
            ctx.violations([("C02:shape", m) for _, m in bad])
            return
        P = [float(x) for x in P]
        T = sum(1 for x in P if x > 10 * M.MARK)
        if T < M.time_bounds(a, sum(1 for x in P if x > 0), M.max_total(a))[0]:
            ctx.hit("exhausted")
        if not any(P):
            ctx.fail("C02:idle", "appliance %s did not even open its windows on day %d" % (a["name"], d))
        ctx.violations(M.check_time(a, P, d))
        if ctx.viol:
            return
