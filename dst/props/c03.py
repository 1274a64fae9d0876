from .. import gen as G, model as M
from . import _appday as A

RUNS = {"quick": 1700, "thorough": 80000}
RULE = "One non-flat appliance without duty cycle of one individual user x path x RNG mode x optional interrupted earlier generation; every day is segmented into switch-on events whose durations and numbers of units are checked."
PROBES = {"quick": ["extreme_draw", "interrupted", "several_units", "thermal", "one_short"]}
valid = A.valid


def generate(rng, i, tier):
    a = G.plain(rng, "a")
    if rng.random() < 0.5:
        a["fc"] = rng.choice([3, 5, 10, 15, 30])
        a["number"] = rng.choice([2, 3, 4, 7, 20])
        G.fitting(a)
    if rng.random() < 0.2:
        a["power"] = G.series(rng)
    return A.base(rng, a)


def run(spec, ctx):
    a = spec["users"][0]["apps"][0]
    for d, P in A.days(spec, ctx):
        bad = M.check_shape(P)
        if bad:
            ctx.violations([("C03:shape", m) for _, m in bad])
            return
        segs = M.segments([float(x) for x in P])
        p = M.power_on(a, d)
        if any(s[2] > 1.6 * p for s in segs) and a["th"] == 0:
            ctx.hit("several_units")
        ctx.hit("thermal", a["th"] > 0)
        ctx.hit("one_short", any(s[1] - s[0] < a["fc"] for s in segs))
        ctx.hit("events", len(segs))
        ctx.violations(M.check_events(a, P, d))
        if ctx.viol:
            return
