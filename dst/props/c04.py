from .. import gen as G, model as M
from . import _appday as A

RUNS = {"quick": 1100, "thorough": 60000}
RULE = "One appliance with 1-3 duty cycles of one individual user x path x RNG mode x optional interrupted earlier generation. 'strict' cases: every window belongs to exactly one cycle and each run of consumption must be readable as complete-prefix plays of that cycle (dynamic program); 'any' cases: arbitrary cycle windows, switch-ons must touch one, unreachable cycles stay idle."
PROBES = {"quick": ["extreme_draw", "interrupted", "strict", "any", "played", "noncontinuous", "three_cycles"]}


def valid(spec):
    if not A.valid(spec):
        return False
    a = spec["users"][0]["apps"][0]
    if spec["kind"] == "strict":
        return a["rvw"] == 0 and a["th"] == 0 and len(a["cycles"]) == len(a["windows"]) and all(c["cws"] == [w] for c, w in zip(a["cycles"], a["windows"]))
    return True


def generate(rng, i, tier):
    if rng.random() < 0.7:
        a = G.cycles_strict(rng, "a")
        kind = "strict"
    else:
        a = G.cycles_any(rng, "a")
        kind = "any"
    spec = A.base(rng, a)
    spec["kind"] = kind
    return spec


def run(spec, ctx):
    a = spec["users"][0]["apps"][0]
    ctx.hit(spec["kind"])
    ctx.hit("noncontinuous", a["cont"] == 0)
    ctx.hit("three_cycles", len(a["cycles"]) == 3)
    for d, P in A.days(spec, ctx):
        bad = M.check_shape(P)
        if bad:
            ctx.violations([("C04:shape", m) for _, m in bad])
            return
        ctx.hit("played", max(P) > 0.01)
        if spec["kind"] == "strict":
            ctx.violations(M.check_cycles_strict(a, P, d))
        else:
            ctx.violations(M.check_cycles_any(a, P, d))
            ps = sorted(set(k * p for c in a["cycles"] for p in (c["p1"], c["p2"]) for k in range(1, a["number"] + 1)))
            if a["th"] == 0:
                for m, x in enumerate(P):
                    if x > 0.01 and not any(abs(x - q) < 1e-6 for q in ps):
                        ctx.fail("C04:value", "appliance day %d minute %d: %s W is no whole number of units at a cycle power %s" % (d, m, x, ps[:8]))
        if ctx.viol:
            return
