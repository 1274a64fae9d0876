"""Per-run context of the simulation: everything nondeterministic is decided from here.

A World belongs to exactly one process; simulated worker processes get their own World derived from the one of their parent."""
import hashlib
import random as _random_module

RealRandom = _random_module.Random


def derive(*parts):
    """deterministic 64 bit integer from the parts"""
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def prng(*parts):
    """private PRNG of the simulator (never the one the code under test sees)"""
    return RealRandom(derive(*parts))


class SimStop(BaseException):
    """Raised by the simulator to end a run which exceeded a bound. BaseException: the code under test cannot swallow it by accident."""


class DrawBudget(SimStop):
    pass


class SimDeadlock(SimStop):
    pass


class LineBudget(SimStop):
    pass


class World:
    def __init__(self, seed):
        self.seed = seed
        self.entropy_n = 0
        self.draws = 0
        self.draw_budget = None
        self.inject_draw = None  # (draw number, exception factory)
        self.rng_mode = "mt"
        self.adv = (0.0, 0.0)
        self.clock = 1640995200.0
        self.clock_step = 0.001
        self.clock_reads = 0
        self.tz = "UTC"
        self.stdin = []
        self.cov = {}
        self.faults = {}
        self.log = hashlib.sha256()
        self.events = 0
        self.is_worker = False
        self.system_calls = []
        self.cpus = 4
        self.sched = {"mode": "equal"}
        self.start_method = "fork"
        self.pool_faults = []
        self.pool_state = None
        self.simtime = 0.0
        self.blocked = []  # attempts to write outside the scratch directory
        self.scratch = None
        self.orders = []  # worker/completion order of every pool of the run

    def entropy(self):
        self.entropy_n += 1
        return derive(self.seed, "entropy", self.entropy_n)

    def event(self, *what):
        self.events += 1
        self.log.update(repr(what).encode())

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.event("fault", kind)

    def hit(self, probe, n=1):
        self.cov[probe] = self.cov.get(probe, 0) + int(n)


current = World(0)


def set_world(w):
    global current
    current = w
    return w
