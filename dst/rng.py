"""Seam over the `random` module (and entropy sources). Installed before ramp is imported."""
import gc
import random
from random import Random as _Random
from . import world as W

BPF = 2.0 ** -53


class SimRandom(_Random):
    """The standard generator with (1) entropy taken from the world, (2) optional legal-but-extreme outcomes,
    (3) a count of the draws with a budget and an injection point at each of them.

    All state lives in the underlying Mersenne Twister, so seed/getstate/setstate keep their meaning in every mode."""

    def seed(self, a=None, version=2):
        if a is None:
            a = W.current.entropy()
        _Random.seed(self, a, version)

    def _tick(self):
        w = W.current
        w.draws += 1
        if w.draws % 5000 == 0:
            # automatic collections are off (finalizers would run at arbitrary points), which slows down the JIT of long runs
            gc.collect()
        if w.inject_draw is not None and w.draws >= w.inject_draw[0]:
            exc = w.inject_draw[1]
            w.inject_draw = None
            w.fault("at_draw:" + exc.__name__)
            raise exc("injected by the simulator")
        if w.draw_budget is not None and w.draws > w.draw_budget:
            raise W.DrawBudget(f"more than {w.draw_budget} draws")

    def random(self):
        self._tick()
        v = _Random.random(self)
        w = W.current
        if w.rng_mode == "adv":
            p, q = w.adv
            c = _Random.random(self)
            if c < p:
                w.hit("extreme_draw")
                k = int(_Random.random(self) * 6)
                if k == 0 or k == 1:
                    return 0.0
                if k == 2 or k == 3:
                    return 1.0 - BPF
                if k == 4:
                    return v * 1e-3
                return 1.0 - v * 1e-3 - BPF if v > 0 else 1.0 - BPF
            if c < p + q:
                # coarse values: many ties
                return int(v * 4) / 4.0
        return v

    def getrandbits(self, k):
        self._tick()
        v = _Random.getrandbits(self, k)
        w = W.current
        if w.rng_mode == "adv" and k > 0:
            p, q = w.adv
            c = _Random.random(self)
            if c < p:
                w.hit("extreme_draw")
                return 0 if c < p / 2 else (1 << k) - 1
        return v

    def _randbelow(self, n):
        w = W.current
        if w.rng_mode == "adv":
            self._tick()
            p, q = w.adv
            c = _Random.random(self)
            if n > 0 and c < p:
                w.hit("extreme_draw")
                k = int(_Random.random(self) * 4)
                if k <= 0:
                    return 0
                if k == 1:
                    return n - 1
                if k == 2:
                    return min(n - 1, 1)
                return max(0, n - 2)
        k = n.bit_length()
        if n <= 0:
            if n == 0:
                return 0
            raise ValueError("empty range")
        self._tick()
        r = _Random.getrandbits(self, k)
        while r >= n:
            r = _Random.getrandbits(self, k)
        return r


_FUNCS = (
    "seed random uniform triangular randint choice randrange sample shuffle choices normalvariate lognormvariate "
    "expovariate vonmisesvariate gammavariate gauss betavariate paretovariate weibullvariate getstate setstate "
    "getrandbits randbytes"
).split()

inst = None
_real_default_rng = None


def install():
    global inst, _real_default_rng
    import os

    inst = SimRandom(0)
    for f in _FUNCS:
        if hasattr(random, f):
            setattr(random, f, getattr(inst, f))
    random._inst = inst
    random.Random = SimRandom

    def urandom(n):
        out = b""
        while len(out) < n:
            out += W.current.entropy().to_bytes(8, "big")
        return out[:n]

    os.urandom = urandom
    import numpy as np

    _real_default_rng = np.random.default_rng

    def default_rng(seed=None):
        if seed is None:
            seed = W.current.entropy()
        return _real_default_rng(seed)

    np.random.default_rng = default_rng
    real_np_seed = np.random.seed

    def np_seed(seed=None):
        if seed is None:
            seed = W.current.entropy() & 0xFFFFFFFF
        return real_np_seed(seed)

    np.random.seed = np_seed


def reset():
    """fresh process: the module level generator is seeded from the entropy of the world"""
    import numpy as np

    inst.seed(None)
    np.random.seed(W.current.entropy() & 0xFFFFFFFF)


def after_fork():
    """what the standard library does in a forked child (random is reseeded, numpy's legacy generator is not)"""
    inst.seed(None)
