"""Clock, time zone, stdin, os.system and plotting seams."""
import builtins
import os
import sys
import time
from . import world as W

real_time = time.time
real_monotonic = time.monotonic
real_sleep = time.sleep


def _tick():
    w = W.current
    w.clock_reads += 1
    w.clock += w.clock_step
    return w.clock


def set_tz(tz):
    W.current.tz = tz
    os.environ["TZ"] = tz
    time.tzset()


def sim_sleep(s):
    w = W.current
    w.clock += s
    w.simtime += s


def sim_input(prompt=""):
    w = W.current
    if not w.stdin:
        raise EOFError("simulated stdin is empty")
    return w.stdin.pop(0)


def sim_system(cmd):
    W.current.system_calls.append(cmd)
    return 0


def install():
    time.time = _tick
    time.time_ns = lambda: int(_tick() * 1e9)
    time.monotonic = lambda: _tick()
    time.perf_counter = lambda: _tick()
    time.sleep = sim_sleep
    builtins.input = sim_input
    os.system = sim_system


def install_plots():
    """matplotlib stays real except that figures are not built: the functions record that they were called"""
    import matplotlib.pyplot as plt

    for f in ("figure", "plot", "show", "xlabel", "ylabel", "ylim", "margins", "xticks", "yticks", "close", "title", "legend"):
        def stub(*a, _f=f, **k):
            W.current.hit("plt." + _f)
        setattr(plt, f, stub)
