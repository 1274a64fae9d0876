"""Brings the process under control of the simulator and imports ramp from the working tree of /repo."""
import gc
import os
import sys
import warnings

REPO = os.environ.get("DST_REPO", "/repo")
SCRATCH_ROOT = None


def boot():
    global SCRATCH_ROOT
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["TZ"] = "UTC"
    SCRATCH_ROOT = "/tmp/dst.%d" % os.getpid()
    os.makedirs(SCRATCH_ROOT, exist_ok=True)
    os.environ["MPLCONFIGDIR"] = os.path.join(SCRATCH_ROOT, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    os.environ["TMPDIR"] = SCRATCH_ROOT
    import tempfile

    tempfile.tempdir = SCRATCH_ROOT
    # third party code, from its own byte code caches
    import numpy, pandas, openpyxl, matplotlib, matplotlib.pyplot, plotly.express, plotly.graph_objects, tqdm  # noqa
    import concurrent.futures, concurrent.futures.process, multiprocessing, multiprocessing.pool  # noqa
    import argparse, json, runpy, shutil, datetime, copy, pickle  # noqa
    import pandas.io.excel._openpyxl, pandas.io.formats.excel, pandas.io.formats.csvs, openpyxl.cell._writer  # noqa
    _warm_third_party()
    tqdm.tqdm.monitor_interval = 0
    from . import env, rng, pool, disk

    env.install()
    rng.install()
    pool.install()
    disk.install()
    env.install_plots()
    # the code under test: always compiled from source
    sys.dont_write_bytecode = True
    empty = os.path.join(SCRATCH_ROOT, "pyc")
    os.makedirs(empty, exist_ok=True)
    sys.pycache_prefix = empty
    sys.path.insert(0, REPO)
    for p in ("", os.getcwd()):
        while p in sys.path and p != REPO:
            sys.path.remove(p)
    warnings.simplefilter("ignore")
    import ramp, ramp.cli, ramp.ramp_run, ramp.ramp_convert_old_input_files, ramp.core.core  # noqa

    if not os.path.realpath(ramp.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("ramp imported from %s" % ramp.__file__)
    warnings.simplefilter("ignore")


def _warm_third_party():
    """load everything pandas / openpyxl import lazily"""
    import io
    import pandas as pd

    df = pd.DataFrame({"a": [1, 2.5], "b": ["x", None]}, index=pd.date_range("2022-01-01", periods=2, freq="min"))
    b = io.BytesIO()
    df.to_excel(b, engine="openpyxl")
    b.seek(0)
    pd.read_excel(b, index_col=0)
    b.seek(0)
    import openpyxl

    openpyxl.load_workbook(b)
    p = os.path.join(SCRATCH_ROOT, "warm.csv")
    df.to_csv(p)
    pd.read_csv(p, index_col=0, parse_dates=True)
    p = os.path.join(SCRATCH_ROOT, "warm.xlsx")
    with pd.ExcelWriter(p) as f:
        df.to_excel(f)
    pd.read_excel(p, index_col=0)
    df.resample("h")["a"].mean()
    pd.read_json(io.StringIO("[1,2,3]"))


def warm():
    """compile the hot loops once, in the process all runs are forked from"""
    from . import world as W, rng, model as M

    W.set_world(W.World(1))
    rng.reset()
    from ramp import UseCase

    out, err = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = open(os.devnull, "w")
    try:
        for mode in ("mt", "adv"):
            W.current.rng_mode = mode
            W.current.adv = (0.1, 0.1)
            cfg = [M.user("u", 2, 2, [
                M.app("a", 2, 11.0, 100, 5, 0.2, [(0, 500), (600, 1400)], 0.2, th=0.1),
                M.app("b", 1, 11.0, 100, 1, 0.2, [(0, 500), (600, 1400)], 0.0, flat="yes"),
                M.app("c", 2, 11.0, 100, 5, 0.2, [(10, 500), (600, 1400)], 0.1, cycles=[M.cyc(3, 5, 7, 5, 0.1, [(10, 500)]), M.cyc(13, 5, 17, 5, 0.1, [(600, 1400)])], api="specific"),
                M.app("d", 3, 5.0, 30, 1, 0.2, [(300, 500)], 0.1, pref=1, fixed="yes"),
            ])]
            us = M.build_users(cfg)
            uc = UseCase("w", us, date_start="2022-01-01", date_end="2022-01-06", random_seed=1)
            for _ in range(6):
                P = uc.generate_daily_load_profiles(flat=False)
            for p in P:
                for a in cfg[0]["apps"]:
                    M.check_envelope(a, p, 0)
                    M.check_time(a, p, 0)
                    M.check_events(a, p, 0)
            uc.export_to_dataframe()
        # the parallel path, the pickling and the snapshots
        from . import conserve, pool, snap

        for k in range(2):
            uc = UseCase("w", M.build_users(cfg), date_start="2022-01-01", date_end="2022-01-08", random_seed=1, parallel_processing=True)
            W.current.cpus = 1
            uc.generate_daily_load_profiles()
            snap.snapshot(uc.users)
            pool.live_workers()
        pool.kill_all()
    finally:
        sys.stdout, sys.stderr = out, err
    W.set_world(W.World(0))
    gc.collect()
    gc.freeze() if hasattr(gc, "freeze") else None


def cleanup():
    from . import disk
    import shutil

    disk.state = None
    if SCRATCH_ROOT and SCRATCH_ROOT.startswith("/tmp/dst."):
        shutil.rmtree(SCRATCH_ROOT, ignore_errors=True)
