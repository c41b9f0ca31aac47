"""C05: training statistics report exactly what was recorded, through saves,
failing saves, process restarts and clock changes."""

import logging
import os
from unittest import mock

import numpy as np
import torch

from .. import disk as dk
from ..core import Scenario, Violation
from pytorch3d.implicitron.tools import stats as stats_mod
from pytorch3d.implicitron.tools.stats import Stats

logging.disable(logging.CRITICAL)

PROPERTY = "C05"
VARS = ["objective", "loss_b", "psnr"]


def prepare(tier):
    pass


class Clock:
    def __init__(self, d):
        self.t, self.d = 1.7e9, d

    def __call__(self):
        self.t += 0.001 * (1 + self.d.choice(1000))
        return self.t


class Model:
    """Reference: nested lists of what was reported."""

    def __init__(self):
        self.epoch = -1
        self.h = {}  # (set, var) -> {epoch: [values]}
        self.sec = {}  # set -> {epoch: [lower, upper bound]}
        self.it = {}

    def clone(self):
        m = Model()
        m.epoch = self.epoch
        m.h = {k: {e: list(v) for e, v in x.items()} for k, x in self.h.items()}
        m.sec = {k: {e: list(v) for e, v in x.items()} for k, x in self.sec.items()}
        m.it = dict(self.it)
        return m


def mean(v):
    return float(np.array(v).mean())


def compare(ctx, st, m, where):
    ctx.check(st.epoch == m.epoch, "epoch-counter-wrong", st.epoch, m.epoch, where)
    got = {
        (s, k): a
        for s, x in st.stats.items()
        for k, a in ((k, v.get_epoch_averages()) for k, v in x.items())
        if a is not None
    }
    for key in sorted(set(m.h) | {k for k in got if k[1] != "sec/it"}):
        a, b = got.get(key), m.h.get(key)
        ctx.check(b is not None, "statistics-from-nowhere", key, where)
        ctx.check(a is not None, "statistics-lost", key, where)
        for e in range(m.epoch + 1):
            w = b.get(e)
            g = a[e] if e < len(a) else float("nan")
            if w is None:
                ctx.check(g != g, "value-in-epoch-without-updates", key, e, g, where)
            else:
                ctx.check(g == mean(w), "epoch-average-wrong", key, e, g, mean(w), where)
        hist = st.stats[key[0]][key[1]].history
        for e, w in b.items():
            ctx.check(list(hist[e]) == w, "recorded-values-wrong", key, e, where)
    ea = st.get_epoch_averages()
    if ea is not None:
        for s, x in ea.items():
            for k, v in x.items():
                w = m.h.get((s, k), {}).get(m.epoch)
                if k != "sec/it" and w is not None:
                    ctx.check(v == mean(w), "current-average-wrong", s, k, v, w, where)
    for s, x in m.sec.items():
        av = st.stats[s]["sec/it"].history
        for e, w in x.items():
            g = av[e]
            ctx.check(len(g) == len(w), "wrong-number-of-timings", s, e, len(g), len(w), where)
            for q, (lo, hi) in zip(g, w):
                ctx.check(
                    lo - 1e-6 <= q <= hi + 1e-6,
                    "iteration-time-includes-time-outside-the-process",
                    f"set {s} epoch {e}: {q} s, but at least {lo} and at most {hi} s passed in this process; {where}",
                )
    for s, n in m.it.items():
        ctx.check(st.it.get(s, -1) == n, "iteration-counter-wrong", s, st.it.get(s), n, where)


def scenario(d, ctx):
    clock = Clock(d)
    n_ops = d.integer(4, 60)
    plt = mock.MagicMock()
    with dk.Disk() as D, mock.patch.object(stats_mod, "plt", plt), mock.patch.object(
        stats_mod, "get_visdom_connection", mock.MagicMock()
    ), mock.patch("time.time", clock):
        use_sec = d.chance(3, 4)
        log_vars = VARS + (["sec/it"] if use_sec else [])
        st = Stats(list(log_vars), do_plot=False)
        m = Model()
        saves = []  # (path, reference model)
        proc_start = clock.t
        epoch_start = None
        nfile = 0
        os.chdir(D.data)
        hist = []
        for _ in range(n_ops):
            op = d.weighted([4, 12, 4, 2, 2, 1])
            if op == 0:
                st.new_epoch()
                m.epoch += 1
                m.it = {k: -1 for k in m.it}
                epoch_start = clock()
                hist.append("epoch")
            elif op == 1:
                s = d.pick(["train", "val"])
                preds = {}
                for v in VARS:
                    how = d.weighted([4, 2, 2, 2])
                    x = (d.choice(2000) - 1000) / 64.0
                    if how == 0:
                        preds[v] = x
                    elif how == 1:
                        preds[v] = torch.tensor(x)
                    elif how == 2:
                        preds[v] = torch.tensor([x, 1.5])  # summed
                        x = float(np.float32(x) + np.float32(1.5))
                    else:
                        continue
                    if m.epoch == -1:
                        m.epoch = 0
                    m.h.setdefault((s, v), {}).setdefault(m.epoch, []).append(float(x))
                if m.epoch == -1:
                    m.epoch = 0
                freeze = d.chance(1, 6)
                m.it.setdefault(s, -1)
                if not freeze:
                    m.it[s] += 1
                timed = use_sec and d.chance(3, 4)
                ts = (epoch_start or proc_start) if timed else None
                st.update(preds, time_start=ts, stat_set=s, freeze_iter=freeze)
                if use_sec:
                    hi = clock.t - min(proc_start, ts) if timed else 0.0
                    m.sec.setdefault(s, {}).setdefault(m.epoch, []).append((0.0, hi))
                hist.append(f"update {s}")
            elif op == 2:
                # save; the process may die in it
                fl = f"s{nfile}" + d.pick(["", ".jgz"])
                nfile += 1
                faults = []
                if d.chance(1, 2):
                    kind = d.pick(["crash_before", "crash_after", "torn_write_crash", "EIO",
                                   "ENOSPC", "short_write", "disk_full", "EINTR"])
                    faults.append((d.choice(6), kind, d.choice(256)))
                    ctx.arm(kind)
                k, v = dk.run_process(D, lambda: st.save(fl), faults)
                fired = D.fired()
                for f, c in fired.items():
                    ctx.fault(f, c)
                hist.append(f"save {fl} {k} {sorted(fired)}")
                ctx.event(hist[-1], D.S.nops)
                if k == "exit":
                    saves.append((fl, m.clone()))
                elif k == "error":
                    ctx.check(
                        bool(set(fired) - {"short_write", "EINTR"}), "save-failed-without-fault", v
                    )
                if k in ("crash", "error"):
                    # a damaged file must not be taken for statistics
                    try:
                        bad = Stats.load(fl)
                    except (EOFError, OSError, ValueError):
                        bad = None
                    if bad is not None:
                        compare(ctx, bad, m, f"file of a failed save; {hist[-6:]}")
            elif op == 3 and saves:
                # restart: only a saved file survives; downtime passes
                fl, mm = d.pick(saves[-3:])
                clock.t += d.pick([1.0, 3600.0, 86400.0])
                ctx.count("restarts")
                st = Stats.load(fl if d.chance(1, 2) else fl.replace(".jgz", ""))
                m = mm.clone()
                proc_start = clock.t
                epoch_start = None
                hist.append(f"restart from {fl}")
                ctx.nontrivial = True
                compare(ctx, st, m, f"loaded; {hist[-8:]}")
                if d.chance(1, 2):
                    st.synchronize_logged_vars(list(log_vars))
                    compare(ctx, st, m, f"synchronized; {hist[-8:]}")
                    # as in the trainer: the stored epoch is over
                    st.new_epoch()
                    m.epoch += 1
                    m.it = {k: -1 for k in m.it}
                    epoch_start = clock()
                    hist.append("epoch")
            elif op == 4:
                for s in st.stats:
                    st.get_status_string(stat_set=s, max_it=d.integer(1, 9))
            elif op == 5:
                clock.t += d.pick([10.0, 5000.0])
                ctx.fault("clock_jump")
            compare(ctx, st, m, f"after {hist[-8:]}")
        ctx.sim_time += clock.t - 1.7e9
        ctx.state(tuple(hist))
        ctx.event(m.epoch, sorted((k, sorted(v.items())) for k, v in m.h.items()))
        os.chdir("/")


SCENARIOS = [Scenario("stats", scenario, quick=1500, thorough=60000, max_wall=120)]

META = {
    "rule": "a run is one seed: up to 60 operations (new epoch, update, save with or without a disk fault, restart from a saved file, "
    "clock jump, status string); nontrivial = a fault fired, the clock jumped or the process restarted",
    "state_measure": "distinct operation/outcome histories",
    "real": "pytorch3d.implicitron.tools.stats (Stats, AverageMeter, JSON/gzip persistence), libc file calls through the shim",
    "stub": "wall clock, matplotlib, visdom",
    "assumptions": ["the clock is monotone within one process; between processes it may jump forward"],
    "level": "exploration",
}
