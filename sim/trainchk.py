"""Shared driver of the implicitron-trainer checks (C01, C02, C03, C05)."""

import os
import re

import torch

from . import disk as dk
from . import trainsim as ts
from .core import Violation
from pytorch3d.implicitron.tools import model_io

FILE_FAULTS = ["crash_before", "crash_after", "torn_write_crash", "EIO", "ENOSPC",
               "short_write", "disk_full", "EINTR"]
EXC = [KeyboardInterrupt, RuntimeError, MemoryError]


def draw_cfg(d, loaders=("simple", "sequence", "scene", "known", "traincond")):
    kind = d.pick(loaders)
    n_seq, n_frames = d.integer(1, 2), d.integer(2, 3)
    data = dict(
        loader_kind=kind,
        batch_size=d.integer(1, 2),
        n_seq=n_seq,
        n_frames=n_frames,
        length_train=d.pick([0, 0, 2, 3]),
        with_val=d.chance(3, 4),
    )
    if kind in ("known", "traincond"):
        data["batch_size"] = 2
    if kind == "simple" and data["length_train"]:
        data["length_train"] = 2
    policy = d.pick(["Exponential", "MultiStepLR", "LinearExponential"])
    opt = dict(lr_policy=policy, breed=d.pick(["Adam", "SGD", "Adagrad"]), lr=0.01)
    if policy == "MultiStepLR":
        opt["multistep_lr_milestones"] = tuple(d.pick([(1,), (2,), (1, 3), (2, 3)]))
        opt["gamma"] = 0.5
    elif policy == "Exponential":
        opt["exponential_lr_step_size"] = d.integer(1, 4)
    else:
        opt["linear_exponential_lr_milestone"] = d.integer(1, 4)
        opt["exponential_lr_step_size"] = d.integer(1, 4)
    if d.chance(1, 4):
        opt["weight_decay"] = 0.01
    model = {}
    if d.chance(1, 3):
        model["use_groups"] = True
        opt["group_learning_rates"] = {"fast": 0.1}
    loop = dict(
        store_checkpoints_purge=d.pick([1, 2, 3, 0]),
        validation_interval=d.pick([1, 2]),
        metric_print_interval=d.pick([1, 5]),
    )
    return dict(seed=d.choice(1000), data=data, opt=opt, model=model, loop=loop)


class Machine:
    """One simulated machine: disk, experiment directory, trainer processes."""

    def __init__(self, d, ctx, cfg, disk, name="exp"):
        self.d, self.ctx, self.cfg, self.disk = d, ctx, cfg, disk
        self.ex = ts.make_experiment(cfg, name)
        self.name = name
        self.dir = os.path.join(disk.data, name)
        self.t = 0.0

    def train(self, max_epochs, faults=(), sep_tmp=False, interrupt=None, clock=None,
              setup=None):
        S = self.disk.S
        clock = clock or ts.Clock(t0=1.7e9 + self.t)

        def body():
            torch.use_deterministic_algorithms(False)
            if setup:
                setup(self.ex)
            v = ts.train_process(self.ex, self.name, S.user, max_epochs, clock, interrupt)
            S.user[2] = int(clock.t - 1.7e9 - self.t)
            return v

        kind, val = dk.run_process(self.disk, body, faults, sep_tmp)
        self.ops = S.nops
        self.oplog = self.disk.oplog()
        self.fired = self.disk.fired()
        self.forwards = S.user[0]
        self.started = S.user[1] - 2 if S.user[1] else None  # start epoch - 1
        self.t += 1000.0
        self.ctx.sim_time += 0.01 * self.forwards * 8
        if kind in ("hang", "died"):
            raise Violation("trainer-" + kind, val)
        return kind, val


def draw_plan(d, m, total_ops, oplog, total_forwards):
    """What goes wrong with one trainer process."""
    mode = d.weighted([6, 2, 1])
    if mode == 0:
        sep = d.chance(1, 4)
        n = d.weighted([4, 1]) + 1
        faults = []
        for _ in range(n):
            kind = d.pick(FILE_FAULTS)
            ren = [i for i, o in enumerate(oplog) if o in ("rename", "unlink", "open-w")]
            if ren and d.chance(1, 2):
                idx = ren[d.choice(len(ren))]
            else:
                idx = d.choice(max(1, total_ops + 2))
            faults.append((idx, kind, d.choice(256)))
        return dict(faults=faults, sep_tmp=sep)
    if mode == 1:
        return dict(
            interrupt=(1 + d.choice(max(1, total_forwards)), d.pick(EXC)), sep_tmp=False
        )
    return dict(kill=1 + d.choice(max(1, total_forwards)))


class _Kill(BaseException):
    def __init__(self, *a):
        os._exit(137)


def apply_plan(m, plan, epochs, ctx, setup=None):
    for _, k, _ in plan.get("faults", ()):
        ctx.arm(k)
    if "kill" in plan:
        ctx.arm("kill_in_forward")
        kind, val = m.train(epochs, interrupt=(plan["kill"], _Kill), setup=setup)
        if kind == "crash":
            ctx.fault("kill_in_forward")
    elif "interrupt" in plan:
        name = plan["interrupt"][1].__name__
        ctx.arm(name)
        kind, val = m.train(epochs, interrupt=plan["interrupt"], setup=setup)
        if kind == "error":
            ctx.fault(name)
    else:
        kind, val = m.train(epochs, faults=plan["faults"], sep_tmp=plan["sep_tmp"], setup=setup)
        for k, n in m.fired.items():
            ctx.fault(k, n)
        if plan["sep_tmp"]:
            ctx.count("separate_tmp_filesystem")
    benign = (
        not plan.get("kill")
        and not plan.get("interrupt")
        and not set(m.fired) - {"short_write", "EINTR", "EXDEV"}
    )
    if kind == "error" and benign:
        raise Violation(
            "trainer-failed-without-fault",
            f"{val[0]}: {val[1]}\nplan {plan}\n{val[2]}",
        )
    ctx.event("process", kind, val[0] if kind == "error" else "", m.ops, m.forwards,
              sorted(m.fired.items()))
    ctx.state(m.oplog[-1] if m.oplog else "", kind, m.ops, sorted(m.fired))
    return kind, val


TMP_RE = re.compile(r"tmp[a-z0-9_]{8}")


def tree(m):
    return [(TMP_RE.sub("tmpXXXXXXXX", p), s) for p, s in m.disk.tree(m.dir)] if os.path.isdir(m.dir) else []
