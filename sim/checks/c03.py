"""C03: checkpoint retention.  Progress the trainer has moved past is never
lost, the newest checkpoint never moves back, and exactly the configured
number of old checkpoints is kept."""

import re

from .. import disk as dk, trainchk as tc, trainsim as ts
from ..core import Scenario, Violation
from pytorch3d.implicitron.tools import model_io

PROPERTY = "C03"


def prepare(tier):
    ts.warm_up()


def visible(m):
    def body():
        fls = model_io.find_last_checkpoint("exp", all_checkpoints=True) or []
        last = model_io.find_last_checkpoint("exp")
        eps = [model_io.parse_epoch_from_model_path(f) for f in fls]
        return eps, None if last is None else model_io.parse_epoch_from_model_path(last)

    kind, v = dk.run_process(m.disk, body)
    if kind != "exit":
        raise Violation("cannot-list-checkpoints", v)
    return v


def files_by_epoch(m):
    out = {}
    for p, _ in tc.tree(m):
        g = re.fullmatch(r"model_epoch_(\d{8})(\.pth|_opt\.pth|_stats\.jgz)", p)
        if g:
            out.setdefault(int(g.group(1)), []).append(g.group(2))
    return out


def check_after(ctx, m, state, per_epoch, purge, store, kind, where):
    eps, last = visible(m)
    ctx.event("visible", eps, last)
    newest = max(eps) if eps else -1
    ctx.check(eps == sorted(set(eps)), "duplicate-checkpoints", eps, where)
    ctx.check((last if last is not None else -1) == newest, "last-is-not-newest", last, eps, where)
    if not store:
        ctx.check(not eps and not files_by_epoch(m), "checkpoint-written-although-disabled", eps, where)
        return
    if m.started is not None:
        # m.forwards counts the training steps this process began
        begun = (m.forwards - 1) // per_epoch if m.forwards else -1
        # it began epoch number start+begun, so every epoch before was stored
        acked = m.started + begun if m.forwards else m.started
        # sound also when it ended normally
        if kind == "exit":
            acked = m.started + m.forwards // per_epoch
        state["acked"] = max(state["acked"], acked)
        ctx.check(
            m.started == state["newest"],
            "resumed-from-other-than-newest",
            f"newest visible {state['newest']}, resumed after {m.started}; {where}",
        )
    ctx.check(
        newest >= state["acked"],
        "acknowledged-progress-lost",
        f"newest visible checkpoint {newest}, but epoch {state['acked']} was completed and stored; visible {eps}; {where}",
    )
    ctx.check(newest >= state["newest"], "newest-moved-back", state["newest"], eps, where)
    if newest >= 0:
        lo = max(0, newest - (purge - 1)) if purge > 0 else 0
        want = set(range(lo, newest + 1))
        ctx.check(
            want <= set(eps),
            "kept-too-few-checkpoints",
            f"visible {eps}, purge setting {purge} promises at least {sorted(want)}; {where}",
        )
    if kind == "exit" and m.forwards:
        lo = max(0, newest - purge) if purge > 0 else 0
        want = list(range(lo, newest + 1))
        ctx.check(eps == want, "wrong-retention", f"visible {eps}, expected {want}; {where}")
        fb = files_by_epoch(m)
        ctx.check(
            sorted(fb) == want and all(len(v) == 3 for v in fb.values()),
            "orphan-checkpoint-files",
            f"{fb} after {where}",
        )
    state["newest"] = newest


def scenario(d, ctx):
    cfg = tc.draw_cfg(d, ("simple", "sequence"))
    cfg["data"].update(n_seq=1, n_frames=2, batch_size=1, length_train=0, with_val=False)
    cfg["loop"]["store_checkpoints_purge"] = purge = d.pick([1, 2, 3, 4, 0])
    store = not d.chance(1, 20)
    cfg["loop"]["store_checkpoints"] = store
    epochs = d.integer(3, 9)
    with dk.Disk() as D:
        m = tc.Machine(d, ctx, cfg, D)
        kind, ref = m.train(epochs)
        if kind != "exit":
            raise Violation("trainer-failed-without-fault", ref)
        total, oplog, fw = m.ops, m.oplog, m.forwards
        per = fw // epochs
        check_after(ctx, m, {"acked": -1, "newest": -1}, per, purge, store, kind, "fault-free run")
    with dk.Disk() as D:
        m = tc.Machine(d, ctx, cfg, D)
        state = {"acked": -1, "newest": -1}
        for k in range(d.integer(1, 5)):
            if d.chance(1, 4):
                upto = d.integer(1, epochs)
                kind, val = m.train(upto)
                where = f"clean run to {upto}"
                if kind != "exit":
                    raise Violation("cannot-resume", f"{where} {val}")
            else:
                plan = tc.draw_plan(d, m, total, oplog, fw)
                kind, val = tc.apply_plan(m, plan, epochs, ctx)
                where = f"process {k} {plan} {kind} fired {m.fired}"
            check_after(ctx, m, state, per, purge, store, kind, where)
        kind, val = m.train(epochs)
        if kind != "exit":
            raise Violation("cannot-resume", f"{where} {val}")
        check_after(ctx, m, state, per, purge, store, kind, "recovery after " + where)


SCENARIOS = [Scenario("retention", scenario, quick=240, thorough=9000, max_wall=180)]

META = {
    "rule": "a run is one seed: a training configuration with a purge setting and 1-5 clean, interrupted, crashed or failing "
    "trainer processes; nontrivial = a fault really fired",
    "state_measure": "distinct (last file operation, way the process ended, operation index, faults fired)",
    "real": "Experiment.run, factories, training loop, model_io (save, find, purge), Stats, serialization",
    "stub": "two-layer model and in-memory dataset (workload), matplotlib drawing, visdom server, wall clock",
    "assumptions": [
        "an epoch counts as acknowledged when the trainer starts the first training step of the next epoch or ends normally",
        "store_checkpoints_purge = p > 0 keeps the newest checkpoint and the p before it (the behaviour of the purge loop); "
        "while a checkpoint is being replaced at least the p newest stay",
        "process-kill crash model",
    ],
    "level": "exploration",
}
