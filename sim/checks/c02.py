"""C02: stopping, crashing and resuming implicitron training any number of
times gives bit for bit the result of the uninterrupted training."""

from .. import disk as dk, trainchk as tc, trainsim as ts
from ..core import Scenario, Violation

PROPERTY = "C02"


def prepare(tier):
    ts.warm_up()


FIELDS = ("model", "optimizer", "lr", "last_lr", "stats")


def compare(ctx, ref, got, where):
    for f in FIELDS:
        a, b = ref[f], got[f]
        if f == "stats" and a != b:
            keys = [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
            diff = {k: (a.get(k), b.get(k)) for k in keys[:3]}
            raise Violation("resumed-stats-differ", f"{diff}; {where}")
        ctx.check(a == b, f"resumed-{f}-differs", f"uninterrupted {a}, resumed {b}; {where}")


def must(kind, val, what):
    if kind != "exit":
        raise Violation(what, f"{val[0]}: {val[1]}\n{val[2]}" if kind == "error" else kind)


def scenario(d, ctx):
    cfg = tc.draw_cfg(d)
    epochs = d.integer(2, 5)
    with dk.Disk() as D:
        m = tc.Machine(d, ctx, cfg, D)
        kind, ref = m.train(epochs)
        must(kind, ref, "trainer-failed-without-fault")
        total, oplog, fw = m.ops, m.oplog, m.forwards
    with dk.Disk() as D:
        m = tc.Machine(d, ctx, cfg, D)
        hist = []
        for k in range(d.integer(1, 4)):
            if d.chance(1, 3):
                upto = d.integer(1, epochs)
                kind, val = m.train(upto)
                ctx.event("clean stop", upto, kind)
                must(kind, val, "cannot-resume")
                hist.append(("clean", upto))
                ctx.count("clean_stops")
                ctx.nontrivial = True
            else:
                plan = tc.draw_plan(d, m, total, oplog, fw)
                kind, val = tc.apply_plan(m, plan, epochs, ctx)
                hist.append((plan, kind, m.fired))
                if kind == "exit":
                    break
        kind, got = m.train(epochs)
        must(kind, got, "cannot-resume")
        ctx.event("start", got["start_epoch"], *(got[f] for f in FIELDS))
        compare(ctx, ref, got, f"history {hist}, config {cfg}")


def scenario_from_epoch(d, ctx):
    """Rolling back to an explicitly chosen epoch and training again."""
    cfg = tc.draw_cfg(d)
    cfg["loop"]["store_checkpoints_purge"] = 0
    epochs = d.integer(3, 5)
    with dk.Disk() as D:
        m = tc.Machine(d, ctx, cfg, D)
        kind, ref = m.train(epochs)
        must(kind, ref, "trainer-failed-without-fault")
        total, oplog, fw = m.ops, m.oplog, m.forwards
        at = d.integer(1, epochs - 1)

        def from_epoch(ex):
            ex.model_factory.resume_epoch = at

        hist = []
        if d.chance(1, 2):
            plan = tc.draw_plan(d, m, total, oplog, fw)
            kind, val = tc.apply_plan(m, plan, epochs, ctx, setup=from_epoch)
            hist.append((plan, kind, m.fired))
        kind, got = m.train(epochs, setup=from_epoch)
        must(kind, got, "cannot-resume")
        ctx.check(got["start_epoch"] == at + 1, "wrong-resume-epoch", got["start_epoch"], at)
        ctx.nontrivial = True
        ctx.count("explicit_rollbacks")
        ctx.event("start", got["start_epoch"], *(got[f] for f in FIELDS))
        compare(ctx, ref, got, f"resumed explicitly from epoch {at}, history {hist}, config {cfg}")


SCENARIOS = [
    Scenario("resume", scenario, quick=220, thorough=8000, max_wall=180),
    Scenario("rollback", scenario_from_epoch, quick=60, thorough=2000, max_wall=180),
]

META = {
    "rule": "a run is one seed: a training configuration, up to 4 interrupted or cleanly stopped trainer processes, and a "
    "final process, compared bitwise with the uninterrupted execution; nontrivial = something really interrupted training",
    "state_measure": "distinct (last file operation, way the process ended, operation index, faults fired)",
    "real": "Experiment.run, model/optimizer factories, training loop, model_io, Stats, loaders and samplers, optimisers, "
    "schedulers, torch serialization, accelerate",
    "stub": "two-layer model and in-memory dataset (workload), matplotlib drawing, visdom server, wall clock",
    "assumptions": [
        "CPU, single process, one math thread: bitwise reproducibility of the uninterrupted run is itself checked",
        "the model draws its randomness from torch, numpy and random, the engines the trainer re-seeds each epoch",
        "sec/it statistics are compared by C05, not here",
    ],
    "level": "exploration",
}
