"""C01: whatever interrupts a training process, the experiment directory always
holds a complete, mutually consistent newest checkpoint (or none), and a new
process resumes from it."""

import os

from .. import disk as dk, trainchk as tc, trainsim as ts
from ..core import Scenario, Violation
from pytorch3d.implicitron.tools import model_io

PROPERTY = "C01"


def prepare(tier):
    ts.warm_up()


def steps_per_epoch(cfg, ref):
    return ref


def inspect(m, ctx, per_epoch, where):
    """A second process looks at the directory through the public functions."""

    def body():
        fls = model_io.find_last_checkpoint("exp", all_checkpoints=True)
        out = []
        for fl in fls or []:
            ep = model_io.parse_epoch_from_model_path(fl)
            sd, stats, opt = model_io.load_model(fl, map_location=None)
            steps = None
            if opt is not None:
                st = [s["step"] for s in opt["state"].values() if "step" in s]
                steps = sorted({int(x) for x in st})
            out.append(
                (
                    ep,
                    int(sd["seen"]),
                    opt is not None,
                    steps,
                    None if stats is None else stats.epoch,
                    ts.digest_state(sd),
                    None if opt is None else ts.digest_state(opt),
                    None if stats is None else ts.stats_view(stats),
                )
            )
        return out

    kind, val = dk.run_process(m.disk, body)
    if kind != "exit":
        raise Violation(
            "visible-checkpoint-unreadable",
            f"after {where}: {val}\ndirectory: {tc.tree(m)}",
        )
    for ep, seen, has_opt, steps, sep, *_ in val:
        ctx.check(has_opt, "checkpoint-without-optimizer", f"epoch {ep} after {where}; {tc.tree(m)}")
        ctx.check(sep is not None, "checkpoint-without-stats", f"epoch {ep} after {where}; {tc.tree(m)}")
        ctx.check(sep == ep, "stats-of-other-epoch", f"checkpoint {ep} has stats of epoch {sep} after {where}")
        ctx.check(
            seen == per_epoch * (ep + 1),
            "model-of-other-epoch",
            f"checkpoint {ep} holds a model after {seen} steps, {per_epoch} per epoch; after {where}",
        )
        if steps:
            ctx.check(
                steps == [per_epoch * (ep + 1)],
                "optimizer-of-other-epoch",
                f"checkpoint {ep} optimizer steps {steps}, expected {per_epoch * (ep + 1)}; after {where}",
            )
    ctx.event("checkpoints", [(v[0], v[1], v[5], v[6]) for v in val])
    return val


def scenario(d, ctx):
    cfg = tc.draw_cfg(d)
    epochs = d.integer(2, 4)
    with dk.Disk() as D:
        m = tc.Machine(d, ctx, cfg, D)
        # fault-free execution: the reference, and the extent of the fault space
        kind, ref = m.train(epochs)
        if kind != "exit":
            raise Violation("trainer-failed-without-fault", str(val_text(ref)))
        total, oplog, fw = m.ops, m.oplog, m.forwards
        per_epoch = fw // epochs
        whole = inspect(m, ctx, per_epoch, "a fault-free run")
        ctx.check(whole and whole[-1][0] == epochs - 1, "last-epoch-not-stored", [w[0] for w in whole])
    with dk.Disk() as D:
        m = tc.Machine(d, ctx, cfg, D)
        n = d.integer(1, 4)
        done = False
        for k in range(n):
            plan = tc.draw_plan(d, m, total, oplog, fw)
            before = [v[:] for v in inspect(m, ctx, per_epoch, "restart")] if k else []
            kind, val = tc.apply_plan(m, plan, epochs, ctx)
            where = f"process {k} ended with {kind}, plan {plan}, fired {m.fired}, {m.ops} file operations"
            inspect(m, ctx, per_epoch, where)
            if kind == "exit":
                done = True
                break
        # faults stop: one more process must finish the training
        kind, val = m.train(epochs)
        if kind != "exit":
            raise Violation(
                "cannot-resume",
                f"after {where}: {val[0]}: {val[1]}\n{tc.tree(m)}\n{val[2]}",
            )
        got = inspect(m, ctx, per_epoch, "recovery")
        ctx.check(got and got[-1][0] == epochs - 1, "recovery-did-not-finish", [g[0] for g in got])
        ctx.count("processes", n + 2)
        ctx.event("final", val["start_epoch"], val["model"])


def val_text(v):
    return v[-1] if isinstance(v, tuple) else v


# -------------------------------------------------- the save function itself
def scenario_overwrite(d, ctx):
    """safe_save_model over an existing checkpoint of the same epoch (a user
    re-saving, or a resumed run repeating an epoch): an interruption leaves the
    old complete set or the new complete set or no visible checkpoint, never a
    mixture that loads."""
    import torch
    from pytorch3d.implicitron.tools.stats import Stats

    torch.manual_seed(d.choice(100))
    sep = d.chance(1, 4)
    opt_kind = d.pick(["Adam", "SGD"])
    ep = d.integer(0, 3)
    with_opt = not d.chance(1, 6)
    relative = d.chance(1, 3)
    gens = []
    for g in range(2):
        model = torch.nn.Linear(3, 2)
        model.register_buffer("gen", torch.tensor(g))
        opt = (
            torch.optim.Adam(model.parameters(), lr=0.1 * (g + 1))
            if opt_kind == "Adam"
            else torch.optim.SGD(model.parameters(), lr=0.1 * (g + 1), momentum=0.9)
        )
        for _ in range(g + 1):
            opt.zero_grad()
            model(torch.rand(2, 3)).sum().backward()
            opt.step()
        st = Stats(["objective"], do_plot=False)
        for _ in range(ep + 1):
            st.new_epoch()
            st.update({"objective": float(g)})
        gens.append((model, opt if with_opt else None, st))
    with dk.Disk() as D:
        os.mkdir(os.path.join(D.data, "exp"))
        fl = model_io.get_checkpoint("exp" if relative else os.path.join(D.data, "exp"), ep)

        def save(g):
            model, opt, st = gens[g]
            model_io.safe_save_model(model, st, fl, optimizer=opt)

        first = d.chance(2, 3)
        if first:
            kind, val = dk.run_process(D, lambda: save(0))
            if kind != "exit":
                raise Violation("save-failed-without-fault", val)
        total = 40
        faults = []
        for _ in range(1 + d.choice(2)):
            k = d.pick(tc.FILE_FAULTS)
            ctx.arm(k)
            faults.append((d.choice(total), k, d.choice(256)))
        kind, val = dk.run_process(D, lambda: save(1), faults, sep)
        fired = D.fired()
        for k, n in fired.items():
            ctx.fault(k, n)
        log = D.oplog()
        ctx.event(kind, val[0] if kind == "error" else "", sorted(fired.items()), len(log))
        ctx.state(kind, sorted(fired), len(log), log[-1] if log else "")
        where = f"{kind} {val if kind == 'error' else ''} fired {fired} separate tmp {sep} after {log}"
        if kind == "error" and not set(fired) - {"short_write", "EINTR", "EXDEV"}:
            raise Violation("save-failed-without-fault", where)

        def look():
            if model_io.find_last_checkpoint("exp") is None:
                return None
            sd, stats, opt = model_io.load_model(fl, map_location=None)
            lr = None if opt is None else round(opt["param_groups"][0]["lr"] / 0.1) - 1
            return (int(sd["gen"]), lr, int(stats.stats["train"]["objective"].get_epoch_averages()[-1]) if stats else None)

        k2, got = dk.run_process(D, look)
        if k2 != "exit":
            raise Violation("visible-checkpoint-unreadable", f"{got}\n{where}")
        ctx.event("seen", got)
        want = [(g, g if with_opt else None, g) for g in (0, 1)]
        if kind == "exit":
            ctx.check(got == want[1], "save-reported-success-but-lost", got, where)
        elif got is None:
            ctx.check(True, "x")
        elif not first:
            ctx.check(got == want[1], "partial-checkpoint-visible", got, where)
        else:
            ctx.count("overwrite_interrupted")
            # an existing set may be partially superseded only by whole files
            ctx.check(
                got[0] in (0, 1) and got[2] in (0, 1) and (got[1] in (0, 1)) == with_opt,
                "checkpoint-file-lost",
                got,
                where,
            )


SCENARIOS = [
    Scenario("trainer_crash", scenario, quick=150, thorough=6000, max_wall=180),
    Scenario("save_crash", scenario_overwrite, quick=400, thorough=20000, max_wall=120),
]

META = {
    "rule": "a run is one seed: an implicitron training configuration, 1-4 trainer processes each with drawn faults, "
    "and a fault-free recovery; distinct = distinct event digest; nontrivial = a fault really fired",
    "state_measure": "distinct (last file operation, way the process ended, operation index, faults fired)",
    "real": "Experiment.run, model/optimizer factories, ImplicitronTrainingLoop, model_io, Stats, data loader map "
    "providers, torch serialization, accelerate, libc file calls on a scratch file system through the shim",
    "stub": "two-layer model and in-memory dataset (workload), matplotlib drawing, visdom server, wall clock",
    "assumptions": [
        "crash = the process dies at a file-system call (or inside a training step) and everything the kernel accepted survives; "
        "power loss with unflushed page cache is outside the model because the code never calls fsync",
        "CPU only, one training process at a time per experiment directory",
    ],
    "level": "exploration",
}
