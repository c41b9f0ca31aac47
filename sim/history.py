"""Machinery shared by the checks of the data structures: a pool of real objects,
each with the reference model of its content, driven through a random history of
operations with failing operators, interruptions and concurrent readers."""

import os

import torch

from . import threads as th
from .core import Violation

FILES = [os.path.join(th.REPO, "pytorch3d") + os.sep]


class World:
    def __init__(self, d, ctx, accessors, draw_call):
        self.d, self.ctx = d, ctx
        self.accessors = accessors  # model -> {name: (call, check)}
        self.draw_call = draw_call
        self.pool = []  # (object, model)
        self.own = []
        self.log = []

    def keep(self, x):
        """A tensor of the caller: must never change."""
        self.own.append((x, x.clone()))
        return x

    # -- oracles
    def verify(self, o, m, names=None, where=""):
        acc = self.accessors(m)
        if len(o) != m.N:
            raise Violation("wrong-batch-size", f"{len(o)} {m.N} {where} {self.log}")
        if bool(o.isempty()) != m.empty():
            raise Violation("wrong-isempty", f"{where} {self.log}")
        for name in names or acc:
            if name not in acc:
                continue
            call, chk = acc[name]
            try:
                r = call(o)
            except Exception as e:
                raise Violation("accessor-raises-" + name, f"{type(e).__name__} {e} {where} after {self.log}")
            self.ctx.count("oracle_checks")
            msg = chk(m, r)
            if msg:
                raise Violation("inconsistent-" + name, f"{msg} {where} after {self.log}")

    def inputs_untouched(self):
        for x, c in self.own:
            if not torch.equal(x, c):
                raise Violation("input-tensor-modified", f"after {self.log}")

    def some_accessors(self, m):
        acc = sorted(self.accessors(m))
        return [self.d.pick(acc) for _ in range(self.d.integer(1, 4))]

    def call(self, name, fn):
        try:
            return fn()
        except Exception as e:
            raise Violation("operation-raises-" + name.split("(")[0].split("[")[0], f"{type(e).__name__} {e} in {name} after {self.log}")


def faulty(w, fn):
    """Run fn with one failing operator or an interruption at some line.
    -> (finished, value)"""
    d, ctx = w.d, w.ctx
    if d.chance(1, 2):
        at = d.gap(6)
        ctx.arm("failing_operator")
        f = th.OpFaults(at)
        try:
            with f:
                r = fn()
        except th.AllocFail:
            ctx.fault("failing_operator")
            w.log.append(f"!op{at}")
            return False, None
        return True, r
    at = d.gap(8)
    ctx.arm("interrupt")
    exc = d.pick([KeyboardInterrupt, MemoryError])
    r, fired = th.interrupted(fn, FILES, at, exc)
    if fired:
        ctx.fault("interrupt")
    if r[0] == "raise":
        if fired:
            w.log.append(f"!line{at}")
            return False, None
        raise r[1]
    return True, r[1]


def concurrent(w):
    d, ctx = w.d, w.ctx
    i = d.choice(len(w.pool))
    o, m = w.pool[i]
    acc = w.accessors(m)
    names = sorted(acc)
    nt = d.integer(2, 4)
    jobs, checks = [], []
    for _ in range(nt):
        seq = []
        for _ in range(d.integer(1, 3)):
            if d.chance(1, 4):
                nm, call, model = w.draw_call(w, i)
                seq.append((nm, call, None, model))
            else:
                nm = d.pick(names)
                seq.append((nm, lambda c=acc[nm][0]: c(o), acc[nm][1], m))

        def job(seq=seq):
            return [call() for _, call, _, _ in seq]

        jobs.append(job)
        checks.append(seq)
    pre = th.draw_preemptions(d, nt, 0, 24, 7)
    s = th.Sched(FILES, pre, opcodes=d.chance(1, 8))
    w.log.append(f"threads{[[x[0] for x in q] for q in checks]}")
    res = s.run(jobs)
    if s.dead:
        raise Violation("readers-never-finish", f"{s.dead} {w.log}")
    ctx.fault("preemption", s.di) if s.di else None
    ctx.count("thread_switches", s.switches)
    ctx.event("threads", s.points, s.trail)
    ctx.state("sched", tuple(s.trail))
    ctx.sim_time += s.points * 1e-6
    for (st, val), seq in zip(res, checks):
        if st != "ok":
            raise Violation(
                "concurrent-reader-raises", f"{type(val).__name__} {val} in {[x[0] for x in seq]} after {w.log}"
            )
        for r, (nm, _, chk, model) in zip(val, seq):
            if chk is None:
                w.verify(r, model, w.some_accessors(model), where=f"(result of {nm} in a thread)")
                continue
            ctx.count("oracle_checks")
            msg = chk(model, r)
            if msg:
                raise Violation("concurrent-reader-" + nm, f"{msg} after {w.log}")


def history(w, draw_batch, draw_inplace, extra=None):
    d, ctx = w.d, w.ctx
    torch.manual_seed(0)
    for _ in range(d.integer(1, 2)):
        w.pool.append(draw_batch(w))
    for _ in range(d.integer(2, 10)):
        i = d.choice(len(w.pool))
        o, m = w.pool[i]
        k = d.weighted([4, 4, 2, 3, 1, 1 if extra else 0])
        fault = d.chance(1, 3)
        if k == 0:
            names = w.some_accessors(m)
            w.log.append(f"{i}.{names}")
            if fault:
                acc = w.accessors(m)
                faulty(w, lambda: [acc[n][0](o) for n in names])
            w.verify(o, m, names)
        elif k == 1:
            name, call, model = w.draw_call(w, i)
            w.log.append(f"{i}.{name}")
            if fault:
                done, r = faulty(w, call)
            else:
                done, r = True, w.call(name, call)
            if done:
                w.verify(r, model, w.some_accessors(model), where=f"(result of {name})")
                if len(w.pool) < 4:
                    w.pool.append((r, model))
                else:
                    w.pool[d.choice(4)] = (r, model)
        elif k == 2:
            if m.empty():
                continue
            name, call, model = draw_inplace(w, i)
            w.log.append(f"{i}.{name}")
            if fault:
                done, _ = faulty(w, call)
            else:
                done, _ = True, w.call(name, call)
            # an in-place change that failed half way leaves no promise about
            # the object itself, only about every other one
            if done:
                w.pool[i] = (o, model)
                w.verify(o, model, w.some_accessors(model))
            elif len(w.pool) > 1:
                w.pool.pop(i)
            else:
                w.pool[i] = draw_batch(w)
        elif k == 3:
            concurrent(w)
        elif k == 5:
            extra(w, i)
        else:
            w.pool.append(draw_batch(w))
            if len(w.pool) > 4:
                w.pool.pop(0)
        ctx.event(k, len(w.log), w.log[-1] if w.log else "")
        j = d.choice(len(w.pool))
        w.verify(*w.pool[j], w.some_accessors(w.pool[j][1]))
        w.inputs_untouched()
    for o, m in w.pool:
        w.verify(o, m)
    w.inputs_untouched()
    ctx.nontrivial = True
