"""C10: inverse-transform sampling (sample_pdf) is independent of threads and
schedule, touches only its own rows and stays inside the bins for every random draw."""

import numpy as np
import torch
from unittest import mock

from .. import instr
from ..core import Scenario
from pytorch3d import _C
from pytorch3d.renderer.implicit import sample_pdf as sp

PROPERTY = "C10"
NS = None
CALL = [None]


def prepare(tier):
    global NS
    try:
        mod = instr.module()
    except RuntimeError as e:
        raise SystemExit(f"cannot build the C++ code: {e}")
    NS = instr.NativeSched()

    def seam(*args):
        if CALL[0] is None:
            return mod.sample_pdf(*args)
        return CALL[0](mod.sample_pdf, args)

    _C.sample_pdf = seam
    for n in (1, 3):
        torch.set_num_threads(n)
        sp.sample_pdf(torch.linspace(0, 1, 5).expand(7, 5), torch.rand(7, 4), 3)
    torch.set_num_threads(1)


CANARY = 1234.5


def guarded(x):
    """A copy of x inside a larger buffer; returns view, guards, buffer."""
    n = x.numel()
    buf = torch.full((n + 128,), CANARY, dtype=x.dtype)
    v = buf[64 : 64 + n].view(x.shape)
    v.copy_(x)
    a = buf.data_ptr()
    return v, [(a, 256), (a + 4 * (64 + n), 256)], buf


def canaries_ok(buf, n):
    return bool((buf[:64] == CANARY).all() and (buf[64 + n :] == CANARY).all())


def reference(bins, weights, u, eps):
    """The documented sampling in double precision, one quantile at a time."""
    out = np.zeros(u.shape)
    for b in range(u.shape[0]):
        w = weights[b].astype("float64")
        tot = w.sum() + eps
        cum = np.concatenate([[0.0], np.cumsum(w)])
        for i in range(u.shape[1]):
            x = u[b, i] * tot
            k = int(np.searchsorted(cum[1:-1], x, side="left")) if len(w) > 1 else 0
            r = x - cum[k]
            s, e = float(bins[b, k]), float(bins[b, k + 1])
            if r > w[k]:
                out[b, i] = e
            elif w[k] > eps:
                out[b, i] = s + r / w[k] * (e - s)
            else:
                out[b, i] = s
    return out


def scenario(d, ctx):
    S = NS.S
    B = d.pick([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 17])
    K = d.pick([1, 2, 3, 5, 8, 16])
    N = d.pick([1, 2, 3, 5, 9])
    g = np.random.RandomState(d.seed32())
    width = g.uniform(0.05, 1, (B, K))
    bins = np.concatenate([np.zeros((B, 1)), np.cumsum(width, 1)], 1).astype("float32") + np.float32(g.uniform(-2, 2))
    kind = d.weighted([4, 2, 2, 1])
    weights = g.uniform(0.05, 1, (B, K)).astype("float32")
    if kind == 1:
        weights *= g.rand(B, K) > 0.5
    elif kind == 2:
        weights = (weights ** 20).astype("float32")
    elif kind == 3:
        weights[:] = 0
    # the random engine, adversarial at times
    u = g.rand(B, N).astype("float32")
    if d.chance(1, 3):
        ctx.fault("extreme_random_draw")
        sel = g.rand(B, N) < 0.5
        u[sel] = g.choice(np.array([0.0, 1 - 2.0**-24, 2.0**-24, 0.5], "float32"), int(sel.sum()))
    det = d.chance(1, 5)
    eps = 1e-5
    grad = d.chance(1, 4)
    shape = (B,)
    if B in (4, 6, 8) and d.chance(1, 2):
        shape = (2, B // 2)

    def run(n, pre=(), picks=(), fail=0):
        """-> (samples, info)"""
        info = {}

        def rand(*a, **k):
            return torch.from_numpy(u.copy()).reshape(tuple(a[0]) if len(a) == 1 and not isinstance(a[0], int) else tuple(a))

        def seam(fn, args):
            bi, we, out = args[0], args[1], args[2]
            b2, g1, buf1 = guarded(bi.detach())
            w2, g2, buf2 = guarded(we.detach())
            o2, g3, buf3 = guarded(out)
            torch.set_num_threads(n)
            try:
                if n == 1:
                    fn(b2, w2, o2, *args[3:])
                    info["left"] = 0
                else:
                    NS.plan(list(pre), list(picks), fail)
                    _, info["snap"], info["left"] = NS.call(
                        fn, b2, w2, o2, *args[3:], guards=g1 + g2 + g3
                    )
            finally:
                torch.set_num_threads(1)
            info["canary"] = all(
                canaries_ok(b, x.numel()) for b, x in ((buf1, bi), (buf2, we), (buf3, out))
            )
            info["inputs"] = torch.equal(b2, bi) and torch.equal(w2, we)
            info["ran"] = True
            out.copy_(o2)

        CALL[0] = seam
        tb, tw = torch.from_numpy(bins).reshape(*shape, K + 1), torch.from_numpy(weights).reshape(*shape, K)
        try:
            with mock.patch("torch.rand", rand):
                r = sp.sample_pdf(tb, tw, N, det=det, eps=eps)
        finally:
            CALL[0] = None
        return r.reshape(B, N).numpy().copy(), info

    base, info = run(1)
    ctx.check(info.get("canary", True) and info.get("inputs", True), "out-of-bounds-write", "one thread", B, K, N)
    where0 = f"B={B} K={K} N={N} det={det} weights={kind}"
    if B:
        lo, hi = bins[:, :1], bins[:, -1:]
        ctx.check(bool(np.isfinite(base).all()), "not-finite", where0)
        tol = 1e-5 * (1 + np.abs(bins).max())
        ctx.check(
            bool(((base >= lo - tol) & (base <= hi + tol)).all()), "sample-outside-the-bins", where0
        )
        q = np.linspace(0, 1, N, dtype="float32")[None].repeat(B, 0) if det else u
        if kind == 0:
            ref = reference(bins, weights, q.astype("float64"), eps)
            ctx.check(
                bool(np.abs(base - ref).max() < 1e-3), "not-the-inverse-of-the-distribution",
                float(np.abs(base - ref).max()), where0,
            )
        for b in range(B):
            o = np.argsort(q[b], kind="stable")
            ctx.check(bool((np.diff(base[b][o]) >= -tol).all()), "not-monotone-in-the-quantile", where0)
    for rep in range(d.integer(1, 3)):
        n = d.pick([2, 3, 4, 5, 8, 16])
        pre, picks = instr.draw_plan(d, 5)
        fail = 0
        if d.chance(1, 4):
            ctx.arm("thread_creation_failure")
            fail = 1 << d.choice(3)
        where = f"{where0} threads={n} preemptions={len(pre)} failing={fail:b}"
        S.create_failed = S.switches = S.steps = S.created = S.races = S.oob = S.free_mode = 0
        try:
            got, info = run(n, pre, picks, fail)
        except RuntimeError as e:
            ctx.check(S.create_failed > 0, "raised", e, where)
            ctx.fault("thread_creation_failure", S.create_failed)
            ctx.event("error reported")
            continue
        if S.create_failed:
            ctx.fault("thread_creation_failure", S.create_failed)
        if S.switches:
            ctx.fault("preemption", min(S.di, S.nd))
        ctx.count("thread_switches", S.switches)
        ctx.count("accesses_checked", S.accesses)
        if S.free_mode:
            ctx.count("runs_without_control")
        ctx.check(info.get("left", 0) == 0, "returns-before-the-workers-finished", where)
        ctx.check(info.get("canary", True), "out-of-bounds-write", where)
        ctx.check(not S.oob, "out-of-bounds-access", "write" if S.oob_write else "read", where)
        ctx.check(info.get("inputs", True), "inputs-modified", where)
        ctx.check(got.tobytes() == base.tobytes(), "differs-from-single-threaded-result", where)
        ctx.check(not S.races, "data-race", f"kind {S.race_kind} threads {S.race_t1},{S.race_t2}", where)
        if not S.free_mode:
            ctx.event(n, S.steps, S.switches, S.created, S.create_failed, hex(S.sched_hash))
            ctx.state(S.sched_hash)
        ctx.sim_time += S.steps * 1e-9


SCENARIOS = [Scenario("sample_pdf", scenario, quick=4000, thorough=500000, max_wall=90)]

META = {
    "rule": "a run is one seed: bins, weights, random draws (extreme ones included) and 1-3 executions with 2-16 threads, up to 120 preemptions and "
    "failing thread creations; nontrivial = a preemption, failure or extreme draw happened",
    "state_measure": "distinct schedules (hash of every switch position and target)",
    "real": "sample_pdf (Python), csrc/sample_pdf/*.cpp compiled from the working tree with access instrumentation, real pthreads",
    "stub": "scheduler: one thread runs at a time, chosen by the seed; pthread_create may fail; torch.rand",
    "assumptions": [
        "sequentially consistent interleavings at memory-access granularity (races are reported separately)",
        "code inside libtorch is not instrumented",
        "simulated time counts 1 ns per instrumented access",
    ],
    "level": "exploration",
}
