"""C09: the multi-threaded CPU mesh rasteriser gives the single-threaded result
for every number of threads, interleaving and thread-creation failure."""

import numpy as np
import torch

from .. import instr
from ..core import Scenario, Violation
from pytorch3d import _C
from pytorch3d.renderer.mesh.rasterize_meshes import rasterize_meshes
from pytorch3d.structures import Meshes

PROPERTY = "C09"
NS = None
CALL = [None]  # what the seam does around the native call


def prepare(tier):
    global NS
    try:
        mod = instr.module()
    except RuntimeError as e:
        raise SystemExit(f"cannot build the C++ code: {e}")
    NS = instr.NativeSched()

    def seam(*args):
        if CALL[0] is None:
            return mod.rasterize_meshes(*args)
        return CALL[0](mod.rasterize_meshes, args)

    _C.rasterize_meshes = seam
    # warm up lazily initialised state of the C++ side, threads included
    m = Meshes(verts=[torch.rand(3, 3)], faces=[torch.tensor([[0, 1, 2]])])
    for n in (1, 2):
        torch.set_num_threads(n)
        rasterize_meshes(m, image_size=4, faces_per_pixel=2)
    torch.set_num_threads(1)


def draw_meshes(d):
    n = 1 + d.weighted([4, 3, 2, 1])
    verts, faces = [], []
    g = np.random.RandomState(d.seed32())
    grid = d.chance(1, 3)
    for _ in range(n):
        f = d.weighted([1, 2, 3, 3, 2])
        f = [0, 1, d.integer(2, 4), d.integer(4, 10), d.integer(8, 24)][f]
        v = g.uniform(-1.3, 1.3, (f + 3, 3)).astype("float32")
        v[:, 2] = g.uniform(-0.2 if d.chance(1, 3) else 0.1, 3, f + 3)
        if grid:
            # equal depths and pixel-aligned edges: ties
            v = (np.round(v * 4) / 4).astype("float32")
        k = g.randint(0, f + 3, (f, 3)).astype("int64")
        verts.append(torch.from_numpy(v))
        faces.append(torch.from_numpy(k))
    return Meshes(verts=verts, faces=faces)


def scenario(d, ctx):
    meshes = draw_meshes(d)
    H, W = d.integer(1, 14), d.integer(1, 10)
    kw = dict(
        image_size=(H, W),
        blur_radius=d.pick([0.0, 0.01, 0.1]),
        faces_per_pixel=d.integer(1, 5),
        perspective_correct=d.chance(1, 3),
        clip_barycentric_coords=d.chance(1, 3),
        cull_backfaces=d.chance(1, 4),
        bin_size=0,
    )
    if d.chance(1, 4):
        kw["z_clip_value"] = 0.3
    if d.chance(1, 4):
        kw["cull_to_frustum"] = True
    want = None
    S = NS.S

    def single(fn, args):
        torch.set_num_threads(1)
        r = fn(*args)
        return r

    try:
        CALL[0] = single
        want = [x.numpy().tobytes() for x in rasterize_meshes(meshes, **kw)]
        for rep in range(d.integer(1, 3)):
            n = d.pick([2, 3, 4, 5, 7, 8, H, H + 1, H + 3, 16, 24])
            n = max(1, min(n, 24))
            pre, picks = instr.draw_plan(d, n)
            fail = 0
            if d.chance(1, 3):
                ctx.arm("thread_creation_failure")
                for _ in range(d.integer(1, 3)):
                    fail |= 1 << d.choice(n)
            NS.plan(pre, picks, fail)
            info = {}

            def seam(fn, args):
                torch.set_num_threads(n)
                try:
                    r, snap, left = NS.call(fn, *args)
                finally:
                    torch.set_num_threads(1)
                info["snap"], info["left"] = snap, left
                return r

            CALL[0] = seam
            where = f"H={H} W={W} threads={n} {kw} preemptions={len(pre)} failing={fail:b}"
            try:
                got = [x.numpy().tobytes() for x in rasterize_meshes(meshes, **kw)]
            except RuntimeError as e:
                ctx.check(S.create_failed > 0, "raised", e, where)
                ctx.fault("thread_creation_failure", S.create_failed)
                ctx.count("error_reported")
                ctx.event("error reported")
                continue
            if S.create_failed:
                ctx.fault("thread_creation_failure", S.create_failed)
            if S.switches:
                ctx.fault("preemption", min(S.di, S.nd))
            ctx.count("thread_switches", S.switches)
            ctx.count("accesses_checked", S.accesses)
            ctx.count("threads_created", S.created)
            if S.free_mode:
                ctx.count("runs_without_control")
            ctx.check(info["left"] == 0, "returns-before-the-workers-finished", info["left"], where)
            ctx.check(got == want, "differs-from-single-threaded-result", where)
            ctx.check(not S.races, "data-race", f"kind {S.race_kind} threads {S.race_t1},{S.race_t2}", where)
            ctx.check(not S.oob, "out-of-bounds-access", "write" if S.oob_write else "read", where)
            if not S.free_mode:
                ctx.event(n, S.steps, S.switches, S.created, S.create_failed, hex(S.sched_hash))
                ctx.state(S.sched_hash)
            ctx.sim_time += S.steps * 1e-9
    finally:
        CALL[0] = None
        torch.set_num_threads(1)


SCENARIOS = [Scenario("raster", scenario, quick=2000, thorough=250000, max_wall=90)]

META = {
    "rule": "a run is one seed: a batch of meshes, an image, and 1-3 executions with 1-24 threads, up to 120 preemptions and failing thread "
    "creations, each compared with the single-threaded result; nontrivial = a preemption or failure happened",
    "state_measure": "distinct schedules (hash of every switch position and target)",
    "real": "rasterize_meshes (Python), csrc/rasterize_meshes/*.cpp compiled from the working tree with access instrumentation, real pthreads",
    "stub": "scheduler: one thread runs at a time, chosen by the seed; pthread_create may fail; ThreadSanitizer runtime replaced by the scheduler",
    "assumptions": [
        "sequentially consistent interleavings at memory-access granularity (races are reported separately, so weaker orders only matter where a race is reported)",
        "code inside libtorch is not instrumented",
        "simulated time counts 1 ns per instrumented access",
    ],
    "level": "exploration",
}
