"""C13: MeshRasterizerOpenGL and the per-device EGL/CUDA contexts under concurrent
use of several devices, with a simulated GPU driver whose calls may fail."""

import contextlib
import importlib
import io
import sys

import numpy as np
import torch
from torch.overrides import TorchFunctionMode

from .. import fakegl, threads as th
from ..core import Scenario

th.install()
fakegl.install()

import pytorch3d.renderer  # noqa: E402
from pytorch3d.renderer import (  # noqa: E402
    FoVOrthographicCameras,
    FoVPerspectiveCameras,
    MeshRasterizer,
    RasterizationSettings,
    look_at_view_transform,
)
from pytorch3d.structures import Meshes  # noqa: E402

PROPERTY = "C13"
FILES = [th.REPO + "/pytorch3d/renderer/opengl/"]
REPORTED = (fakegl.EGLError, fakegl.GLError, fakegl.LogicError, RuntimeError, ValueError)
SIZE = 24


class OnGpu(TorchFunctionMode):
    """Tensors claim to live on the n-th device (never 0: cpu:0 equals cpu)."""

    def __init__(self, n):
        super().__init__()
        self.dev = torch.device("cpu", n)

    def __torch_function__(self, func, types, args=(), kwargs=None):
        r = func(*args, **(kwargs or {}))
        return self.dev if isinstance(r, torch.device) and func is not torch.device else r


def fresh(ndev):
    """A process just started on a machine with that many GPUs."""
    drv = fakegl.Driver.cur = fakegl.Driver(ndev + 1)
    for k in [k for k in sys.modules if k.startswith("pytorch3d.renderer.opengl")]:
        del sys.modules[k]
    pkg = importlib.import_module("pytorch3d.renderer.opengl")
    pkg.global_device_context_store.max_egl_width = SIZE
    pkg.global_device_context_store.max_egl_height = SIZE
    return drv, pkg


class Scene:
    """What one rasterization gets as input; the tensors are built anew each time."""

    def __init__(self, d, nfaces=None):
        g = np.random.RandomState(d.seed32())
        self.n = d.pick([1, 1, 2, 3])
        self.faces = [d.integer(0 if self.n > 1 and nfaces is None else 1, 5) for _ in range(self.n)]
        self.faces[0] = self.faces[0] if any(self.faces) else 1
        if nfaces:
            self.faces[-1] = nfaces
        self.verts = [g.uniform(-1, 1, (max(3 * f, 3), 3)).astype("float32") for f in self.faces]
        for v in self.verts:
            v[:, 2] *= 0.6
        self.h, self.w = d.pick([(8, 8), (16, 16), (10, 14), (13, 7), (SIZE, SIZE)])
        self.ortho = d.chance(1, 3)
        self.many = d.chance(1, 2) and self.n > 1
        self.views = g.uniform([2.0, -40, -90], [3.5, 40, 90], (self.n if self.many else 1, 3)).astype("float32")
        self.fov = float(g.uniform(35, 70))

    def build(self):
        v = torch.from_numpy(self.views)
        R, T = look_at_view_transform(v[:, 0], v[:, 1], v[:, 2])
        if self.ortho:
            cam = FoVOrthographicCameras(R=R, T=T, min_x=-1.5, max_x=1.5, min_y=-1.5, max_y=1.5, znear=0.3, zfar=12.0)
        else:
            cam = FoVPerspectiveCameras(R=R, T=T, fov=self.fov, znear=0.3, zfar=12.0)
        m = Meshes(
            verts=[torch.from_numpy(x.copy()) for x in self.verts],
            faces=[torch.arange(3 * f).reshape(f, 3) for f in self.faces],
        )
        return m, cam

    def settings(self, max_faces, **kw):
        return RasterizationSettings(
            image_size=(self.h, self.w), faces_per_pixel=1, perspective_correct=True, max_faces_opengl=max_faces, **kw
        )

    def expected(self):
        """PyTorch3D's own CPU rasterizer: (face of each pixel, trusted pixels, depth, barycentrics)"""
        m, cam = self.build()
        k = max(1, sum(self.faces))
        s = RasterizationSettings(
            image_size=(self.h, self.w), faces_per_pixel=k, blur_radius=2e-4,
            clip_barycentric_coords=False, cull_to_frustum=False, bin_size=0,
        )
        if cam.R.shape[0] == 1 and self.n > 1:
            cam = cam[[0] * self.n]
        f = MeshRasterizer(cameras=cam, raster_settings=s)(m)
        hit = f.pix_to_face >= 0
        inside = hit & (f.dists < 0)
        z = torch.where(inside, f.zbuf, torch.full_like(f.zbuf, 1e9))
        zs, order = z.sort(-1)
        face = torch.where(zs[..., :1] < 1e8, f.pix_to_face.gather(-1, order[..., :1]), -1)
        ok = ~(hit & (f.dists.abs() < 1e-4)).any(-1, keepdim=True)
        if k > 1:
            ok &= ~((zs[..., 1:2] < 1e8) & (zs[..., 1:2] - zs[..., :1] < 1e-3))
        bary = f.bary_coords.gather(-2, order[..., :1, None].expand(*order.shape[:3], 1, 3))
        return face.numpy(), ok.numpy(), zs[..., :1].numpy(), bary.numpy()


def frag(f):
    return tuple(np.ascontiguousarray(x.numpy()) for x in (f.pix_to_face, f.bary_coords, f.zbuf))


def same(a, b):
    return all(x.shape == y.shape and x.dtype == y.dtype and x.tobytes() == y.tobytes() for x, y in zip(a, b))


def against_cpu(ctx, scene, got):
    face, ok, z, bary = scene.expected()
    pix, b, zb = got
    ctx.check(pix.shape == face.shape, "wrong-shape", pix.shape, face.shape)
    bad = (pix != face) & ok
    ctx.check(
        not bad.any(), "other-face-than-the-cpu-rasterizer",
        f"{int(bad.sum())} pixels, e.g. {pix[bad][:3]} instead of {face[bad][:3]}; faces per mesh {scene.faces}",
    )
    on = ok & (face >= 0)
    dz = np.abs(zb - z) * on
    k = np.unravel_index(dz.argmax(), dz.shape)
    ctx.check(dz[k] < 5e-3, "other-depth-than-the-cpu-rasterizer", zb[k], z[k], pix[k], b[k[:3]], bary[k[:3]])
    ctx.check(
        np.abs(b - bary)[on[..., 0]].max(initial=0) < 2e-2, "other-barycentrics-than-the-cpu-rasterizer",
        np.abs(b - bary)[on[..., 0]].max(initial=0),
    )


class Boom(Exception):
    pass


def scenario(d, ctx):
    ndev = d.integer(1, 3)
    nthreads = d.integer(1, 4)
    limits = [20, 6, 30, 3]
    mixed = d.chance(1, 3)  # rasterizers with different limits of faces
    scenes = [Scene(d) for _ in range(d.integer(1, 3))]
    plans = []
    for t in range(nthreads):
        ops = []
        for _ in range(d.integer(1, 3)):
            k = d.weighted([5, 3, 1, 1, 1, 1])
            ops.append(
                dict(
                    kind=["own", "shared", "direct", "boom", "get", "too_many"][k],
                    dev=1 + d.choice(ndev),
                    scene=d.choice(len(scenes)),
                    limit=limits[d.choice(4)] if mixed else 20,
                )
            )
        plans.append(ops)
    # what each gives in a process of its own
    alone = {}
    for i, s in enumerate(scenes):
        drv, pkg = fresh(ndev)
        with OnGpu(ndev):
            m, cam = s.build()
            alone[i] = frag(pkg.MeshRasterizerOpenGL(cameras=cam, raster_settings=s.settings(20))(m))
        against_cpu(ctx, s, alone[i])
    drv, pkg = fresh(ndev)
    store = pkg.global_device_context_store
    shared = pkg.MeshRasterizerOpenGL(raster_settings=scenes[0].settings(20))
    contexts = {}  # device -> contexts seen
    outcome = []

    def op(t, o):
        s, dev = scenes[o["scene"]], torch.device("cpu", o["dev"])
        with OnGpu(o["dev"]):
            if o["kind"] in ("own", "shared", "too_many"):
                if o["kind"] == "too_many":
                    s = o["big"]
                m, cam = s.build()
                if o["kind"] == "shared":
                    r = shared._replicate_for_data_parallel()
                    return frag(r(m, cameras=cam, raster_settings=s.settings(20)))
                return frag(pkg.MeshRasterizerOpenGL(cameras=cam, raster_settings=s.settings(o["limit"]))(m))
            e = store.get_egl_context(dev)
            c = store.get_cuda_context(dev)
            contexts.setdefault(o["dev"], []).append((e, c))
            if o["kind"] == "get":
                return None
            with e.active_and_locked():
                cur = drv.current.get(drv.who())
                if cur is None or cur.device != o["dev"]:
                    raise AssertionError("not current inside the with block")
                if o["kind"] == "boom":
                    raise Boom
            return None

    for ops in plans:
        for o in ops:
            if o["kind"] == "too_many":
                o["big"] = Scene(d, 41)

    def thread(t, ops):
        def body():
            for o in ops:
                before = len([f for f in drv.fired if f[1] == ("t", t)])
                try:
                    r = ("ok", op(t, o))
                except Exception as e:  # noqa
                    r = ("raise", e)
                after = len([f for f in drv.fired if f[1] == ("t", t)])
                outcome.append((t, o, r, after > before, ("t", t) in drv.current, len(drv.stacks.get(("t", t), ()))))

        return body

    if d.chance(1, 2):
        for _ in range(d.integer(1, 3)):
            w = (("t", d.choice(nthreads)), d.gap(6))
            drv.plan[w] = "fail"
            ctx.arm("driver_call_failure")
    pre = th.draw_preemptions(d, nthreads, 0, 24, 9)
    s = th.Sched(FILES, pre)
    s.run([thread(t, ops) for t, ops in enumerate(plans)], first=d.choice(nthreads))
    if s.di and nthreads > 1:
        ctx.fault("preemption", s.di)
    for name, _, _ in drv.fired:
        ctx.fault("driver_call_failure")
        ctx.count("failed " + name)
    ctx.check(s.dead is None, "deadlock", s.dead)
    ctx.check(not drv.misuse, "driver-misused", drv.misuse[:1])
    ctx.event(s.points, s.switches, tuple((n, w, k) for n, w, k in drv.fired))
    for t, o, (kind, r), failed, current, depth in outcome:
        ctx.event(t, o["kind"], o["dev"], kind, failed)
        where = f"thread {t} {o['kind']} device {o['dev']}"
        ctx.check(not isinstance(r, AssertionError), "context-not-current", where, r)
        if o["kind"] == "boom":
            ctx.check(isinstance(r, Boom) or failed, "exception-swallowed", where, r)
        elif o["kind"] == "too_many" and not failed:
            ctx.check(kind == "raise" and isinstance(r, REPORTED), "mesh-above-the-limit-accepted", where)
        elif not failed and not (o["kind"] == "own" and max(scenes[o["scene"]].faces) > o["limit"]):
            ctx.check(kind == "ok", "fails-without-a-fault", where, repr(r))
        ctx.check(kind == "ok" or isinstance(r, REPORTED + (Boom,)), "unexpected-exception", where, repr(r))
        if kind == "ok" and o["kind"] in ("own", "shared"):
            ctx.check(same(r, alone[o["scene"]]), "differs-from-the-result-alone", where)
        ctx.check(not current, "context-left-current", where, kind, repr(r))
        ctx.check(depth == 0, "cuda-context-left-pushed", where, kind, repr(r), depth)
    for k in range(1, ndev + 1):
        ctx.check(len([c for c in drv.egl if c.device == k and c.alive]) <= 1, "two-egl-contexts-on-a-device", k)
        ctx.check(len([c for c in drv.cuda if c.device == k and c.alive]) <= 1, "two-cuda-contexts-on-a-device", k)
        got = contexts.get(k, [])
        ctx.check(all(g[0] is got[0][0] and g[1] is got[0][1] for g in got), "different-contexts-handed-out", k)
    if not drv.fired and not mixed:
        for c in drv.egl:
            ctx.check(c.linked <= 1, "program-built-twice", c.linked)
    # the failures over, everything works again, on every device
    drv.plan = {}
    for k in range(1, ndev + 1):
        i = d.choice(len(scenes))
        sc = scenes[i]
        with OnGpu(k):
            m, cam = sc.build()
            try:
                r = frag(pkg.MeshRasterizerOpenGL(cameras=cam, raster_settings=sc.settings(20))(m))
            except Exception as e:  # noqa
                ctx.check(False, "broken-after-the-failures", k, repr(e))
            ctx.check(same(r, alone[i]), "wrong-after-the-failures", k)
        ctx.check(("main", 0) not in drv.current and not drv.stacks.get(("main", 0)), "context-left-current", "afterwards")
    if nthreads > 1:
        ctx.state(tuple(s.trail))
    ctx.sim_time += drv.calls * 1e-5
    ctx.nontrivial = bool(drv.fired or (s.di and nthreads > 1))


def release(d, ctx):
    """Contexts released, at times twice for one device, while others want them."""
    ndev = d.integer(1, 2)
    drv, pkg = fresh(ndev)
    store = pkg.global_device_context_store
    double = d.chance(1, 2)
    dev = 1 + d.choice(ndev)
    e = store.get_egl_context(torch.device("cpu", dev))
    others = [store.get_egl_context(torch.device("cpu", k)) for k in range(1, ndev + 1)]
    if double:
        # documented: the second release of a device's display fails
        e2 = pkg.EGLContext(8, 8, dev)
        e2.release()
        ctx.fault("display_already_terminated")
    elif d.chance(1, 2):
        drv.release_faults = True
        drv.plan[(("t", 0), 1 + d.choice(3))] = "fail"
        ctx.arm("driver_call_failure")
    res = {}

    def one():
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                e.release()
            res["r"] = "ok"
        except fakegl.EGLError:
            res["r"] = "error"

    def two(k):
        def f():
            for c in [e] + others:
                try:
                    with c.active_and_locked():
                        pass
                    res[k] = "ok"
                except fakegl.EGLError:
                    res[k] = "error"

        return f

    s = th.Sched(FILES, th.draw_preemptions(d, 3, 0, 12, 6))
    out = s.run([one, two(1), two(2)], first=0)
    if drv.fired:
        ctx.fault("driver_call_failure", len(drv.fired))
    if s.di:
        ctx.fault("preemption", s.di)
    ctx.check(s.dead is None, "lock-kept-after-a-failed-release", s.dead, res.get("r"))
    ctx.check(all(o[0] == "ok" for o in out), "unexpected-exception", out)
    ctx.check(not drv.misuse, "driver-misused", drv.misuse[:1])
    ctx.check(not drv.current, "context-left-current")
    if double or drv.fired:
        ctx.check(res["r"] == "error", "failed-release-not-reported")
    else:
        ctx.check(res["r"] == "ok", "release-fails-without-a-fault")
        ctx.check(not [c for c in drv.egl if c.device == dev and c.alive], "not-released")
    ctx.event(res, s.points, s.switches)
    ctx.state(tuple(s.trail))
    ctx.nontrivial = True


SCENARIOS = [
    Scenario("rasterize", scenario, quick=700, thorough=40000, max_wall=80),
    Scenario("release", release, quick=300, thorough=10000, max_wall=20),
]

META = {
    "rule": "a run is one seed: 1-3 devices, 1-4 threads of 1-3 operations (rasterize with an own or a shared rasterizer, use a context directly, "
    "raise inside, a mesh above the limit), up to 24 preemptions at lines of pytorch3d/renderer/opengl and at driver calls, up to 3 failing "
    "driver calls; nontrivial = a preemption or failure happened",
    "state_measure": "distinct schedules (every switch position and target)",
    "real": "pytorch3d/renderer/opengl (rasterizer, contexts, context store), cameras, Meshes, the CPU MeshRasterizer used as reference",
    "stub": "EGL, OpenGL and CUDA driver (PyOpenGL and pycuda modules), GPU memory and rasterisation in numpy; devices are CPU tensors that report an index",
    "assumptions": [
        "the simulated driver keeps the rules of EGL, OpenGL and CUDA (per-thread current contexts, one thread per context, mapped buffers unusable in GL)",
        "clean-up calls (unmap, pop, make nothing current) do not fail",
        "threads switch between lines of pytorch3d/renderer/opengl and at driver calls",
        "simulated time counts 10 us per driver call",
    ],
    "level": "exploration",
}
