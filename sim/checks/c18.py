"""C18: the rays which the samplers draw belong to the cameras, pixels, masks and
depths they were asked for, whatever the generators draw and whatever happened
before or happens at the same time."""

import os
import warnings

import numpy as np
import torch

from .. import instr
from .. import rng
from .. import threads as th
from ..core import Scenario, Violation

th.install()

from pytorch3d.implicitron.models.renderer.base import EvaluationMode, ImplicitronRayBundle  # noqa: E402
from pytorch3d.implicitron.models.renderer.ray_point_refiner import RayPointRefiner  # noqa: E402
from pytorch3d.implicitron.models.renderer.ray_sampler import AdaptiveRaySampler, NearFarRaySampler  # noqa: E402
from pytorch3d.implicitron.tools.config import expand_args_fields  # noqa: E402
from pytorch3d.renderer import FoVPerspectiveCameras, OrthographicCameras, PerspectiveCameras  # noqa: E402
from pytorch3d.renderer.implicit import (  # noqa: E402
    MonteCarloRaysampler,
    MultinomialRaysampler,
    NDCMultinomialRaysampler,
    ray_bundle_to_ray_points,
)
from pytorch3d.renderer.implicit.utils import HeterogeneousRayBundle, RayBundle  # noqa: E402
from pytorch3d.transforms import axis_angle_to_matrix  # noqa: E402

PROPERTY = "C18"
FILES = [os.path.join(th.REPO, "pytorch3d") + os.sep]


def prepare(tier):
    try:
        instr.plain()
    except RuntimeError as e:
        raise SystemExit(f"cannot build the C++ code: {e}")


class Cams:
    """Cameras and, independently, the rays of their pixels."""

    def __init__(self, d, n=None, far=None):
        g = np.random.RandomState(d.seed32())
        self.n = n = n or d.integer(1, 4)
        self.kind = d.weighted([3, 2, 1, 1])
        R = axis_angle_to_matrix(torch.from_numpy(g.randn(n, 3)))
        c = g.randn(n, 3)
        c = c / np.linalg.norm(c, axis=1, keepdims=True) * (far if far is not None else g.uniform(2, 5, (n, 1)))
        T = -np.einsum("ni,nij->nj", c, R.numpy())
        self.R, self.T = R.numpy(), T
        f, p = g.uniform(0.7, 3, (n, 2)), g.uniform(-0.3, 0.3, (n, 2))
        kw = dict(R=R.float(), T=torch.from_numpy(T).float())
        t = lambda x: torch.from_numpy(x).float()  # noqa: E731
        self.f, self.p = f, p
        if self.kind == 0:
            self.cam = PerspectiveCameras(focal_length=t(f), principal_point=t(p), **kw)
        elif self.kind == 1:
            fov = g.uniform(30, 90, n)
            a = 1 / np.tan(np.deg2rad(fov) / 2)
            self.f, self.p = np.stack([a, a], 1), np.zeros((n, 2))
            self.cam = FoVPerspectiveCameras(fov=t(fov), **kw)
        elif self.kind == 2:
            self.cam = OrthographicCameras(focal_length=t(f), principal_point=t(p), **kw)
        else:  # defined on the screen
            h, w = 30, 50
            s = h / 2
            fs, ps = f * s, np.stack([w / 2 - p[:, 0] * s, h / 2 - p[:, 1] * s], 1)
            self.cam = PerspectiveCameras(
                focal_length=t(fs), principal_point=t(ps), in_ndc=False, image_size=torch.tensor([[h, w]]).expand(n, 2), **kw
            )

    def rays(self, i, xy):
        """origins and directions of the pixels xy (S, 2) of camera i"""
        q = (xy - self.p[i]) / self.f[i]
        if self.kind == 2:
            o = np.concatenate([q, np.zeros((len(q), 1))], 1)
            v = np.tile([0.0, 0, 1], (len(q), 1))
        else:
            o = np.zeros((len(q), 3))
            v = np.concatenate([q, np.ones((len(q), 1))], 1)
        return (o - self.T[i]) @ self.R[i].T, v @ self.R[i].T


def close(a, b, tol=2e-4):
    return bool((np.abs(a - b) <= tol * (1 + np.abs(b))).all())


def check_rays(ctx, C, cams, b, unit, n_pts):
    """b: (origins, directions, lengths, xys) as arrays (rows, S, .)"""
    o, v, z, xy = b
    for r, i in enumerate(cams):
        wo, wv = C.rays(i, xy[r].astype(np.float64))
        if unit:
            wv = wv / np.linalg.norm(wv, axis=1, keepdims=True)
        ctx.check(close(o[r], wo, 1e-3), "ray-does-not-start-at-its-camera", r, i)
        ctx.check(close(v[r], wv, 1e-3), "ray-not-through-its-pixel", r, i)
    ctx.count("rays", int(np.prod(xy.shape[:2])))


def check_depths(ctx, z, lo, hi, n, strat):
    ctx.check(z.shape[-1] == n, "wrong-number-of-points", z.shape, n)
    if n == 0:
        return
    c = np.linspace(lo, hi, n) if n > 1 else np.array([float(lo)])
    e = 1e-5 * (1 + max(abs(lo), abs(hi)))
    if not strat:
        ctx.check(bool((np.abs(z - c) <= e).all()), "wrong-depths", lo, hi, n)
        return
    mid = (c[1:] + c[:-1]) / 2
    up, dn = np.append(mid, c[-1]), np.insert(mid, 0, c[0])
    ctx.check(bool((z >= dn - e).all() and (z <= up + e).all()), "depth-out-of-its-stratum", lo, hi, n)
    ctx.check(bool((np.diff(z, axis=-1) >= -e).all()), "depths-not-sorted", lo, hi, n)


class Grid:
    """Which pixels there are, and where."""

    def __init__(self, d):
        self.w, self.h = d.integer(1, 7), d.integer(1, 7)
        self.ndc = d.chance(1, 2)
        if self.ndc:
            rx, ry = max(1, self.w / self.h), max(1, self.h / self.w)
            self.x = rx * (1 - (2 * np.arange(self.w) + 1) / self.w)
            self.y = ry * (1 - (2 * np.arange(self.h) + 1) / self.h)
            self.args = dict(image_width=self.w, image_height=self.h)
        else:
            a, b, c, e = [d.integer(-8, 8) / 8 for _ in range(4)]
            if a == b:
                b += 0.5
            if c == e:
                e += 0.5
            self.x = np.linspace(a, b, self.w) if self.w > 1 else np.array([a])
            self.y = np.linspace(c, e, self.h) if self.h > 1 else np.array([c])
            self.args = dict(min_x=a, max_x=b, min_y=c, max_y=e, image_width=self.w, image_height=self.h)

    def make(self, **k):
        return (NDCMultinomialRaysampler if self.ndc else MultinomialRaysampler)(**self.args, **k)

    def pixels(self, xy):
        """index of the pixel at each location, -1 if there is none"""
        dx = np.abs(xy[..., 0, None] - self.x)
        dy = np.abs(xy[..., 1, None] - self.y)
        ok = (dx.min(-1) < 1e-4) & (dy.min(-1) < 1e-4)
        return np.where(ok, dy.argmin(-1) * self.w + dx.argmin(-1), -1)

    def all(self):
        return np.stack(np.broadcast_arrays(self.x[None], self.y[:, None]), -1)


def draw_mask(d, g, n, h, w):
    kind = d.choice(3)
    m = (g.rand(n, h, w) < [0.5, 0.2, 0.9][kind]).astype(np.float32)
    for i in range(n):
        if not m[i].any():
            m[i, g.randint(h), g.randint(w)] = 1
    binary = d.chance(1, 2)
    if not binary:
        m *= g.choice([0.25, 0.5, 1, 3], m.shape).astype(np.float32)
    return m, binary


def arrays(b):
    """(rows, S, .) arrays of a bundle with whatever spatial shape"""
    n = b.origins.shape[0]
    s = int(np.prod(b.origins.shape[1:-1]))
    f = lambda x: x.detach().numpy().reshape(n, s, x.shape[-1])  # noqa: E731
    return f(b.origins), f(b.directions), f(b.lengths), f(b.xys)


def judge_pixels(ctx, G, row_xy, weights, what, distinct=True):
    px = G.pixels(row_xy)
    ctx.check(bool((px >= 0).all()), "not-a-pixel", what)
    if weights is not None:
        w = weights.reshape(-1)
        ctx.check(bool((w[px] > 0).all()), "ray-outside-of-the-mask", what)
        m = int((w > 0).sum())
    else:
        m = G.w * G.h
    # (with a total number of rays each is drawn on its own)
    if distinct and m >= len(px):
        ctx.check(len(set(px.tolist())) == len(px), "pixel-sampled-twice", what, px.tolist(), m)
    return px


def draw_request(d, n_pix):
    r = {}
    k = d.weighted([2, 3, 2])
    if k == 1:
        r["n_rays_per_image"] = d.pick([1, 2, 3, n_pix, n_pix + 1, 2 * n_pix + 3])
    elif k == 2:
        r["n_rays_total"] = d.pick([1, 2, 5, 9])
    return r


def grid(d, ctx):
    warnings.simplefilter("ignore")
    G = Grid(d)
    g = np.random.RandomState(d.seed32())
    n_pix = G.w * G.h
    base = draw_request(d, n_pix)
    base.update(
        n_pts_per_ray=d.pick([0, 1, 2, 3, 7]),
        min_depth=d.pick([0.1, 0.5, 1.0]),
        max_depth=d.pick([1.0, 3.0, 8.0]),
        unit_directions=d.chance(1, 3),
        stratified_sampling=d.chance(1, 2),
    )
    s = G.make(**base)
    adv = d.chance(1, 2)
    worlds = [Cams(d) for _ in range(d.integer(1, 2))]

    def judge(b, C, mask, binary, o):
        kk = {**base, **{k: v for k, v in o.items() if v is not None}}
        total, per = kk.get("n_rays_total"), kk.get("n_rays_per_image")
        a = arrays(b)
        P = kk["n_pts_per_ray"]
        if total:
            ctx.check(isinstance(b, HeterogeneousRayBundle), "wrong-type", type(b))
            ids, cnt = b.camera_ids.tolist(), b.camera_counts.tolist()
            ctx.check(len(set(ids)) == len(ids) and all(0 <= i < C.n for i in ids), "wrong-cameras", ids)
            ctx.check(len(cnt) == len(ids) and all(c > 0 for c in cnt) and sum(cnt) == total, "wrong-numbers-of-rays", cnt, total)
            ctx.check(tuple(b.origins.shape) == (total, 1, 1, 3) and tuple(b.xys.shape) == (total, 1, 1, 2), "wrong-shape", tuple(b.origins.shape))
            rows = [i for i, c in zip(ids, cnt) for _ in range(c)]
            at = 0
            for i, c in zip(ids, cnt):
                judge_pixels(ctx, G, a[3][at : at + c, 0], None if mask is None else mask[i], (i, c), False)
                at += c
        else:
            rows = list(range(C.n))
            if per is None and mask is not None:
                if not binary:
                    return
                per = int(mask.reshape(C.n, -1).sum(1).min())
            shape = (C.n, G.h, G.w) if per is None else (C.n, per, 1)
            ctx.check(isinstance(b, RayBundle), "wrong-type", type(b))
            ctx.check(tuple(b.origins.shape) == shape + (3,) and tuple(b.xys.shape) == shape + (2,) and tuple(b.directions.shape) == shape + (3,), "wrong-shape", tuple(b.origins.shape), shape)
            ctx.check(tuple(b.lengths.shape) == shape + (P,), "wrong-shape", tuple(b.lengths.shape), shape)
            for r in rows:
                if per is None:
                    ctx.check(bool((np.abs(b.xys[r].numpy() - G.all()) < 1e-4).all()), "not-the-image-grid", r)
                else:
                    judge_pixels(ctx, G, a[3][r], None if mask is None else mask[r], r)
        ctx.check(a[0].shape[0] == len(rows), "wrong-number-of-rays", a[0].shape)
        check_rays(ctx, C, rows, a, kk["unit_directions"], P)
        check_depths(ctx, a[2], kk["min_depth"], kk["max_depth"], P, kk["stratified_sampling"])
        pts = ray_bundle_to_ray_points(b).numpy()
        want = b.origins.numpy()[..., None, :] + b.lengths.numpy()[..., None] * b.directions.numpy()[..., None, :]
        ctx.check(pts.shape == want.shape and close(pts, want, 1e-5), "wrong-ray-points")

    def draw():
        C = d.pick(worlds)
        o = {}
        if d.chance(1, 3):
            k = draw_request(d, n_pix)
            if len({"n_rays_per_image", "n_rays_total"} & {*base, *k}) < 2:
                o.update(k)
        if d.chance(1, 3):
            o["n_pts_per_ray"] = d.pick([0, 1, 4])
        if d.chance(1, 4):
            o["min_depth"], o["max_depth"] = 0.0, 2.0
        if d.chance(1, 4):
            o["stratified_sampling"] = d.chance(1, 2)
        mask, binary = draw_mask(d, g, C.n, G.h, G.w) if d.chance(1, 2) else (None, None)
        kk = {**base, **o}
        if mask is not None and not binary and not ({"n_rays_per_image", "n_rays_total"} & {*kk}):
            mask = (mask > 0).astype(np.float32)
            binary = True
        return C, o, mask, binary

    def go(C, o, mask):
        return s(C.cam, mask=None if mask is None else torch.from_numpy(mask), **o)

    with rng.draws(d, ctx, adv):
        for _ in range(d.integer(1, 4)):
            C, o, mask, binary = draw()
            keep = None if mask is None else mask.copy()
            op = d.weighted([6, 2, 2, 1])
            if op == 1 and not adv:
                with th.OpFaults() as f:
                    go(C, o, mask)
                r = None
                with th.OpFaults(1 + d.choice(max(f.n, 1))) as f:
                    try:
                        r = go(C, o, mask)
                    except (th.AllocFail, RuntimeError):
                        if not f.fired:
                            raise
                        ctx.fault("alloc_failure")
                if r is not None:  # the call may have another way
                    judge(r, C, mask, binary, o)
            if op == 2 and not adv:
                C2, o2, mask2, binary2 = draw()
                sch = th.Sched(FILES, th.draw_preemptions(d, 2, 0, 24, 8))
                res = sch.run([lambda: go(C, o, mask), lambda: go(C2, o2, mask2)])
                ctx.fault("preemption", sch.di) if sch.di else None
                ctx.state("sched", tuple(sch.trail))
                ctx.sim_time += sch.points * 1e-6
                for (ok, r), x in zip(res, ((C, mask, binary, o), (C2, mask2, binary2, o2))):
                    ctx.check(ok == "ok", "concurrent-call-fails", r)
                    judge(r, *x)
                continue
            if op == 3 and {"n_rays_per_image", "n_rays_total"} & {*base, *o}:
                try:
                    s(C.cam, n_rays_per_image=2, n_rays_total=2)
                except ValueError:
                    ctx.event("refused")
                else:
                    raise Violation("contradiction-accepted", "")
            seed = d.seed32()
            torch.manual_seed(seed)
            b = go(C, o, mask)
            judge(b, C, mask, binary, o)
            ctx.check(mask is None or np.array_equal(keep, mask), "mask-changed")
            ctx.check(close(C.cam.R.numpy(), C.R, 1e-5) and close(C.cam.T.numpy(), C.T, 1e-5), "cameras-changed")
            if not adv:
                torch.manual_seed(seed)
                b2 = G.make(**base)(C.cam, mask=None if mask is None else torch.from_numpy(mask), **o)
                same = all(torch.equal(getattr(b, k), getattr(b2, k)) for k in ("origins", "directions", "lengths", "xys"))
                ctx.check(same, "rays-depend-on-the-history")
            ctx.event(sorted(o), [float(x.double().sum()) for x in (b.origins, b.xys, b.lengths)])
            ctx.state("grid", G.w, G.h, G.ndc, C.kind, C.n, mask is None, tuple(sorted(o)), tuple(sorted(base)))
        if not adv and d.chance(1, 20):
            spread(d, ctx, G, g)
    ctx.nontrivial = True


def spread(d, ctx, G, g):
    """single rays of many images, and many rays of few images"""
    n = 500
    C = Cams(d, n)
    m, _ = draw_mask(d, g, 1, G.h, G.w)
    s = G.make(n_pts_per_ray=2, min_depth=0.0, max_depth=1.0, stratified_sampling=True)
    b = s(C.cam, mask=torch.from_numpy(m).expand(n, -1, -1), n_rays_per_image=1)
    px = G.pixels(b.xys.reshape(n, 2).numpy())
    p = m.reshape(-1) / m.sum()
    c = np.bincount(px, minlength=len(p))
    ctx.check(bool((np.abs(c - n * p) < 7 * np.sqrt(n * p * (1 - p)) + 1e-6).all()), "rays-not-in-proportion-to-the-mask", c, n * p)
    z = b.lengths.reshape(n, 2).numpy()
    u = np.concatenate([z[:, 0] * 2, z[:, 1] * 2 - 1])
    ctx.check(abs(u.mean() - 0.5) < 7 * np.sqrt(1 / 12 / len(u)), "depths-not-uniform-in-their-stratum", u.mean())
    ctx.check(abs((u**2).mean() - 1 / 3) < 7 * 0.3 / np.sqrt(len(u)), "depths-not-uniform-in-their-stratum", (u**2).mean())
    C = Cams(d, 4)
    b = s(C.cam, n_rays_total=n)
    k = dict(zip(b.camera_ids.tolist(), b.camera_counts.tolist()))
    c = np.array([k.get(i, 0) for i in range(4)])
    ctx.check(bool((np.abs(c - n / 4) < 7 * np.sqrt(n * 3 / 16)).all()), "cameras-not-uniform", c)
    ctx.count("distributions")


def montecarlo(d, ctx):
    C = Cams(d)
    a = [d.integer(-8, 8) / 8 for _ in range(4)]
    box = dict(min_x=min(a[:2]), max_x=max(a[:2]), min_y=min(a[2:]), max_y=max(a[2:]))
    k = draw_request(d, 4)
    if not k:
        k = {"n_rays_per_image": 3}
    k.setdefault("n_rays_per_image", None)
    n_pts, strat, unit = d.pick([1, 2, 5]), d.chance(1, 2), d.chance(1, 2)
    lo, hi = 0.5, d.pick([1.0, 4.0])
    s = MonteCarloRaysampler(**box, **k, n_pts_per_ray=n_pts, min_depth=lo, max_depth=hi, unit_directions=unit, stratified_sampling=strat)
    with rng.draws(d, ctx, d.chance(1, 2)):
        for _ in range(d.integer(1, 3)):
            o = d.pick([None, None, True, False])
            b = s(C.cam, stratified_sampling=o)
            total, per = k.get("n_rays_total"), k["n_rays_per_image"]
            if total:
                ids, cnt = b.camera_ids.tolist(), b.camera_counts.tolist()
                ctx.check(len(set(ids)) == len(ids) and sum(cnt) == total and all(c > 0 for c in cnt), "wrong-numbers-of-rays", ids, cnt, total)
                rows = [i for i, c in zip(ids, cnt) for _ in range(c)]
            else:
                rows = list(range(C.n))
                ctx.check(tuple(b.origins.shape) == (C.n, per, 3), "wrong-shape", tuple(b.origins.shape))
            x = arrays(b)
            ctx.check(len(x[0]) == len(rows), "wrong-number-of-rays", x[0].shape)
            check_rays(ctx, C, rows, x, unit, n_pts)
            check_depths(ctx, x[2], lo, hi, n_pts, strat if o is None else o)
            e = 1e-5
            xy = x[3]
            ok = (xy[..., 0] >= box["min_x"] - e) & (xy[..., 0] <= box["max_x"] + e) & (xy[..., 1] >= box["min_y"] - e) & (xy[..., 1] <= box["max_y"] + e)
            ctx.check(bool(ok.all()), "ray-out-of-bounds", box)
            ctx.event([float(y.astype(np.float64).sum()) for y in x])
    if d.chance(1, 10):
        rng.seed_all(d.seed32())
        s = MonteCarloRaysampler(**box, n_rays_per_image=600, n_pts_per_ray=1, min_depth=lo, max_depth=hi)
        xy = s(C.cam).xys.numpy().astype(np.float64)
        for i, c in enumerate("xy"):
            l, h = box["min_" + c], box["max_" + c]
            if h > l:
                u = (xy[..., i] - l) / (h - l)
                ctx.check(bool((np.abs(u.mean(1) - 0.5) < 7 * np.sqrt(1 / 12 / 600)).all()), "rays-not-uniform", c, u.mean(1))
                ctx.check(bool((np.abs((u**2).mean(1) - 1 / 3) < 7 * 0.3 / np.sqrt(600)).all()), "rays-not-uniform", c)
        ctx.count("distributions")
    ctx.state("montecarlo", C.kind, C.n, tuple(k.items()), n_pts, strat, unit)
    ctx.nontrivial = True


# -- the samplers of Implicitron

for _c in (NearFarRaySampler, AdaptiveRaySampler):
    expand_args_fields(_c)


def implicitron(d, ctx):
    warnings.simplefilter("ignore")
    w, h = d.integer(2, 8), d.integer(2, 8)
    g = np.random.RandomState(d.seed32())
    modes = {m: d.pick(["mask_sample", "full_grid"]) for m in (EvaluationMode.TRAINING, EvaluationMode.EVALUATION)}
    TR, EV = EvaluationMode.TRAINING, EvaluationMode.EVALUATION
    n_pts = {TR: d.integer(1, 6), EV: d.integer(1, 6)}
    strat = {TR: d.chance(1, 2), EV: d.chance(1, 2)}
    cone = d.chance(1, 4)
    per = d.pick([1, 3, w * h + 2])
    total = None
    if d.chance(1, 4) and not cone:
        per, total = None, d.pick([1, 4, 9])
    args = dict(
        image_width=w, image_height=h, sampling_mode_training=modes[TR], sampling_mode_evaluation=modes[EV],
        n_pts_per_ray_training=n_pts[TR], n_pts_per_ray_evaluation=n_pts[EV],
        n_rays_per_image_sampled_from_mask=per, n_rays_total_training=total,
        stratified_point_sampling_training=strat[TR], stratified_point_sampling_evaluation=strat[EV], cast_ray_bundle_as_cone=cone,
    )  # fmt: skip
    adaptive = d.chance(1, 2)
    if adaptive:
        center, ext = tuple(float(x) for x in g.randint(-2, 3, 3) / 4), d.pick([0.5, 1.5, 6.0])
        s = AdaptiveRaySampler(scene_center=center, scene_extent=ext, **args)
    else:
        lo, hi = d.pick([0.1, 1.0]), d.pick([2.0, 5.0])
        s = NearFarRaySampler(min_depth=lo, max_depth=hi, **args)
    G = Grid.__new__(Grid)
    G.w, G.h, G.ndc = w, h, True
    rx, ry = max(1, w / h), max(1, h / w)
    G.x = rx * (1 - (2 * np.arange(w) + 1) / w)
    G.y = ry * (1 - (2 * np.arange(h) + 1) / h)
    adv = d.chance(1, 2)
    with rng.draws(d, ctx, adv):
        for _ in range(d.integer(1, 4)):
            # (the depths of a batch are those of one camera)
            C = Cams(d, 1 if adaptive else None)
            mode = d.pick([TR, EV])
            mask = sm = None
            if d.chance(2, 3):
                k = d.pick([1, 2])
                m, _ = draw_mask(d, g, C.n, h, w)
                if per is None:
                    m = (m > 0).astype(np.float32)
                sm = m
                m = m.repeat(k, 1).repeat(k, 2)
                mask = torch.from_numpy(m)[:, None]
            b = s(C.cam, mode, mask)
            ctx.check(isinstance(b, ImplicitronRayBundle), "wrong-type", type(b))
            sampled = modes[mode] == "mask_sample"
            a = arrays(b)
            if adaptive:
                dist = np.linalg.norm(-C.T[0] @ C.R[0].T - np.array(center))
                dist = max(dist, ext + 1e-3)
                lo, hi = dist - ext, dist + ext
            n = n_pts[mode]
            if cone:
                ctx.check(b.bins is not None and b.bins.shape[-1] == n + 1, "wrong-bins")
                bins = b.bins.numpy()
                check_depths(ctx, bins, lo, hi, n + 1, strat[mode])
                ctx.check(close(b.lengths.numpy(), (bins[..., 1:] + bins[..., :-1]) / 2, 1e-5), "lengths-are-not-the-middles")
                ctx.check(tuple(b.pixel_radii_2d.shape) == tuple(b.origins.shape[:-1]) + (1,) and bool((b.pixel_radii_2d > 0).all()), "wrong-radii")
            else:
                ctx.check(b.bins is None, "bins-not-asked-for")
                check_depths(ctx, a[2], lo, hi, n, strat[mode])
            wm = sm if sampled else None
            if mode == TR and total:
                ids, cnt = b.camera_ids.tolist(), b.camera_counts.tolist()
                ctx.check(b.is_packed() and sum(cnt) == total and len(set(ids)) == len(ids), "wrong-numbers-of-rays", ids, cnt)
                rows = [i for i, c in zip(ids, cnt) for _ in range(c)]
                at = 0
                for i, c in zip(ids, cnt):
                    judge_pixels(ctx, G, a[3][at : at + c, 0], None if wm is None else wm[i], (i, c), False)
                    at += c
                xys, first, num = b.get_padded_xys()
                ctx.check(num == total and first.tolist() == [sum(cnt[:i]) for i in range(len(cnt))], "wrong-packing", num, first.tolist(), cnt)
                ctx.check(tuple(xys.shape[:2]) == (len(cnt), max(cnt)), "wrong-padding", tuple(xys.shape))
                for i, c in enumerate(cnt):
                    ctx.check(torch.equal(xys[i, :c], b.xys[first[i] : first[i] + c]) and not bool(xys[i, c:].any()), "wrong-padding", i)
            else:
                rows = list(range(C.n))
                ctx.check(not b.is_packed(), "packed-although-not-asked")
                if sampled and per is not None:
                    ctx.check(tuple(b.xys.shape) == (C.n, per, 1, 2), "wrong-shape", tuple(b.xys.shape))
                    for r in rows:
                        judge_pixels(ctx, G, a[3][r], None if wm is None else wm[r], r)
                elif not sampled:
                    ctx.check(tuple(b.xys.shape) == (C.n, h, w, 2), "wrong-shape", tuple(b.xys.shape))
                    for r in rows:
                        ctx.check(bool((np.abs(b.xys[r].numpy() - Grid.all(G)) < 1e-4).all()), "not-the-image-grid", r)
                else:
                    for r in rows:
                        judge_pixels(ctx, G, a[3][r], None if wm is None else wm[r], r)
            check_rays(ctx, C, rows, a, True, n)
            ctx.event(mode.name, [float(x.astype(np.float64).sum()) for x in a])
            if d.chance(1, 2):
                refine(d, ctx, g, b, adv)
    try:
        if per is not None and d.chance(1, 10):
            NearFarRaySampler(**{**args, "n_rays_total_training": 3})
            raise Violation("contradiction-accepted", "")
    except ValueError:
        ctx.event("refused")
    ctx.state("implicitron", w, h, tuple(modes.values()), cone, per, total, adaptive)
    ctx.nontrivial = True


def adaptive_batch(d, ctx):
    """cameras of different distances"""
    C = Cams(d, d.integer(2, 4))
    s = AdaptiveRaySampler(image_width=3, image_height=2, n_pts_per_ray_evaluation=3, scene_extent=1.0)
    b = s(C.cam, EvaluationMode.EVALUATION)
    z = arrays(b)[2]
    dist = [max(np.linalg.norm(-C.T[i] @ C.R[i].T), 1 + 1e-3) for i in range(C.n)]
    ctx.event(C.n, float(z.sum()))
    ctx.nontrivial = True
    c = [np.linspace(x - 1, x + 1, 3) for x in dist]
    own = [bool((np.abs(z[i] - c[i]) < 1e-3).all()) for i in range(C.n)]
    first = [bool((np.abs(z[i] - c[0]) < 1e-3).all()) for i in range(C.n)]
    ctx.check(all(x or y for x, y in zip(own, first)), "depths-of-no-camera", own)
    ctx.check(all(own), "depths-of-the-first-camera", own)


def refine(d, ctx, g, b, adv):
    z = (b.bins if b.bins is not None else b.lengths).numpy().astype(np.float64)
    n_in = b.lengths.shape[-1]
    if b.bins is None and n_in < 3:
        return
    if n_in < 1 or z[..., -1].max() <= z[..., 0].min():
        return
    add, rand, n = d.chance(1, 2), d.chance(1, 2), d.integer(1, 8)
    blur = d.chance(1, 4)
    r = RayPointRefiner(n_pts_per_ray=n, random_sampling=rand, add_input_samples=add, blurpool_weights=blur)
    w = g.rand(*b.lengths.shape).astype(np.float32) * (g.rand(*b.lengths.shape) < 0.6)
    wt = torch.from_numpy(w.astype(np.float32))
    keep = {k: (v, v.clone()) for k, v in vars(b).items() if isinstance(v, torch.Tensor)}
    o = r(b, wt)
    ctx.check(o is not b, "bundle-refined-in-place")
    for k, (v, c) in keep.items():
        ctx.check(getattr(b, k) is v and torch.equal(v, c), "input-bundle-changed", k)
    ctx.check(np.array_equal(wt.numpy(), w), "weights-changed")
    for k in ("origins", "directions", "xys", "camera_ids", "camera_counts", "pixel_radii_2d"):
        x, y = getattr(b, k), getattr(o, k)
        ctx.check((x is None) == (y is None) and (x is None or torch.equal(x, y)), "other-rays", k)
    q = (o.bins if b.bins is not None else o.lengths).numpy().astype(np.float64)
    ns = n + (b.bins is not None)
    ctx.check((o.bins is None) == (b.bins is None) and q.shape == z.shape[:-1] + (ns + (z.shape[-1] if add else 0),), "wrong-shape", q.shape, z.shape, ns)
    if b.bins is not None:
        ctx.check(close(o.lengths.numpy(), (q[..., 1:] + q[..., :-1]) / 2, 1e-5), "lengths-are-not-the-middles")
    ctx.check(bool((np.diff(q, axis=-1) >= 0).all()), "depths-not-sorted")
    edges = z if b.bins is not None else (z[..., 1:] + z[..., :-1]) / 2
    e = 1e-4
    q2, z2, ed = q.reshape(-1, q.shape[-1]), z.reshape(-1, z.shape[-1]), edges.reshape(-1, edges.shape[-1])
    ww = w.reshape(len(q2), -1)
    if b.bins is None:
        ww = ww[:, 1:-1]
    for i in range(len(q2)):
        row = q2[i]
        if add:
            row = list(row)
            for v in z2[i]:
                j = int(np.argmin(np.abs(np.array(row) - v)))
                ctx.check(abs(row[j] - v) < 1e-6 * (1 + abs(v)), "an-input-depth-is-lost", i, v)
                row.pop(j)
            row = np.array(row)
        ctx.check(bool((row >= ed[i, 0] - e).all() and (row <= ed[i, -1] + e).all()), "depth-out-of-the-bins", i)
        if blur or i > 20 or ww[i].max() < 0.05:
            continue
        # with the inputs removed, the samples are quantiles of the weights
        pdf = ww[i].astype(np.float64) + r.sample_pdf_eps
        cdf = np.concatenate([[0], np.cumsum(pdf / pdf.sum())])
        if not rand and ns > 1 and not add:
            u = np.linspace(0, 1, ns)
            # the sample lies where the cumulated weight is u
            lo = np.interp(row - 1e-3, ed[i], cdf)
            hi = np.interp(row + 1e-3, ed[i], cdf)
            ctx.check(bool((lo <= u + 2e-2).all() and (hi >= u - 2e-2).all()), "not-the-quantiles", i, row, u)
        # no sample in a bin without weight, but for its edges and the epsilon
        if not adv:
            k = np.clip(np.searchsorted(ed[i], row, side="right") - 1, 0, len(pdf) - 1)
            inner = (row > ed[i][k] + 1e-3) & (row < ed[i][np.minimum(k + 1, len(ed[i]) - 1)] - 1e-3)
            ctx.count("empty_bin_hits", int((inner & (pdf[k] < 1e-4)).sum()))
    ctx.count("refined", len(q2))
    # extreme weights: everything in one bin
    if not adv and d.chance(1, 4) and not blur:
        k = int(g.randint(ed.shape[1] - 1))
        w1 = np.zeros_like(w.reshape(len(q2), -1))
        w1[:, k + (b.bins is None)] = 1
        o = RayPointRefiner(n_pts_per_ray=20, random_sampling=True, add_input_samples=False)(b, torch.from_numpy(w1.reshape(w.shape)))
        q = (o.bins if b.bins is not None else o.lengths).numpy().reshape(len(q2), -1)
        inside = (q >= ed[:, k : k + 1] - e) & (q <= ed[:, k + 1 : k + 2] + e)
        ctx.check((~inside).sum() <= 2 + 0.01 * inside.size, "samples-away-from-the-weight", int((~inside).sum()), inside.size)
        ctx.count("distributions")


META = {
    "rule": "a run is one seed: 1-4 cameras of four kinds, an image grid, masks, a sampler with its defaults, then 1-4 calls with overrides whose random draws come "
    "from the seed: half the runs an adversary draws from the ends of the ranges; the others have calls die in an allocation, pairs of calls by two "
    "threads with up to 24 preemptions, and statistical tests; nontrivial = all",
    "state_measure": "distinct (sampler, grid, camera kind, options) and distinct thread schedules",
    "real": "pytorch3d.renderer.implicit.raysampling, cameras, ray bundles, Implicitron ray samplers and RayPointRefiner, C++ of the packing and of sample_pdf compiled from the working tree",
    "stub": "torch global generator (seeded, or replaced by the adversary), operators that fail on request, scheduler for threads",
    "assumptions": [
        "adversarial draws stay within the contract of the random functions; a uniform real number never is exactly 1",
        "statistical bounds are 7 standard deviations on fixed seeds",
        "masks have a positive pixel in every image; without a number of rays they are binary",
        "CPU only; fish eye cameras are not among the cameras",
    ],
    "level": "exploration",
}
SCENARIOS = [
    Scenario("grid", grid, 2500, 80000),
    Scenario("montecarlo", montecarlo, 1200, 40000),
    Scenario("implicitron", implicitron, 2000, 60000),
    Scenario("adaptive_batch", adaptive_batch, 20, 100),
]
