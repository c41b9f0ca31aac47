"""C20: an implicitron model renders, and is judged by, what it is given and what it
has learned: nothing else, whatever happened before and however the work is cut up."""

import contextlib
import copy
import io
import math
import os
import sys
import types
import warnings

import numpy as np
import torch

from .. import threads as th
from ..core import Scenario

th.install()

from pytorch3d.implicitron.evaluation import evaluate_new_view_synthesis as evaluation  # noqa: E402
from pytorch3d.implicitron.models.base_model import ImplicitronRender  # noqa: E402
from pytorch3d.implicitron.models.feature_extractor import FeatureExtractorBase  # noqa: E402
from pytorch3d.implicitron.models.generic_model import GenericModel  # noqa: E402
from pytorch3d.implicitron.models.implicit_function import voxel_grid_implicit_function  # noqa: E402,F401
from pytorch3d.implicitron.models.metrics import RegularizationMetrics, ViewMetrics  # noqa: E402
from pytorch3d.implicitron.models.overfit_model import OverfitModel  # noqa: E402
from pytorch3d.implicitron.models.renderer.base import (  # noqa: E402
    EvaluationMode,
    ImplicitFunctionWrapper,
    ImplicitronRayBundle,
    RendererOutput,
)
from pytorch3d.implicitron.models.renderer.multipass_ea import MultiPassEmissionAbsorptionRenderer  # noqa: E402
from pytorch3d.implicitron.models.renderer.sdf_renderer import SignedDistanceFunctionRenderer  # noqa: E402
from pytorch3d.implicitron.dataset.frame_data import FrameData  # noqa: E402
from pytorch3d.implicitron.tools.config import expand_args_fields, get_default_args, registry  # noqa: E402
from pytorch3d.renderer import PerspectiveCameras, look_at_view_transform  # noqa: E402

PROPERTY = "C20"
FILES = [os.path.join(th.REPO, "pytorch3d") + os.sep]
sys.modules["lpips"] = None  # its weights cannot be had here; the evaluator then goes on without
TRAIN, EVAL = EvaluationMode.TRAINING, EvaluationMode.EVALUATION


@registry.register
class SimFeatures(FeatureExtractorBase, torch.nn.Module):
    """features of images: a convolution of colors and mask"""

    def __post_init__(self):
        self.conv = torch.nn.Conv2d(4, 2, 3, padding=1)

    def get_feat_dims(self):
        return 2

    def forward(self, imgs, masks=None, **kwargs):
        if masks is None:
            masks = torch.ones_like(imgs[:, :1])
        return {"sim": self.conv(torch.cat([imgs, masks], dim=1))}


for _c in (MultiPassEmissionAbsorptionRenderer, SignedDistanceFunctionRenderer, ViewMetrics, RegularizationMetrics):
    expand_args_fields(_c)


def npd(x):
    return x.detach().double().numpy()


# ---------------------------------------------------------------- faults
def attempt(d, ctx, fn):
    """runs fn, maybe failing in an allocation or interrupted -> (completed, value, kind of failure)"""
    how = d.weighted([5, 3, 2])
    if how == 0:
        return True, fn(), None
    if how == 1:
        r = None
        with th.OpFaults(1 + d.choice(60)) as f:
            try:
                r = fn()
            except (th.AllocFail, RuntimeError):
                if not f.fired:
                    raise
        if f.fired:
            ctx.fault("alloc_failure")
            return False, r, "alloc"
        return True, r, None
    (ok, r), fired = th.interrupted(fn, FILES, 1 + d.gap(10))
    if fired:
        ctx.fault("interrupt")
    elif ok != "ok":
        raise r
    return not fired, r, "interrupt" if fired else None


# ---------------------------------------------------------------- metrics, by their definitions
def sample(img, xy, mode):
    """img (C, H, W) at NDC points (n, 2) -> (n, C)"""
    C, H, W = img.shape
    s = min(H, W)
    px = W / 2 - xy[:, 0] * s / 2 - 0.5
    py = H / 2 - xy[:, 1] * s / 2 - 0.5
    out = np.zeros((len(xy), C))
    for k, (x, y) in enumerate(zip(px, py)):
        if mode == "nearest":
            taps = [(round(x), round(y), 1.0)]
        else:
            x0, y0 = math.floor(x), math.floor(y)
            taps = [
                (x0, y0, (x0 + 1 - x) * (y0 + 1 - y)),
                (x0 + 1, y0, (x - x0) * (y0 + 1 - y)),
                (x0, y0 + 1, (x0 + 1 - x) * (y - y0)),
                (x0 + 1, y0 + 1, (x - x0) * (y - y0)),
            ]
        for i, j, w in taps:
            if 0 <= i < W and 0 <= j < H:
                out[k] += w * img[:, j, i]
    return out


def depth_error(pred, gt, mask=None):
    """mean over the batch (B, n) of the absolute error after the best scaling"""
    if mask is not None:
        gt = gt * (mask > 0.5)
    v = (gt > 0).astype(float)
    n = pred[0].size
    scale = (pred * gt * v).sum(1) / n / np.maximum((pred * pred * v).sum(1) / n, 1e-4)
    e = np.abs(gt - pred * scale[:, None]) * v
    return (e.sum(1) / np.maximum(v.sum(1), 1e-4)).mean()


def psnr(a, b, mask):
    """a, b (B, n, 3), mask (B, n)"""
    mse = (((a - b) ** 2) * mask[..., None]).sum() / max(3 * mask.sum(), 1e-5)
    return -10 * math.log10(max(mse, 1e-10))


def iou_of(p, g, mask):
    p, g = p * mask, g * mask
    i = (p * g).sum(1)
    return (i / ((p + g - p * g).sum(1) + 1e-4)).mean()


def view_metrics(P, G):
    """P predictions and G ground truth of the rays: color (B, n, 3), mask, depth (B, n), crop (B, n)"""
    out = {}
    crop = G["crop"] if G["crop"] is not None else np.ones_like(P["mask"])
    if G["color"] is not None:
        d2 = ((P["color"] - G["color"]) ** 2).mean(-1)
        d1 = np.abs(P["color"] - G["color"]).mean(-1)
        mass = max(crop.sum(), 1.0)
        hub = (np.sqrt(1 + d2 / 0.03**2 + 1e-4) - 1) * 0.03
        out["rgb_huber"] = (hub * crop).sum() / mass
        out["rgb_l1"] = (d1 * crop).sum() / mass
        out["rgb_mse"] = (d2 * crop).sum() / mass
        out["rgb_psnr"] = psnr(P["color"], G["color"], crop)
        if G["mask"] is not None:
            m = crop * G["mask"]
            out["rgb_psnr_fg"] = psnr(P["color"], G["color"], m)
            out["rgb_mse_fg"] = (d2 * m).sum() / max(m.sum(), 1.0)
    if G["mask"] is not None:
        out["mask_neg_iou"] = 1 - iou_of(P["mask"], G["mask"], crop)
        p = np.clip(P["mask"], 0.01, 0.99)
        fg = (G["mask"] > 0.5) * crop
        bg = (1 - fg) * crop
        w = fg / max(fg.sum(), 1.0) + bg / max(bg.sum(), 1.0)
        w = w * (w.size / max(w.sum(), 1.0))
        out["mask_bce"] = (-(G["mask"] * np.log(p) + (1 - G["mask"]) * np.log(1 - p)) * w).mean()
    if G["depth"] is not None:
        out["depth_abs"] = depth_error(P["depth"], G["depth"], crop)
        if G["mask"] is not None:
            out["depth_abs_fg"] = depth_error(P["depth"], G["depth"], crop * G["mask"])
    out["depth_neg_penalty"] = (np.minimum(P["depth"], 0) ** 2).mean()
    return out


def judge_metrics(ctx, got, want, prefix, what, tol=2e-3):
    for k, v in want.items():
        ctx.check(prefix + k in got, "missing-metric", k, what)
        g = float(got[prefix + k])
        ctx.check(abs(g - v) <= tol * max(1.0, abs(v)), "metric-differs", k, what, g, float(v))


def draw_truth(d, rs, n, H, W):
    """images, masks, depths and crops of n views; some of them may be missing"""
    G = dict(
        image_rgb=rs.rand(n, 3, H, W),
        fg_probability=(rs.rand(n, 1, H, W) > 0.4).astype(float),
        depth_map=rs.uniform(1, 4, size=(n, 1, H, W)) * (rs.rand(n, 1, H, W) > 0.2),
        mask_crop=np.ones((n, 1, H, W)),
    )
    if d.chance(1, 2):
        a, b = 1 + d.choice(H), 1 + d.choice(W)
        G["mask_crop"][:, :, a:] = 0
        G["mask_crop"][:, :, :, b:] = 0
    for k in ("image_rgb", "fg_probability", "depth_map", "mask_crop"):
        if d.chance(1, 4):
            G[k] = None
    return G


def tt(x, grad=False):
    return None if x is None else torch.tensor(x, dtype=torch.float32, requires_grad=grad)


def metrics(d, ctx):
    rs = np.random.RandomState(d.seed32())
    torch.manual_seed(d.seed32())
    vm = ViewMetrics()
    for _ in range(1 + d.choice(3)):
        n = 1 + d.choice(3)
        H, W = 2 + d.choice(6), 2 + d.choice(6)
        G = draw_truth(d, rs, n, H, W)
        packed = d.chance(2, 5)
        if packed:
            # the rays of a sample of the cameras, in any order
            ids = rs.permutation(n)[: 1 + d.choice(n)]
            counts = rs.randint(1, 5, size=len(ids))
            shape = (int(counts.sum()), 1)
            cam = np.repeat(ids, counts)
        else:
            shape = (n,) + ((1 + d.choice(7),) if d.chance(1, 2) else (1 + d.choice(4), 1 + d.choice(4)))
            cam = np.arange(n)
        lim = np.array([max(W / H, 1), max(H / W, 1)]) * (1.1 if d.chance(1, 4) else 1)
        xy = (rs.uniform(-1, 1, size=shape + (2,)) * lim).astype(np.float32)
        stages = [
            dict(color=rs.rand(*shape, 3), mask=rs.uniform(0, 1, size=shape + (1,)), depth=rs.uniform(-1, 4, size=shape + (1,)))
            for _ in range(1 + d.weighted([2, 1]))
        ]
        rb = ImplicitronRayBundle(
            origins=torch.zeros(shape + (3,)),
            directions=torch.ones(shape + (3,)),
            lengths=torch.ones(shape + (2,)),
            xys=torch.tensor(xy),
            camera_ids=torch.tensor(ids) if packed else None,
            camera_counts=torch.tensor(counts) if packed else None,
        )
        out = None
        for P in stages:
            out = RendererOutput(features=tt(P["color"], True), masks=tt(P["mask"]), depths=tt(P["depth"]), prev_stage=out)
        gt, dgrid = None, None
        if d.chance(1, 3):
            gt = rs.normal(size=(5, 3))
            out.aux["grad_theta"] = tt(gt)
        if d.chance(1, 3):
            dgrid = rs.uniform(0, 3, size=(1, 3, 4, 2))
            out.aux["density_grid"] = tt(dgrid)
        args = {k: tt(v) for k, v in G.items()}
        kept = {k: None if v is None else v.clone() for k, v in args.items()}

        def run():
            return vm(results={}, raymarched=out, ray_bundle=rb, **args)

        completed, got, _k = attempt(d, ctx, run)
        if not completed:
            got = run()
        ctx.check(all(v is None or torch.equal(v, kept[k]) for k, v in args.items()), "metrics-changed-inputs")
        if xy.size:
            ctx.check(np.array_equal(rb.xys.numpy(), xy), "metrics-changed-rays")
        flat = xy.reshape(shape[0], -1, 2).astype(np.float64)
        # away from the borders between pixels
        s = min(H, W)
        frac = np.stack([W / 2 - flat[..., 0] * s / 2, H / 2 - flat[..., 1] * s / 2], -1)
        if np.abs(frac - np.round(frac)).min() < 1e-4:
            continue

        def at(k, mode):
            if G[k] is None:
                return None
            r = np.stack([sample(G[k][c], flat[i], mode) for i, c in enumerate(cam)])
            return r if k == "image_rgb" else r[..., 0]

        T = dict(color=at("image_rgb", "bilinear"), mask=at("fg_probability", "nearest"), depth=at("depth_map", "nearest"), crop=at("mask_crop", "nearest"))
        prefix = "loss_"
        for P in reversed(stages):
            want = view_metrics({k: v.reshape((shape[0], -1) + ((3,) if k == "color" else ())) for k, v in P.items()}, T)
            if P is stages[-1]:
                if gt is not None:
                    want["eikonal"] = ((np.linalg.norm(gt, axis=1) - 1) ** 2).mean()
                if dgrid is not None:
                    g = np.log(dgrid + 1e-5)
                    c = g[..., :-1, :-1, :-1]
                    v = (g[..., :-1, :-1, 1:] - c) ** 2 + (g[..., :-1, 1:, :-1] - c) ** 2 + (g[..., 1:, :-1, :-1] - c) ** 2
                    want["density_tv"] = np.sqrt(v + 1e-5).mean()
            judge_metrics(ctx, got, want, prefix, ("packed" if packed else "grid", len(stages)))
            for k in got:
                if k.startswith(prefix) and not k.startswith(prefix + "prev_stage_"):
                    ctx.check(k[len(prefix):] in want or k.endswith("beta_prior"), "unasked-metric", k)
            prefix += "prev_stage_"
        if G["image_rgb"] is not None:
            # a step against the gradient improves
            (g,) = torch.autograd.grad(got["loss_rgb_mse"], [out.features])
            crop = 1 if T["crop"] is None else T["crop"][..., None]
            P = stages[-1]["color"].reshape(shape[0], -1, 3)
            mass = max((np.ones(flat.shape[:2]) if T["crop"] is None else T["crop"]).sum(), 1)
            w = 2 * (P - T["color"]) * crop / 3 / mass
            ctx.check(np.allclose(npd(g).reshape(w.shape), w, atol=1e-4), "gradient-of-a-metric", float(np.abs(npd(g).reshape(w.shape) - w).max()))
        ctx.state(packed, len(shape), len(stages), tuple(v is None for v in G.values()))
        ctx.count("metric_evaluations")
    ctx.nontrivial = True


# ---------------------------------------------------------------- ray marching
class Field(torch.nn.Module):
    """a smooth field; remembers the rays it was asked about"""

    def __init__(self, rs, dim):
        super().__init__()
        self.c = torch.nn.Parameter(tt(rs.uniform(-1, 1, size=(3,))))
        self.k = torch.nn.Parameter(tt(rs.uniform(-1, 1, size=(3, dim))))
        self.b = float(rs.uniform(-1, 3))
        self.asked = []
        self.bound = None

    def density(self, p):
        return self.b * torch.sin(2 * (p - self.c)).sum(-1, keepdim=True) + 1

    def color(self, p):
        return torch.sigmoid(p @ self.k)

    def forward(self, *, ray_bundle, **kwargs):
        z = ray_bundle.lengths
        p = ray_bundle.origins[..., None, :] + z[..., None] * ray_bundle.directions[..., None, :]
        self.asked.append(z.detach().clone())
        return self.density(p), self.color(p), {}

    def on_bind_args(self):
        pass

    @staticmethod
    def requires_pooling_without_aggregation():
        return False


def marched(z, sigma, col, cfg, last):
    """(rays, n), (rays, n), (rays, n, C) -> color, depth, opacity, weights"""
    R, n = z.shape
    dz = np.diff(z, axis=1)
    dz = np.concatenate([dz, dz[:, -1:] if cfg.get("replicate_last_interval") else np.full((R, 1), last)], 1)
    if cfg.get("density_relu", True):
        sigma = np.maximum(sigma, 0)
    cap = (lambda x: 1 - np.exp(-x)) if cfg["kind"] == "EmissionAbsorptionRaymarcher" else (lambda x: np.minimum(x, 1))
    w = np.zeros((R, n))
    acc = np.zeros((R, n))
    total = np.zeros(R)
    t = cfg.get("surface_thickness", 1)
    for i in range(n):
        total = total + dz[:, i] * sigma[:, i]
        acc[:, i] = cap(total)
        free = 1 - acc[:, i - t] if i >= t else np.ones(R)
        a = cap(dz[:, i] * sigma[:, i])
        w[:, i] = a * free if cfg["kind"] == "EmissionAbsorptionRaymarcher" else np.minimum(a, free)
    op = acc[:, -1]
    color = (w[..., None] * col).sum(1)
    bg = np.broadcast_to(np.array(cfg.get("bg_color", (0.0,))), color.shape)
    color = (op[:, None] if cfg.get("blend_output") else 1) * color + (1 - op[:, None]) * bg
    return color, (w * z).sum(1), op, w


def marching(d, ctx):
    rs = np.random.RandomState(d.seed32())
    kind = d.pick(["EmissionAbsorptionRaymarcher", "EmissionAbsorptionRaymarcher", "CumsumRaymarcher"])
    dim = 1 + d.choice(3)
    rm = dict(kind=kind)
    if d.chance(1, 2):
        rm["bg_color"] = tuple(float(x) for x in rs.rand(1 if d.chance(1, 2) else dim))
    for k in ("replicate_last_interval", "blend_output"):
        if d.chance(1, 3):
            rm[k] = True
    if d.chance(1, 4):
        rm["surface_thickness"] = 2
    a = get_default_args(MultiPassEmissionAbsorptionRenderer)
    a.raymarcher_class_type = kind
    ra = a["raymarcher_" + kind + "_args"]
    for k, v in rm.items():
        if k != "kind":
            ra[k] = v
    last = 1e10 if kind == "EmissionAbsorptionRaymarcher" else 0.0
    nf = [3 + d.choice(5), 3 + d.choice(5)]  # two points have no bins between
    a.n_pts_per_ray_fine_training, a.n_pts_per_ray_fine_evaluation = nf
    a.append_coarse_samples_to_fine = d.chance(2, 3)
    strat = d.chance(1, 2)
    a.stratified_sampling_coarse_training = strat
    a.return_weights = d.chance(1, 2)
    a.blurpool_weights = d.chance(1, 4)
    r = MultiPassEmissionAbsorptionRenderer(**a)
    passes = 1 + d.weighted([3, 2, 1])
    fields = [Field(rs, dim) for _ in range(passes)]
    fns = [ImplicitFunctionWrapper(f) for f in fields]
    for _ in range(1 + d.choice(3)):
        shape = (1 + d.choice(2),) + ((1 + d.choice(4),) if d.chance(1, 2) else (1 + d.choice(3), 1 + d.choice(2)))
        n = 3 + d.choice(4)
        z = np.sort(rs.uniform(0.2, 5, size=shape + (n,)), -1).astype(np.float32)
        if d.chance(1, 4):
            z[..., 1:2] = z[..., :1]  # two points at once
        rb = ImplicitronRayBundle(
            origins=tt(rs.normal(size=shape + (3,))),
            directions=tt(rs.normal(size=shape + (3,))),
            lengths=torch.tensor(z),
            xys=torch.zeros(shape + (2,)),
        )
        kept = {k: getattr(rb, k).clone() for k in ("origins", "directions", "lengths", "xys")}
        mode = d.pick([TRAIN, EVAL])
        seed = d.seed32()

        def run():
            torch.manual_seed(seed)
            for f in fields:
                f.asked.clear()
            return r(ray_bundle=rb, implicit_functions=fns, evaluation_mode=mode)

        completed, out, _k = attempt(d, ctx, run)
        if not completed:
            out = run()
        ctx.check(all(torch.equal(getattr(rb, k), v) for k, v in kept.items()), "renderer-changed-rays")
        o = rb.origins.double().numpy().reshape(-1, 3)
        dr = rb.directions.double().numpy().reshape(-1, 3)
        coarse = None
        stage = []
        s = out
        while s is not None:
            stage.append(s)
            s = s.prev_stage
        ctx.check(len(stage) == passes, "number-of-stages", len(stage), passes)
        R = o.shape[0]
        for i, (s, f) in enumerate(zip(reversed(stage), fields)):
            ctx.check(len(f.asked) == 1, "evaluations-of-the-field", len(f.asked))
            zz = f.asked[0].double().numpy().reshape(R, -1)
            if i == 0:
                ctx.check(np.array_equal(f.asked[0].numpy(), z), "first-pass-rays")
            else:
                m = nf[0 if mode == TRAIN else 1]
                want = m + (coarse.shape[1] if a.append_coarse_samples_to_fine else 0)
                ctx.check(zz.shape[1] == want, "points-of-fine-pass", zz.shape, want)
                ctx.check((np.diff(zz, axis=1) >= 0).all(), "fine-points-unsorted")
                ctx.check(zz.min() >= coarse.min() - 1e-4 and zz.max() <= coarse.max() + 1e-4, "fine-points-outside")
                if a.append_coarse_samples_to_fine:
                    for x, y in zip(zz, coarse):
                        ctx.check(np.isin(np.float32(y), np.float32(x)).all(), "fine-pass-lost-coarse-points")
            p = torch.tensor(o[:, None] + zz[..., None] * dr[:, None])
            g = copy.deepcopy(f).double()
            color, depth, op, w = marched(zz, npd(g.density(p))[..., 0], npd(g.color(p)), rm, last)
            got = npd(s.features).reshape(R, -1)
            ctx.check(s.features.shape == shape + (dim,) and s.depths.shape == shape + (1,) and s.masks.shape == shape + (1,), "shape-of-render")
            ctx.check(np.allclose(got, color, atol=2e-3), "marched-color", i, float(np.abs(got - color).max()))
            ctx.check(np.allclose(npd(s.depths).reshape(R), depth, atol=5e-3), "marched-depth", i)
            ctx.check(np.allclose(npd(s.masks).reshape(R), op, atol=1e-3), "marched-opacity", i)
            ctx.check((s.weights is not None) == bool(a.return_weights), "weights-returned")
            if s.weights is not None:
                ctx.check(np.allclose(npd(s.weights).reshape(w.shape), w, atol=1e-3), "marched-weights", i)
            coarse = zz
        torch.manual_seed(seed if (mode == TRAIN and strat) else d.seed32())
        again = r(ray_bundle=rb, implicit_functions=fns, evaluation_mode=mode)
        ctx.check(torch.equal(again.features, out.features) and torch.equal(again.depths, out.depths), "render-not-repeatable")
        ctx.state(kind, passes, mode.value, tuple(sorted(k for k in rm)))
        ctx.count("marched_rays", R)
    ctx.nontrivial = True


# ---------------------------------------------------------------- surfaces
class Ball(torch.nn.Module):
    """the signed distance of a ball, and features"""

    def __init__(self, c, r, dim):
        super().__init__()
        self.c = torch.nn.Parameter(tt(c))
        self.r = r
        self.dim = dim

    def forward(self, *, rays_points_world, **kwargs):
        x = rays_points_world
        sdf = (x - self.c).norm(dim=-1, keepdim=True) - self.r
        return torch.cat([sdf, torch.sin(x @ torch.ones(3, self.dim))], dim=-1)


def surface(d, ctx):
    rs = np.random.RandomState(d.seed32())
    torch.manual_seed(d.seed32())
    ext = 1.5
    a = get_default_args(SignedDistanceFunctionRenderer)
    a.bg_color = tuple(float(x) for x in rs.rand(3)) if d.chance(1, 2) else (0.0,)
    a.ray_normal_coloring_network_args.dims = [6]
    a.ray_normal_coloring_network_args.mode = d.pick(["idr", "no_view_dir", "no_normal"])
    a.ray_normal_coloring_network_args.n_harmonic_functions_dir = 0
    a.object_bounding_sphere = ext
    a.ray_tracer_args.n_steps = 60
    a.ray_tracer_args.sphere_tracing_iters = 1 + d.choice(16)
    dim = 3
    a.render_features_dimensions = dim
    a.ray_normal_coloring_network_args.feature_vector_size = dim
    a.ray_normal_coloring_network_args.d_in = {"idr": 9, "no_view_dir": 6, "no_normal": 6}[a.ray_normal_coloring_network_args.mode]
    r = SignedDistanceFunctionRenderer(**a)
    for _ in range(1 + d.choice(3)):
        c = rs.uniform(-0.5, 0.5, size=3)
        rad = rs.uniform(0.2, 0.8)
        ball = ImplicitFunctionWrapper(Ball(c, rad, dim))
        B, n = 1 + d.choice(2), 3 + d.choice(6)
        shape = (B, n) if d.chance(1, 2) else (B, n, 2)
        o = rs.normal(size=(B, 3))
        o = o / np.linalg.norm(o, axis=1, keepdims=True) * rs.uniform(2.5, 4, size=(B, 1))
        o = np.broadcast_to(o.reshape((B,) + (1,) * (len(shape) - 1) + (3,)), shape + (3,)).copy()
        miss = d.chance(1, 6)
        t = c + rs.normal(size=shape + (3,)) * (0.05 if d.chance(1, 6) else 0.6)
        dr = t - o if not miss else o + 0.2 * rs.normal(size=shape + (3,))
        dr = dr / np.linalg.norm(dr, axis=-1, keepdims=True)
        obj = rs.rand(*shape) > 0.3
        mode = d.pick([TRAIN, EVAL, EVAL])
        r.train(mode == TRAIN)
        ball.train(mode == TRAIN)
        rb = ImplicitronRayBundle(origins=tt(o), directions=tt(dr), lengths=torch.zeros(shape + (1,)), xys=torch.zeros(shape + (2,)))
        om = torch.tensor(obj)[..., None].permute((0, len(shape)) + tuple(range(1, len(shape))))
        kept = [rb.origins.clone(), rb.directions.clone(), om.clone()]
        seed = d.seed32()

        def run():
            torch.manual_seed(seed)
            return r(ray_bundle=rb, implicit_functions=[ball], evaluation_mode=mode, object_mask=om)

        completed, out, _k = attempt(d, ctx, run)
        if not completed:
            out = run()
        ctx.check(all(torch.equal(x, y) for x, y in zip(kept, (rb.origins, rb.directions, om))), "renderer-changed-inputs")
        ctx.check(ball.training == (mode == TRAIN), "renderer-changed-mode")
        oc = o - c
        b = (oc * dr).sum(-1)
        near = np.linalg.norm(oc - b[..., None] * dr, axis=-1)  # distance of the line from the center
        hit = (near < rad - 0.03) & (b < 0)
        free = (near > rad + 0.05) | (b > 0)
        z = -b - np.sqrt(np.maximum(rad**2 - near**2, 0))
        depth, mask, col, nor, pts = (npd(x) for x in (out.depths, out.masks, out.features, out.normals, out.points))
        ctx.check(depth.shape == shape + (1,) and mask.shape == shape + (1,) and col.shape == shape + (dim,), "shape-of-render")
        depth, mask = depth[..., 0], mask[..., 0]
        shown = hit & obj if mode == TRAIN else hit
        ctx.check(np.allclose(mask[shown], 1, atol=1e-4), "surface-not-shown", float(mask[shown].min(initial=1)), mode.value)
        ctx.check((mask[free] < 0.5).all(), "shown-without-surface", float(mask[free].max(initial=0)), mode.value)
        if mode == EVAL:
            ctx.check(np.abs(depth - z)[shown].max(initial=0) < 5e-3, "depth-of-surface", float(np.abs(depth - z)[shown].max(initial=0)))
        s = shown if mode == EVAL else shown & (np.abs(depth - z) < 5e-3)
        q = o + z[..., None] * dr
        ctx.check(np.abs(pts - q)[s].max(initial=0) < 2e-2, "points-of-surface")
        ctx.check(np.abs(nor - (q - c) / rad)[s].max(initial=0) < 5e-2, "normals-of-surface")
        bg = np.broadcast_to(np.array(a.bg_color), col.shape)
        ctx.check(np.abs(col - bg)[free].max(initial=0) < 1e-5, "background-of-surface")
        if shape[0] > 1 and mode == EVAL:
            # one image does not depend on the others
            k = d.choice(B)
            rb1 = ImplicitronRayBundle(origins=rb.origins[k : k + 1], directions=rb.directions[k : k + 1], lengths=rb.lengths[k : k + 1], xys=rb.xys[k : k + 1])
            one = r(ray_bundle=rb1, implicit_functions=[ball], evaluation_mode=mode, object_mask=om[k : k + 1])
            ok = shown[k] | free[k]
            ctx.check(np.abs(npd(one.features)[0] - col[k])[ok].max(initial=0) < 5e-3, "depends-on-other-images", "color")
            ctx.check(np.abs(npd(one.depths)[0, ..., 0] - depth[k])[shown[k]].max(initial=0) < 5e-3, "depends-on-other-images", "depth")
        if mode == TRAIN and out.aux.get("grad_theta") is not None:
            ctx.check(np.allclose(np.linalg.norm(npd(out.aux["grad_theta"]), axis=-1), 1, atol=1e-3), "gradients-of-distance")
        ctx.state(mode.value, len(shape), miss, a.ray_normal_coloring_network_args.mode)
        ctx.count("traced_rays", int(np.prod(shape)))
    ctx.nontrivial = True


# ---------------------------------------------------------------- evaluation
def resize(x, H, W, mode):
    """(C, h, w) -> (C, H, W)"""
    h, w = x.shape[1:]
    if mode == "nearest":
        return x[:, [i * h // H for i in range(H)]][:, :, [i * w // W for i in range(W)]]

    def weights(n, N):
        M = np.zeros((N, n))
        for i in range(N):
            s = max((i + 0.5) * n / N - 0.5, 0)
            a = min(int(s), n - 1)
            b = min(a + 1, n - 1)
            M[i, a] += 1 - (s - a)
            M[i, b] += s - a
        return M

    return np.einsum("Hh,chw,Ww->cHW", weights(h, H), x, weights(w, W))


def eval_metrics(G, P, bg, thr=0.5):
    H, W = G["image_rgb"].shape[2:]
    img = G["image_rgb"][0]
    fg = (G["fg_probability"][0] >= thr).astype(float) if G["fg_probability"] is not None else np.ones((1, H, W))
    crop = G["mask_crop"][0] if G["mask_crop"] is not None else np.ones((1, H, W))
    pm = resize(P["mask_render"][0], H, W, "nearest")
    pi = np.clip(resize(P["image_render"][0], H, W, "bilinear"), 0, 1)
    pd = resize(P["depth_render"][0], H, W, "nearest")
    masked = img * fg + (1 - fg) * np.array(bg).reshape(-1, 1, 1)

    def f(x):
        return x.reshape(len(x), -1).T[None]

    def l1(a, b, m):  # summed over the colors
        return (np.abs(a - b) * m).sum() / max(m.sum(), 1)

    out = dict(iou=iou_of(pm.reshape(1, -1), fg.reshape(1, -1), crop.reshape(1, -1)))
    for post, m in (("_masked", crop), ("_fg", crop * fg)):
        out["psnr" + post] = psnr(f(pi), f(masked), m.reshape(1, -1))
        out["rgb_l1" + post] = l1(pi, masked, m)
    out["psnr_full_image"] = psnr(f(pi), f(img), crop.reshape(1, -1))
    out["rgb_l1_full_image"] = l1(pi, img, crop)
    if G["depth_map"] is not None:
        gd = G["depth_map"][0] * (G["depth_mask"][0] if G["depth_mask"] is not None else 1)
        c = [x[:, 5:-5, 5:-5].reshape(1, -1) for x in (pd, gd, crop * fg)]
        out["depth_abs_fg"] = depth_error(*c)
    return out


def frames(d, rs, train, n, full):
    H, W = 11 + d.choice(4), 11 + d.choice(4)
    G = draw_truth(d, rs, n, H, W)
    if G["image_rgb"] is None:
        G["image_rgb"] = rs.rand(n, 3, H, W)
    if full and G["depth_map"] is None:
        G["depth_map"] = rs.uniform(1, 4, size=(n, 1, H, W))
    G["depth_mask"] = (rs.rand(n, 1, H, W) > 0.3).astype(float) if G["depth_map"] is not None and d.chance(1, 2) else None
    if G["fg_probability"] is not None and d.chance(1, 2):
        G["fg_probability"] = np.round(rs.rand(n, 1, H, W), 1) + 0.03
    s = "train" if train else "test"
    R, T = look_at_view_transform(3.0, 10.0, torch.arange(n) * 30.0)
    fd = FrameData(
        sequence_name=["s"] * n,
        camera=PerspectiveCameras(R=R, T=T),
        frame_type=[s + "_unseen"] + [s + "_known"] * (n - 1),
        frame_number=torch.arange(n),
        **{k: tt(v) for k, v in G.items()},
    )
    return G, fd


def renders(rs, d, H, W, n=1):
    # sizes for which the nearest neighbours are the same in any precision
    if d.chance(1, 2):
        h, w = H, W
    else:
        h, w = (d.pick([x for x in range(4, 17) if math.gcd(x, X) == 1 or x == X]) for X in (H, W))
    return dict(mask_render=rs.rand(n, 1, h, w), image_render=rs.uniform(-0.2, 1.2, size=(n, 3, h, w)), depth_render=rs.uniform(0.5, 4, size=(n, 1, h, w)))


def same_frames(a, b):
    for k in ("image_rgb", "fg_probability", "depth_map", "mask_crop", "depth_mask"):
        x, y = getattr(a, k), getattr(b, k)
        if (x is None) != (y is None) or (x is not None and not torch.equal(x, y)):
            return False
    return True


class Recorder(torch.nn.Module):
    """a model which remembers what it is asked and answers what it is told"""

    def __init__(self, answers):
        super().__init__()
        self.answers = answers
        self.asked = []

    def forward(self, **kwargs):
        self.asked.append((kwargs, self.training))
        P = self.answers[len(self.asked) - 1]
        return {"implicitron_render": ImplicitronRender(**{k: tt(v) for k, v in P.items()})}


BGS = {"black": (0, 0, 0), "white": (1, 1, 1), 0.25: (0.25,) * 3, (0.1, 0.5, 0.9): (0.1, 0.5, 0.9)}


def evaluate(d, ctx):
    from pytorch3d.implicitron.evaluation.evaluator import ImplicitronEvaluator

    rs = np.random.RandomState(d.seed32())
    if d.chance(1, 2):
        for _ in range(1 + d.choice(2)):
            G, fd = frames(d, rs, d.chance(1, 2), 1 + d.choice(3), False)
            H, W = G["image_rgb"].shape[2:]
            P = renders(rs, d, H, W, 1 + d.choice(2))
            bg = d.pick(list(BGS))
            kept = copy.deepcopy(fd)
            R = ImplicitronRender(**{k: tt(v) for k, v in P.items()})
            kr = copy.deepcopy(R)

            def run():
                return evaluation.eval_batch(fd, R, bg_color=bg)

            completed, got, _k = attempt(d, ctx, run)
            if not completed:
                got = run()
            ctx.check(same_frames(fd, kept), "evaluation-changed-frames")
            ctx.check(all(torch.equal(getattr(R, k), getattr(kr, k)) for k in P), "evaluation-changed-renders")
            want = eval_metrics(G, P, BGS[bg])
            judge_metrics(ctx, got, want, "", "eval_batch")
            ctx.check(set(got) == set(want) | {"meta"}, "metrics-of-evaluation", sorted(got))
            ctx.check(got["meta"] == {"batch_size": len(fd.frame_type), "frame_type": fd.frame_type[0]}, "meta-of-evaluation")
            ctx.state("batch", tuple(v is None for v in G.values()), str(bg))
    else:
        multi = d.chance(2, 3)
        nb = 1 + d.choice(5)
        batches = [frames(d, rs, multi and d.chance(1, 2), d.pick([1, 2, 4, 6]), True) for _ in range(nb)]
        answers = [renders(rs, d, *G["image_rgb"].shape[2:]) for G, _fd in batches]
        model = Recorder(answers)
        model.train(d.chance(1, 2))
        kept = copy.deepcopy([fd for _G, fd in batches])
        expand_args_fields(ImplicitronEvaluator)
        ev = ImplicitronEvaluator(is_multisequence=multi)

        def run():
            model.asked.clear()
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                return ev.run(model=model, dataloader=[fd for _G, fd in batches], device=torch.device("cpu"))

        completed, res, _k = attempt(d, ctx, run)
        if not completed:
            res = run()
        ctx.check(len(model.asked) == nb, "frames-evaluated", len(model.asked), nb)
        for (kw, training), k, (G, fd) in zip(model.asked, kept, batches):
            ctx.check(not training and kw["evaluation_mode"] == EVAL, "evaluated-while-training")
            ctx.check(same_frames(fd, k), "evaluator-changed-frames")
            for name in ("image_rgb", "fg_probability", "depth_map", "mask_crop"):
                v = kw[name]
                ctx.check((v is None) == (G[name] is None), "frames-given-to-model", name)
                if v is not None:
                    ctx.check(not v[0].any(), "target-shown-to-model", name)
                    ctx.check(torch.equal(v[1:], getattr(k, name)[1:]), "sources-not-shown-to-model", name)
        each = [eval_metrics(G, P, (0, 0, 0)) for (G, _fd), P in zip(batches, answers)]
        train = [fd.frame_type[0].startswith("train") for _G, fd in batches]
        src = [len(fd.frame_type) - 1 for _G, fd in batches]
        seen = set()
        for r in res:
            sub, part = r["subset"], r["subsubset"]
            ctx.check((sub, part) not in seen, "result-twice")
            seen.add((sub, part))
            idx = [i for i in range(nb) if not multi or train[i] == (sub == "train")]
            if part != "diff=all":
                idx = [i for i in idx if src[i] == int(part.split("=")[1])]
            for k, v in r["metrics"].items():
                if not idx:
                    ctx.check(math.isnan(v), "mean-of-nothing", k, v)
                else:
                    w = float(np.mean([each[i][k] for i in idx]))
                    ctx.check(abs(v - w) <= 2e-3 * max(1, abs(w)), "mean-of-metric", sub, part, k, v, w)
            ctx.check(set(r["metrics"]) == set(each[0]), "metrics-of-evaluation", sorted(r["metrics"]))
        want = {(s, p) for s in (["train", "test"] if multi else ["test"]) for p in ["diff=all"] + ([f"n_src={n}" for n in (1, 3, 5, 7, 9)] if multi else [])}
        ctx.check(seen == want, "results-of-evaluation", sorted(seen))
        ctx.state("run", multi, nb, tuple(sorted(set(src))))
    ctx.nontrivial = True


# ---------------------------------------------------------------- models
SEQS = ["a", "b", "c"]
_defaults = {}


def defaults(cls):
    if cls not in _defaults:
        _defaults[cls] = get_default_args(cls)
    return copy.deepcopy(_defaults[cls])


KINDS = ["nerf", "nerformer", "srn", "srn_hyper", "idr", "overfit"]


class World:
    """the configuration of a model, and how to make one afresh"""

    def __init__(self, d, rs):
        k = self.kind = d.pick(KINDS)
        self.cls = OverfitModel if k == "overfit" else GenericModel
        a = self.args = defaults(self.cls)
        self.H, self.W = a.render_image_height, a.render_image_width = 2 + d.choice(4), 2 + d.choice(4)
        single = k in ("srn", "srn_hyper", "idr")
        self.n = 1 if single else 3 + d.choice(3)
        self.sampler = d.pick(["AdaptiveRaySampler", "NearFarRaySampler"]) if k != "idr" else "AdaptiveRaySampler"
        a.raysampler_class_type = self.sampler
        rsa = a["raysampler_" + self.sampler + "_args"]
        if self.sampler == "NearFarRaySampler":
            rsa.min_depth, rsa.max_depth = 1.0, 5.0
        else:
            rsa.scene_extent = 1.8
        rsa.n_pts_per_ray_training = rsa.n_pts_per_ray_evaluation = self.n
        self.strat = rsa.stratified_point_sampling_training = d.chance(1, 2)
        self.rays = rsa.n_rays_per_image_sampled_from_mask = 2 + d.choice(5)
        self.views = a.n_train_target_views = d.pick([1, 2, 3, -1])
        a.sampling_mode_training = d.pick(["mask_sample", "mask_sample", "full_grid"])
        a.chunk_size_grid = self.chunk(d)
        a.tqdm_trigger_threshold = 10000
        a.mask_images, a.mask_depths = d.chance(1, 2), d.chance(1, 2)
        a.mask_threshold = 0.5
        a.bg_color = tuple(float(x) for x in rs.rand(3)) if d.chance(1, 2) else (0.0, 0.0, 0.0)
        a.output_rasterized_mc = False
        self.encoder = d.weighted([2, 2, 1])
        if k == "srn_hyper":
            self.encoder = 1
        if self.encoder == 1:
            a.global_encoder_class_type = "SequenceAutodecoder"
            a.global_encoder_SequenceAutodecoder_args.autodecoder_args.n_instances = len(SEQS)
            a.global_encoder_SequenceAutodecoder_args.autodecoder_args.encoding_dim = 3
        elif self.encoder == 2:
            a.global_encoder_class_type = "HarmonicTimeEncoder"
            a.global_encoder_HarmonicTimeEncoder_args.n_harmonic_functions = 2
        names = ["rgb_mse", "rgb_huber", "rgb_l1", "mask_bce", "mask_neg_iou", "depth_abs", "autodecoder_norm", "prev_stage_rgb_mse", "mask_beta_prior", "rgb_psnr", "eikonal"]
        a.loss_weights = {"loss_" + x: float(d.pick([0.0, 1.0, 0.5, 10.0])) for x in names if d.chance(1, 2)}
        self.passes, self.pool, self.packed, self.masked = 1, False, False, False
        if k in ("nerf", "nerformer", "overfit"):
            ea = a.renderer_MultiPassEmissionAbsorptionRenderer_args
            ea.n_pts_per_ray_fine_training = ea.n_pts_per_ray_fine_evaluation = 3
            ea.append_coarse_samples_to_fine = True
            ea.stratified_sampling_coarse_training = self.strat
            self.noise = d.chance(1, 4)
            ea.density_noise_std_train = 0.3 if self.noise else 0.0
            ea.return_weights = d.chance(1, 3)
            if d.chance(1, 4):
                ea.raymarcher_class_type = "CumsumRaymarcher"
            if d.chance(1, 2):
                self.passes = 2
        if k in ("nerf", "nerformer"):
            a.num_passes = self.passes
            name = {"nerf": "NeuralRadianceFieldImplicitFunction", "nerformer": "NeRFormerImplicitFunction"}[k]
            a.implicit_function_class_type = name
            self.nerf(d, a["implicit_function_" + name + "_args"])
            self.pool = k == "nerformer" or d.chance(1, 3)
            if self.pool:
                a.view_pooler_enabled = True
                a.image_feature_extractor_class_type = "SimFeatures"
                vp = a.view_pooler_args
                if k == "nerformer":
                    agg = d.pick(["IdentityFeatureAggregator", "AngleWeightedIdentityFeatureAggregator"])
                else:
                    agg = d.pick(["ReductionFeatureAggregator", "AngleWeightedReductionFeatureAggregator"])
                vp.feature_aggregator_class_type = agg
                vp["feature_aggregator_" + agg + "_args"].exclude_target_view = d.chance(1, 2)
                vp.view_sampler_args.masked_sampling = self.masked = d.chance(1, 2)
        elif k == "srn" or k == "srn_hyper":
            a.renderer_class_type = "LSTMRenderer"
            r = a.renderer_LSTMRenderer_args
            r.num_raymarch_steps = 2
            r.hidden_size = 4
            r.n_feature_channels = 5
            r.init_depth = 2.0
            r.bg_color = [0.1, 0.2, 0.3] if d.chance(1, 2) else None
            self.noise = d.chance(1, 3)
            r.init_depth_noise_std = 0.1 if self.noise else 0.0
            name = {"srn": "SRNImplicitFunction", "srn_hyper": "SRNHyperNetImplicitFunction"}[k]
            a.implicit_function_class_type = name
            f = a["implicit_function_" + name + "_args"]
            h = f.raymarch_function_args if k == "srn" else f.hypernet_args
            h.n_hidden_units, h.out_features, h.n_layers = 6, 5, 1
            if k == "srn_hyper":
                h.n_hidden_units_hypernet = 4
            f.pixel_generator_args.n_hidden_units = f.pixel_generator_args.n_hidden_units_color = 6
            f.pixel_generator_args.in_features = 5
        elif k == "idr":
            self.noise = True  # points for the eikonal loss
            a.sampling_mode_training = "mask_sample"
            if self.encoder:  # one code at a time
                self.views = a.n_train_target_views = 1
            a.renderer_class_type = "SignedDistanceFunctionRenderer"
            a.implicit_function_class_type = "IdrFeatureField"
            f = a.implicit_function_IdrFeatureField_args
            f.dims, f.bias = [8, 8], 0.8
            r = a.renderer_SignedDistanceFunctionRenderer_args
            r.ray_normal_coloring_network_args.dims = [6]
            r.ray_tracer_args.n_steps = 20
        else:
            which = d.choice(2)
            name = ["NeuralRadianceFieldImplicitFunction", "VoxelGridImplicitFunction"][which]
            for p in ("", "coarse_"):
                if p and self.passes == 1:
                    continue
                a[p + "implicit_function_class_type"] = name
                f = a[p + "implicit_function_" + name + "_args"]
                if which == 0:
                    self.nerf(d, f)
                else:
                    self.encoder = 0
                    a.global_encoder_class_type = None
                    f.scaffold_calculating_epochs = []
                    for g in ("density", "color"):
                        v = f["voxel_grid_" + g + "_args"]
                        v.voxel_grid_class_type = "FullResolutionVoxelGrid"
                        v.voxel_grid_FullResolutionVoxelGrid_args.resolution_changes = {0: [3, 4, 3]}
                        v.voxel_grid_FullResolutionVoxelGrid_args.n_features = 4
                        v.extents = (3.0, 3.0, 3.0)
                    f.harmonic_embedder_xyz_density_args.n_harmonic_functions = 1
                    f.harmonic_embedder_xyz_color_args.n_harmonic_functions = 1
                    f.harmonic_embedder_dir_color_args.n_harmonic_functions = 1
                    for g in ("density", "color"):
                        f["decoder_" + g + "_class_type"] = "MLPDecoder"
                        mlp = f["decoder_" + g + "_MLPDecoder_args"]
                        mlp.network_args.output_dim = {"density": 1, "color": 3}[g]
                        mlp.network_args.n_layers = 2
                        mlp.network_args.hidden_dim = 5
            if self.passes == 2 and d.chance(1, 3):
                a.share_implicit_function_across_passes = True
                a.coarse_implicit_function_class_type = None
        if k == "overfit" or (k == "nerf" and not self.pool and not self.encoder):
            if not self.encoder and a.sampling_mode_training == "mask_sample" and d.chance(1, 3):
                self.packed = True
                rsa.n_rays_per_image_sampled_from_mask = None
                rsa.n_rays_total_training = 1 + d.choice(6)
                self.views = a.n_train_target_views = d.pick([2, 3, -1])

    def nerf(self, d, f):
        f.n_harmonic_functions_xyz, f.n_harmonic_functions_dir = 2, 1
        f.n_hidden_neurons_dir, f.n_hidden_neurons_xyz = 4, 8
        f.n_layers_xyz, f.append_xyz = 2, [1]
        f.transformer_dim_down_factor = 1.0
        f.xyz_ray_dir_in_camera_coords = self.kind != "overfit" and d.chance(1, 4)

    def chunk(self, d):
        return self.n * d.pick([1, 2, 3, 5, 100])

    def build(self, chunk=None):
        a = copy.deepcopy(self.args)
        if chunk is not None:
            a.chunk_size_grid = chunk
        return self.cls(**a)

    def twin(self, m):
        t = self.build(m.chunk_size_grid)
        t.load_state_dict(copy.deepcopy(m.state_dict()))
        return t.train(m.training)

    def draw(self, d, rs, mode):
        """what a model is called with: the target first"""
        n = 1 + d.choice(3) if mode == EVAL else 1 + d.choice(4)
        if self.pool:
            n = max(n, 2)
        if self.packed and mode == TRAIN:
            n = max(n, 2)
        G = draw_truth(d, rs, n, self.H, self.W)
        if G["image_rgb"] is None and (self.pool or d.chance(1, 2)):
            G["image_rgb"] = rs.rand(n, 3, self.H, self.W)
        if self.kind == "idr" and G["fg_probability"] is None:
            G["fg_probability"] = np.ones((n, 1, self.H, self.W))
        if self.masked and G["mask_crop"] is None:
            G["mask_crop"] = np.ones((n, 1, self.H, self.W))
        seq = [d.pick(SEQS) for _ in range(n)]
        if self.pool:
            # the target has a source
            seq[1] = seq[0]
            if mode == TRAIN:
                seq = [seq[0]] * n
        R, T = look_at_view_transform(3.0, torch.tensor(rs.uniform(-40, 40, size=n)).float(), torch.tensor(rs.uniform(0, 360, size=n)).float())
        return dict(
            camera=PerspectiveCameras(R=R, T=T, focal_length=tt(rs.uniform(1.5, 2.5, size=(n, 1)))),
            sequence_name=seq,
            frame_timestamp=tt(rs.rand(n, 1)),
            evaluation_mode=mode,
            **{k: tt(v) for k, v in G.items()},
        )


VIEWWISE = ("image_rgb", "fg_probability", "depth_map", "mask_crop", "frame_timestamp")


def views(x, idx):
    """the views of a call, in another order or fewer"""
    y = dict(x)
    for k in VIEWWISE:
        y[k] = None if x[k] is None else x[k][idx]
    y["camera"] = x["camera"][list(idx)]
    y["sequence_name"] = [x["sequence_name"][i] for i in idx]
    return y


def cloned(x):
    y = views(x, list(range(len(x["sequence_name"]))))
    return {k: v.clone() if torch.is_tensor(v) else v for k, v in y.items()}


def unchanged(x, y):
    for k in VIEWWISE:
        if x[k] is not None and not torch.equal(x[k], y[k]):
            return False
    return x["sequence_name"] == y["sequence_name"] and all(torch.equal(getattr(x["camera"], k), getattr(y["camera"], k)) for k in ("R", "T", "focal_length"))


def flat(x, prefix=""):
    """the tensors of what a model returns, by name"""
    out = {}
    if torch.is_tensor(x):
        out[prefix] = x.detach()
    elif isinstance(x, dict):
        for k, v in x.items():
            out.update(flat(v, prefix + "/" + str(k)))
    elif hasattr(x, "__dict__"):
        out.update(flat(vars(x), prefix))
    return out


def equal(a, b):
    return set(a) == set(b) and all(torch.equal(torch.nan_to_num(a[k]), torch.nan_to_num(b[k])) for k in a)


def which(a, b):
    return [k for k in sorted(set(a) | set(b)) if k not in a or k not in b or not torch.equal(torch.nan_to_num(a[k]), torch.nan_to_num(b[k]))][:4]


def state(m):
    return {k: (dict(v) if isinstance(v, dict) else v.detach().clone()) for k, v in m.state_dict().items() if torch.is_tensor(v) or isinstance(v, dict)}


def state_kept(a, b):
    """the same, but that new sequences may have got their codes"""
    for k, v in a.items():
        if torch.is_tensor(v):
            if not torch.equal(v, b[k]):
                return False
        elif any(b[k].get(s) != i for s, i in v.items()):
            return False
    return True


def models(d, ctx):
    rs = np.random.RandomState(d.seed32())
    torch.manual_seed(d.seed32())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w = World(d, rs)
        m = w.build()
        history(d, ctx, rs, w, m)
    ctx.nontrivial = True


def history(d, ctx, rs, w, m):
    saved = []
    tol = 2e-2 if w.passes == 2 else 2e-3

    grad = [True]

    def call(m, x, seed):
        torch.manual_seed(seed)
        with torch.set_grad_enabled(grad[0]):
            return m(**x)

    def images(p):
        return {k: npd(p[k]) for k in ("images_render", "depths_render", "masks_render")}

    def near(a, b, *what):
        for k in a:
            e = np.abs(a[k] - b[k])
            if w.passes == 2:  # drawing from almost equal weights
                bad = (e > tol * max(1, np.abs(a[k]).max(initial=0))).max(axis=1)
                ctx.check(bad.sum() <= max(1, 0.2 * bad.size), *what, k, float(e.max()))
            else:
                ctx.check(e.max(initial=0) <= tol * max(1, np.abs(a[k]).max(initial=0)), *what, k, float(e.max()))

    for step in range(2 + d.choice(4)):
        op = d.weighted([6, 4, 2, 2, 2, 2])
        mode = TRAIN if op == 1 or d.chance(1, 4) else EVAL
        m.train(mode == TRAIN if d.chance(3, 4) else d.chance(1, 2))
        x = w.draw(d, rs, mode)
        kept = cloned(x)
        seed = d.seed32()
        before = state(m)
        grad[0] = op == 1 or d.chance(2, 3)
        if op <= 2:
            completed, p, how = attempt(d, ctx, lambda: call(m, x, seed))
            ctx.check(unchanged(x, kept), "model-changed-inputs")
            ctx.check(state_kept(before, state(m)), "rendering-changed-the-model")
            if not completed:
                if how == "alloc" and w.kind != "idr" and d.chance(1, 2):
                    m = copy.deepcopy(m)
                    ctx.count("copies_after_failure")
                t = w.twin(m)
                p = call(m, x, seed)
            else:
                t = w.build(m.chunk_size_grid)
                t.load_state_dict(before)
                t.train(m.training)
            q = call(t, cloned(x), seed)
            a, b = flat(p), flat(q)
            ctx.check(equal(a, b), "differs-from-a-fresh-model", w.kind, mode.value, which(a, b))
            ctx.check({k: v for k, v in state(m).items() if isinstance(v, dict)} == {k: v for k, v in state(t).items() if isinstance(v, dict)}, "codes-of-sequences")
            # the objective
            want = [float(v) * float(p[k]) for k, v in w.args.loss_weights.items() if k in p and v != 0]
            ctx.check(("objective" in p) == bool(want), "objective-present", sorted(p))
            if want:
                ctx.check(abs(float(p["objective"]) - sum(want)) <= 1e-3 * max(1, sum(abs(y) for y in want)) or math.isnan(sum(want)), "objective", float(p["objective"]), want)
            if w.encoder == 1:
                codes = [v for k, v in state(m).items() if k.endswith("_autodecoder_codes.weight")]
                ctx.check(len(codes) == 1 and abs(float(p["loss_autodecoder_norm"]) - float((codes[0] ** 2).mean())) < 1e-4, "autodecoder-norm")
            targets = 1 if mode == EVAL and w.cls is GenericModel else len(x["sequence_name"])
            if mode == TRAIN and w.cls is GenericModel and w.views > 0:
                targets = min(w.views, targets)
            full = mode == EVAL or w.args.sampling_mode_training == "full_grid"
            ctx.check(("images_render" in p) == full, "images-rendered")
            if full:
                ctx.check(tuple(p["images_render"].shape) == (targets, 3, w.H, w.W), "shape-of-images", p["images_render"].shape)
                ctx.check(all(tuple(p[k].shape) == (targets, 1, w.H, w.W) for k in ("depths_render", "masks_render")), "shape-of-images")
                I = images(p)
                if w.kind != "idr" or mode == EVAL:
                    judge_preds(ctx, w, kept, p, I, targets)
                det = mode == EVAL or not (w.strat or w.noise)
                lstm_noise = w.kind in ("srn", "srn_hyper") and w.noise
                if det and not lstm_noise:
                    relate(d, ctx, rs, w, m, x, seed, mode, targets, I, near, images)
            elif "loss_rgb_mse" in p and torch.is_tensor(p["loss_rgb_mse"]):
                ctx.check(torch.isfinite(p["loss_rgb_mse"]).all(), "loss-not-finite")
            if op == 1 and "objective" in p and p["objective"].requires_grad and bool(torch.isfinite(p["objective"])):
                m.zero_grad()
                t.zero_grad()
                p["objective"].backward()
                q["objective"].backward()
                pm, pt = dict(m.named_parameters()), dict(t.named_parameters())
                ctx.check(set(pm) == set(pt), "parameters")
                for k in pm:
                    g, h = pm[k].grad, pt[k].grad
                    ctx.check((g is None) == (h is None) and (g is None or torch.equal(torch.nan_to_num(g), torch.nan_to_num(h))), "gradient-differs-from-a-fresh-model", k)
                with torch.no_grad():
                    for v in m.parameters():
                        if v.grad is not None:
                            v -= 0.05 * torch.nan_to_num(v.grad).clamp(-1, 1)
                ctx.count("training_steps")
        elif op == 3:  # save, and go on with another
            t = w.build(w.chunk(d))
            if d.chance(1, 3):
                y = w.draw(d, rs, EVAL)
                call(t, y, 1)
            b = io.BytesIO()
            torch.save(m.state_dict(), b)
            b.seek(0)
            t.load_state_dict(torch.load(b, weights_only=False))
            t.train(m.training)
            ctx.check(state_kept(state(m), state(t)) and state_kept(state(t), state(m)), "reloaded-state-differs")
            t.chunk_size_grid = m.chunk_size_grid
            y = w.draw(d, rs, EVAL)
            a, c = flat(call(m, y, seed)), flat(call(t, y, seed))
            ctx.check(equal(a, c), "differs-from-a-reloaded-model", w.kind, which(a, c))
            saved.append((copy.deepcopy(m.state_dict()), y, seed, m.chunk_size_grid, m.training))
            # what was saved does not include the sequences of this call
            call(m, y, seed)
            saved[-1] = (copy.deepcopy(m.state_dict()),) + saved[-1][1:] + (flat(call(m, y, seed)),)
            m = t if d.chance(1, 2) else m
            ctx.count("reloads")
        elif op == 4 and saved:  # back to what was saved
            sd, y, s, ch, tr, want = d.pick(saved)
            m.load_state_dict(copy.deepcopy(sd))
            old = m.chunk_size_grid
            m.chunk_size_grid = ch
            m.train(tr)
            got = flat(call(m, y, s))
            m.chunk_size_grid = old
            ctx.check(equal(got, want), "rolled-back-model-differs", w.kind, which(got, want))
            ctx.count("rollbacks")
        elif op == 5 and w.kind != "idr":  # a copy which learns
            y = w.draw(d, rs, EVAL)
            a = flat(call(m, y, seed))
            c = copy.deepcopy(m)
            ctx.check(equal(flat(call(c, y, seed)), a), "copy-differs", w.kind)
            with torch.no_grad():
                for v in c.parameters():
                    v += 0.1
            z = w.draw(d, rs, EVAL)
            call(c, z, 2)
            ctx.check(equal(flat(call(m, y, seed)), a), "copy-is-shared", w.kind)
            ctx.count("copies")
        ctx.state(w.kind, w.encoder, w.passes, w.pool, w.packed, op, mode.value)


def judge_preds(ctx, w, x, p, I, targets):
    """the metrics, from the images which were returned"""
    fg = None if x["fg_probability"] is None else npd(x["fg_probability"])[:targets]
    if fg is not None:
        fg = (fg >= 0.5).astype(float)
    col = None if x["image_rgb"] is None else npd(x["image_rgb"])[:targets]
    dep = None if x["depth_map"] is None else npd(x["depth_map"])[:targets]
    crop = None if x["mask_crop"] is None else npd(x["mask_crop"])[:targets]
    if w.args.mask_images and fg is not None and col is not None:
        col = col * fg + (1 - fg) * np.array(list(w.args.bg_color)).reshape(1, 3, 1, 1)
    if w.args.mask_depths and fg is not None and dep is not None:
        dep = dep * fg

    def rays(v):
        if v is None:
            return None
        r = v.reshape(v.shape[0], v.shape[1], -1).transpose(0, 2, 1)
        return r if v.shape[1] == 3 else r[..., 0]

    P = dict(color=rays(I["images_render"]), mask=rays(I["masks_render"]), depth=rays(I["depths_render"]))
    T = dict(color=rays(col), mask=rays(fg), depth=rays(dep), crop=rays(crop))
    judge_metrics(ctx, p, view_metrics(P, T), "loss_", w.kind)


def relate(d, ctx, rs, w, m, x, seed, mode, targets, I, near, images):
    """other ways to ask for the same images"""
    n = len(x["sequence_name"])
    what = d.choice(4)
    if w.kind == "idr":  # points of rays without a surface are drawn for each chunk
        what = 2
    if what == 0:  # any size of chunks
        old = m.chunk_size_grid
        m.chunk_size_grid = w.chunk(d)
        torch.manual_seed(seed)
        J = images(m(**x))
        m.chunk_size_grid = old
        near(I, J, "depends-on-the-size-of-chunks")
    elif what == 1 and (w.sampler == "NearFarRaySampler" or targets == 1):  # one target at a time
        k = d.choice(targets)
        order = [k] + [i for i in range(n) if i != k and (w.pool or d.chance(1, 2))]
        y = views(x, order)
        y["evaluation_mode"] = EVAL
        was = m.training
        torch.manual_seed(seed)
        J = {q: v[:1] for q, v in images(m(**y)).items()}
        m.train(was)
        near({q: v[k : k + 1] for q, v in I.items()}, J, "depends-on-the-other-views", w.kind)
    elif what == 2 and mode == EVAL and w.cls is GenericModel:  # what is known of the target is not used
        y = cloned(x)
        for q in ("image_rgb", "depth_map"):
            if y[q] is not None and not (w.pool and q == "image_rgb"):
                y[q][0] = torch.rand_like(y[q][0])
        if w.pool:  # nor are views of other sequences
            for i in range(n):
                if y["sequence_name"][i] != y["sequence_name"][0]:
                    y["image_rgb"][i] = torch.rand_like(y["image_rgb"][i])
        torch.manual_seed(seed)
        near(I, images(m(**y)), "depends-on-the-target", w.kind)
    elif what == 3 and w.pool and mode == EVAL and n > 2:  # the order of the sources
        perm = [0] + [1 + int(i) for i in rs.permutation(n - 1)]
        torch.manual_seed(seed)
        near(I, images(m(**views(x, perm))), "depends-on-the-order-of-sources", w.kind)


META = {
    "rule": "a run is one seed: a small model (GenericModel as NeRF, NeRFormer, SRN, SRN with hypernet or IDR, or OverfitModel; encoders, view pooling, passes, samplers, weights of losses at random) and "
    "2-5 operations on it: renderings in both modes, training steps, saving and loading into a fresh or used model, rolling back, copies; failing allocations and interruptions in any call; or a batch "
    "of metrics, of marched rays, of rays traced to a surface, or a sequence of evaluated frames; nontrivial = all",
    "state_measure": "distinct (kind of model, mode, operation, relation), (metrics computed), (ray marcher and its settings), (kinds of surfaces hit) and (frames evaluated)",
    "real": "pytorch3d.implicitron: GenericModel, OverfitModel, all renderers and ray marchers, samplers, implicit functions, global encoders, view pooler, metrics, evaluation; the configuration system; torch.save",
    "stub": "image features are one random convolution; lpips is absent; operators that fail on request; the references (numpy, double precision)",
    "assumptions": [
        "CPU; images of at most 3x3 to 9x9 pixels, networks of a few units",
        "bit-for-bit against a model freshly built and loaded; images of other chunk sizes, orders and batches to 2e-3 (2e-2 at 80% of the pixels for two passes)",
        "IDR draws points for rays without a surface anew for each chunk: its images are only compared for equal chunks",
        "IDR trains on rays sampled from masks and, with a global code, on one target; two-pass models have at least three points per ray",
    ],
    "level": "exploration",
}
SCENARIOS = [
    Scenario("models", models, 800, 60000),
    Scenario("metrics", metrics, 500, 40000),
    Scenario("marching", marching, 500, 40000),
    Scenario("surface", surface, 300, 20000),
    Scenario("evaluate", evaluate, 500, 30000),
]
