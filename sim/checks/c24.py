"""C24: rasterization, compositing, blending, texture lookup and marching give each image
what its own elements define, with the right gradients."""

import os
import types

import numpy as np
import torch

from .. import instr
from .. import threads as th
from ..core import Scenario
from . import c23
from .c23 import Op, f32

th.install()

from pytorch3d.renderer import (  # noqa: E402
    AbsorptionOnlyRaymarcher,
    EmissionAbsorptionRaymarcher,
    TexturesAtlas,
    TexturesUV,
    TexturesVertex,
    rasterize_meshes,
    rasterize_points,
)
from pytorch3d.renderer import compositing as C  # noqa: E402
from pytorch3d.renderer.blending import BlendParams, hard_rgb_blend, sigmoid_alpha_blend, softmax_rgb_blend  # noqa: E402
from pytorch3d.structures import Meshes, Pointclouds  # noqa: E402

PROPERTY = "C24"
FILES = [os.path.join(th.REPO, "pytorch3d", "renderer") + os.sep]


def prepare(tier):
    try:
        instr.plain(instr.RENDER)
    except RuntimeError as e:
        raise SystemExit(f"cannot build the C++ code: {e}")


def grid(h, w):
    """centres of the pixels: x to the left, y up, the shorter side from -1 to 1"""
    m = min(h, w)
    x = (w - (2 * np.arange(w) + 1)) / m
    y = (h - (2 * np.arange(h) + 1)) / m
    return np.broadcast_to(x[None], (h, w)), np.broadcast_to(y[:, None], (h, w))


def nearest(hit, z, K, margin):
    """-> index of the K nearest of those hit (or -1), (h, w, K); None where it is not clear which"""
    F = hit.shape[0]
    big = np.where(hit, z, np.inf)
    order = np.argsort(big, axis=0, kind="stable")
    zs = np.take_along_axis(big, order, 0)
    if F > 1:
        with np.errstate(invalid="ignore"):
            gap = np.diff(zs, axis=0)
        if np.nanmin(np.where(np.isfinite(zs[1:]), gap, np.inf)) < margin:
            return None
    idx = np.where(np.isfinite(zs), order, -1)[:K]
    if idx.shape[0] < K:
        idx = np.concatenate([idx, np.full((K - idx.shape[0], *idx.shape[1:]), -1)])
    return np.moveaxis(idx, 0, -1)


def take(x, idx):
    """values (F, h, w, ...) at the faces of each pixel, -1 where none is"""
    if x.shape[0] == 0:
        return np.full((*idx.shape, *x.shape[3:]), -1.0)
    h, w, K = idx.shape
    r, c, _ = np.meshgrid(np.arange(h), np.arange(w), np.arange(K), indexing="ij")
    v = x[np.maximum(idx, 0), r, c]
    m = idx >= 0
    return np.where(m.reshape(m.shape + (1,) * (v.ndim - 3)), v, -1.0)


def segment(px, py, a, b):
    d = b - a
    t = np.clip(((px - a[0]) * d[0] + (py - a[1]) * d[1]) / max(d @ d, 1e-30), 0, 1)
    return (px - a[0] - t * d[0]) ** 2 + (py - a[1] - t * d[1]) ** 2


class RastMeshes(Op):
    tol = 2e-4

    def params(self, d, g):
        return dict(h=d.integer(1, 7), w=d.integer(1, 7), K=d.integer(1, 4), blur=d.pick([0.0, 0.0, 0.02, 0.2]), persp=d.chance(1, 2), clip=d.chance(1, 2), cull=d.chance(1, 3),
                    zclip=d.pick([None, None, None, 0.8]), frustum=d.chance(1, 5), behind=d.chance(1, 4))

    def draw(self, d, g, p):
        v, f = c23.mesh(g)
        z = g.uniform(0.6, 3, len(v))
        if p["behind"]:
            z = np.where(g.randint(0, 4, len(v)) == 0, -z, z)
        v = np.concatenate([v[:, :2] * 1.6, z[:, None]], 1)
        if d.chance(1, 8):
            f = f[:0]
        return dict(verts=f32(v), faces=f)

    def run(self, ctx, p, es, pad):
        h, w, K = p["h"], p["w"], p["K"]
        if not any(len(e["faces"]) for e in es):
            return [[torch.full((h, w, K), -1), torch.full((h, w, K), -1.0), torch.full((h, w, K, 3), -1.0), torch.full((h, w, K), -1.0)] for _ in es]
        r = rasterize_meshes(c23.meshes_of(es), (h, w) if h != w or pad.g.randint(2) else h, p["blur"], K, None if pad.g.randint(2) else 0, None, p["persp"], p["clip"], p["cull"], p["zclip"], p["frustum"])
        out, first = [], 0
        for i, e in enumerate(es):
            n = len(e["faces"])
            q = r[0][i]
            ctx.check(bool(((q == -1) | ((q >= first) & (q < first + n))).all()), "face-of-another-mesh", i)
            out.append([torch.where(q >= 0, q - first, q), r[1][i], r[2][i], r[3][i]])
            first += n
        return out

    def ref(self, p, e):
        if (p["zclip"] is not None or p["frustum"]) and p["blur"]:
            return None
        h, w = p["h"], p["w"]
        x, y = grid(h, w)
        v = e["verts"].astype(float)
        F = len(e["faces"])
        hit, zz, bb, dd = np.zeros((F, h, w), bool), np.zeros((F, h, w)), np.zeros((F, h, w, 3)), np.zeros((F, h, w))
        for k, t in enumerate(e["faces"]):
            a, b, c = v[t]
            cut = None if p["zclip"] is None else v[t, 2] < p["zclip"]
            if (v[t, 2] < 0).any() if cut is None else cut.all():
                # not drawn unless it is clipped
                continue

            def edge(px, py, u, q):
                return (px - u[0]) * (q[1] - u[1]) - (py - u[1]) * (q[0] - u[0])

            area = edge(c[0], c[1], a, b)
            if abs(area) < 1e-3:
                return None
            W = np.stack([edge(x, y, b, c), edge(x, y, c, a), edge(x, y, a, b)], -1) / area
            if np.abs(W).min() < 1e-4:
                return None
            flat = (W > 0).all(-1)
            if p["persp"]:
                W = W * np.array([b[2] * c[2], a[2] * c[2], a[2] * b[2]])
                s = W.sum(-1, keepdims=True)
                if cut is not None and cut.any():
                    if (np.abs(s) < 1e-2).any():
                        return None
                    flat = (W / s > 0).all(-1)
                elif (np.abs(s) < 1e-2).any() or (s < 0).any():
                    # a pixel beyond the horizon
                    if p["blur"]:
                        return None
                W = W / s
            inside = (W > 0).all(-1)
            if (inside != flat).any():
                return None
            if p["clip"]:
                W = np.maximum(W, 0)
                W = W / np.maximum(W.sum(-1, keepdims=True), 1e-5)
            z = W @ v[t, 2]
            dist = np.minimum(np.minimum(segment(x, y, a[:2], b[:2]), segment(x, y, b[:2], c[:2])), segment(x, y, c[:2], a[:2]))
            if (np.abs(dist - p["blur"]) < 1e-4).any() and p["blur"]:
                return None
            h0 = inside | (dist < p["blur"])
            if cut is not None and cut.any():
                if (np.abs(z - p["zclip"])[inside] < 1e-2).any():
                    return None
                h0 = inside & (z >= p["zclip"])
                dist = self.clipped(p, v[t], cut, x, y, h0)
                if dist is None:
                    return None
            if (np.abs(z[h0]) < 1e-3).any():
                return None
            hit[k] = h0 & (z >= 0) & (not (p["cull"] and edge(a[0], a[1], b, c) * (np.sign(a[2] * b[2] * c[2]) if p["persp"] else 1) < 0))
            zz[k], bb[k], dd[k] = z, W, np.where(inside, -dist, dist)
        idx = nearest(hit, zz, p["K"], 1e-3 if p["zclip"] else 1e-4) if F else np.full((h, w, p["K"]), -1)
        if idx is None:
            return None
        return [idx, take(zz, idx), take(bb, idx), take(dd, idx)]


    def clipped(self, p, t, cut, x, y, hit):
        """squared distances to the edges of the part of a face beyond the clipping plane, or of the half of it in which
        the pixel is; None where that is not clear"""
        odd = int(np.flatnonzero(cut if cut.sum() == 1 else ~cut)[0])
        p1, p2, p3 = (t[(odd + i) % 3] for i in range(3))

        def meet(u, q):
            k = (u[2] - p["zclip"]) / (u[2] - q[2])
            if not p["persp"]:
                return u * (1 - k) + q * k
            xy = (u[:2] * u[2] * (1 - k) + q[:2] * q[2] * k) / p["zclip"]
            return np.array([*xy, p["zclip"]])

        p4, p5 = meet(p1, p2), meet(p1, p3)
        parts = [(p4, p5, p1)] if cut.sum() == 2 else [(p4, p2, p5), (p5, p2, p3)]
        out, done = np.zeros_like(x), np.zeros(x.shape, bool)
        for a, b, c in parts:
            area = (c[0] - a[0]) * (b[1] - a[1]) - (c[1] - a[1]) * (b[0] - a[0])
            if abs(area) < 1e-2:
                return None
            e = [((x - u[0]) * (q[1] - u[1]) - (y - u[1]) * (q[0] - u[0])) / area for u, q in ((b, c), (c, a), (a, b))]
            if (np.abs(e) < 1e-3).any():
                return None
            inside = (np.array(e) > 0).all(0)
            d = np.minimum(np.minimum(segment(x, y, a[:2], b[:2]), segment(x, y, b[:2], c[:2])), segment(x, y, c[:2], a[:2]))
            out, done = np.where(inside, d, out), done | inside
        return out if (done == hit).all() else None


class RastPoints(Op):
    def params(self, d, g):
        return dict(h=d.integer(1, 7), w=d.integer(1, 7), K=d.integer(1, 4), radius=d.pick([0.0, 0.3, 0.7]), how=d.choice(2))

    def draw(self, d, g, p):
        n = d.pick([0, 1, 3, 6, 9])
        return dict(x=f32(np.concatenate([g.uniform(-1.3, 1.3, (n, 2)), np.where(g.randint(0, 6, (n, 1)) == 0, -1, 1) * g.uniform(0.5, 3, (n, 1))], 1)), r=g.uniform(0.2, 0.9, n).astype(f32).tolist())

    def run(self, ctx, p, es, pad):
        h, w, K = p["h"], p["w"], p["K"]
        if not any(len(e["x"]) for e in es):
            return [[torch.full((h, w, K), -1), torch.full((h, w, K), -1.0), torch.full((h, w, K), -1.0)] for _ in es]
        radius = p["radius"]
        if not radius:
            # a row for each cloud, of the length of the longest
            radius, _ = c23.Pad(pad.g.randint(1000), True)([torch.tensor(e["r"]).reshape(-1, 1) for e in es])
            radius = radius[..., 0]
            for i, e in enumerate(es):
                radius[i, len(e["r"]):] = 3.0
            if p["how"]:
                radius = radius.tolist()
        r = rasterize_points(Pointclouds([e["x"] for e in es]), (h, w) if h != w or pad.g.randint(2) else h, radius, K, None if pad.g.randint(2) else 0)
        out, first = [], 0
        for i, e in enumerate(es):
            n = len(e["x"])
            q = r[0][i]
            ctx.check(bool(((q == -1) | ((q >= first) & (q < first + n))).all()), "point-of-another-cloud", i)
            out.append([torch.where(q >= 0, q - first, q), r[1][i], r[2][i]])
            first += n
        return out

    def ref(self, p, e):
        h, w = p["h"], p["w"]
        x, y = grid(h, w)
        P = e["x"].astype(float)
        if not len(P):
            return [np.full((h, w, p["K"]), -1)] + [np.full((h, w, p["K"]), -1.0)] * 2
        d2 = (P[:, 0, None, None] - x) ** 2 + (P[:, 1, None, None] - y) ** 2
        r2 = (np.array(e["r"])[:, None, None] if not p["radius"] else p["radius"]) ** 2
        if (np.abs(d2 - r2) < 1e-4).any():
            return None
        z = np.broadcast_to(P[:, 2, None, None], d2.shape)
        idx = nearest((d2 < r2) & (z >= 0), z, p["K"], 1e-5)
        return None if idx is None else [idx, take(z, idx), take(d2, idx)]


class Composite(Op):
    def params(self, d, g):
        return dict(kind=d.choice(3), h=d.integer(1, 4), w=d.integer(1, 4), K=d.integer(1, 4), C=d.integer(1, 4), holes=d.choice(3))

    def draw(self, d, g, p):
        n = d.integer(1, 6)
        idx = g.randint(0, n, (p["K"], p["h"], p["w"])).astype(np.int64)
        if p["holes"]:
            idx[g.rand(*idx.shape) < 0.4] = -1
        if p["holes"] == 1:
            # as rasterization leaves them: at the end
            for q in idx.reshape(p["K"], -1).T:
                q[:] = sorted(q, key=lambda x: x < 0)
        return dict(idx=idx, alpha=f32(g.uniform(0.05, 0.95, idx.shape)), feat=f32(g.randn(p["C"], n)))

    def run(self, ctx, p, es, pad):
        n = [e["feat"].shape[1] for e in es]
        off = np.cumsum([0] + n)
        idx = torch.stack([torch.where(e["idx"] < 0, e["idx"], e["idx"] + int(o)) for e, o in zip(es, off)])
        # the values at holes are of no account
        hole = pad.fill(tuple(idx.shape))
        alpha = torch.stack([e["alpha"] for e in es])
        alpha = torch.where(idx < 0, hole.clamp(-1, 1), alpha)
        f = torch.cat([e["feat"] for e in es], 1)
        if pad.g.randint(2):
            f = f.t().contiguous().t()
        r = (C.alpha_composite, C.norm_weighted_sum, C.weighted_sum)[p["kind"]](idx, alpha, f)
        return [[x] for x in r]

    def ref(self, p, e):
        m = e["idx"] >= 0
        a = e["alpha"].astype(float) * m
        f = e["feat"].astype(float)[:, np.maximum(e["idx"], 0)]
        if p["kind"] == 0:
            w = a * np.concatenate([np.ones_like(a[:1]), np.cumprod(1 - a, 0)[:-1]])
        elif p["kind"] == 1:
            w = a / np.maximum(a.sum(0), 1e-4)
        else:
            w = a
        return [(w * f).sum(1)]


def fragments(d, g, p):
    """as rasterization may give them"""
    pix = g.randint(0, 7, (p["h"], p["w"], p["K"])).astype(np.int64)
    n = g.randint(0, p["K"] + 1, pix.shape[:2])
    pix[np.arange(p["K"]) >= n[..., None]] = -1
    return dict(pix=pix, dist=f32(np.where(pix < 0, -1, g.uniform(-1, 1, pix.shape) * 0.02)), z=f32(np.where(pix < 0, -1, np.sort(g.uniform(1.2, 8, pix.shape), -1))))


class Blend(Op):
    tol = 5e-4

    def params(self, d, g):
        return dict(kind=d.choice(3), h=d.integer(1, 4), w=d.integer(1, 4), K=d.integer(1, 4), sigma=d.pick([0.01, 0.03]), gamma=d.pick([0.003, 0.05, 0.3]), bg=d.choice(3), near=d.choice(2))

    def draw(self, d, g, p):
        return dict(**fragments(d, g, p), colors=f32(g.uniform(0, 1, (p["h"], p["w"], p["K"], 3))), near=float(g.uniform(0.5, 1)) if p["near"] else 1.0, far=float(g.uniform(9, 12)) if p["near"] else 10.0)

    BG = (1.0, 1.0, 1.0), (0.1, 0.5, 0.9), (0.3, 0.0, 0.6)

    def run(self, ctx, p, es, pad):
        st = {k: torch.stack([e[k] for e in es]) for k in ("pix", "dist", "z", "colors")}
        fr = types.SimpleNamespace(pix_to_face=st["pix"], dists=st["dist"], zbuf=st["z"], bary_coords=None)
        bg = self.BG[p["bg"]]
        b = BlendParams(p["sigma"], p["gamma"], torch.tensor(bg) if p["bg"] == 2 else bg)
        if p["kind"] == 0:
            r = hard_rgb_blend(st["colors"], fr, b)
        elif p["kind"] == 1:
            r = sigmoid_alpha_blend(st["colors"], fr, b)
        else:
            near, far = (torch.tensor([e[k] for e in es]) for k in ("near", "far"))
            r = softmax_rgb_blend(st["colors"], fr, b, *((near, far) if p["near"] else (1.0, 10.0)))
        return [[x] for x in r]

    def ref(self, p, e):
        c, m, bg = e["colors"].astype(float), e["pix"] >= 0, np.array(self.BG[p["bg"]])
        if p["kind"] == 0:
            return [np.concatenate([np.where(m[..., :1], c[..., 0, :], bg), m[..., :1]], -1)]
        prob = m / (1 + np.exp(e["dist"].astype(float) / p["sigma"]))
        alpha = 1 - np.prod(1 - prob, -1)
        if p["kind"] == 1:
            return [np.concatenate([c[..., 0, :], alpha[..., None]], -1)]
        zi = (e["far"] - e["z"].astype(float)) / (e["far"] - e["near"]) * m
        top = np.maximum(zi.max(-1, keepdims=True), 1e-10)
        w = prob * np.exp((zi - top) / p["gamma"])
        delta = np.maximum(np.exp((1e-10 - top) / p["gamma"]), 1e-10)
        rgb = ((w[..., None] * c).sum(-2) + delta * bg) / (w.sum(-1, keepdims=True) + delta)
        return [np.concatenate([rgb, alpha[..., None]], -1)]


def bary_of(g, shape):
    b = g.uniform(0.05, 1, (*shape, 3))
    return b / b.sum(-1, keepdims=True)


class Texels(Op):
    """colors of fragments, by each kind of texture"""

    tol = 2e-4

    def params(self, d, g):
        return dict(kind=d.choice(4), M=d.integer(1, 4), h=d.integer(1, 4), w=d.integer(1, 4), K=d.integer(1, 3), C=d.pick([1, 3, 3, 5]), th=d.integer(2, 5), tw=d.integer(2, 5), align=d.chance(1, 2), pad=d.pick(["zeros", "border", "reflection"]),
                    mode=d.pick(["bilinear", "bilinear", "nearest"]), R=d.integer(1, 4))

    def draw(self, d, g, p):
        v, f = c23.mesh(g)
        pix = g.randint(0, len(f), (p["h"], p["w"], p["K"])).astype(np.int64)
        pix[g.rand(*pix.shape) < 0.3] = -1
        e = dict(verts=v, faces=f, pix=pix, bary=f32(np.where(pix[..., None] < 0, -1, bary_of(g, pix.shape))))
        if p["kind"] == 0:
            e["tex"] = f32(g.rand(len(v), p["C"]))
        elif p["kind"] in (1, 3):
            n = g.randint(3, 8)
            e["uv"] = f32(g.uniform(-0.15, 1.15, (n, 2)))
            e["fuv"] = g.randint(0, n, f.shape).astype(np.int64)
            e["tex"] = f32(g.rand(p["M"], p["th"], p["tw"], p["C"]))
            e["map"] = g.randint(0, p["M"], len(f)).astype(np.int64)
            if p["kind"] == 1:
                e["tex"] = e["tex"][0]
        else:
            e["tex"] = f32(g.rand(len(f), p["R"], p["R"], p["C"]))
        return e

    def run(self, ctx, p, es, pad):
        if p["kind"] == 0:
            t = TexturesVertex([e["tex"] for e in es])
        elif p["kind"] in (1, 3):
            maps = torch.stack([e["tex"] for e in es]) if pad.g.randint(2) else [e["tex"] for e in es]
            t = TexturesUV(maps, [e["fuv"] for e in es], [e["uv"] for e in es], padding_mode=p["pad"], align_corners=p["align"], sampling_mode=p["mode"], **({} if p["kind"] == 1 else dict(maps_ids=[e["map"] for e in es])))
        else:
            t = TexturesAtlas([e["tex"] for e in es])
        m = Meshes([e["verts"].detach() for e in es], [e["faces"] for e in es], t)
        off = np.cumsum([0] + [len(e["faces"]) for e in es])
        pix = torch.stack([torch.where(e["pix"] < 0, e["pix"], e["pix"] + int(o)) for e, o in zip(es, off)])
        fr = types.SimpleNamespace(pix_to_face=pix, bary_coords=torch.stack([e["bary"] for e in es]), zbuf=None, dists=None)
        # where no face is, a map gives any color
        x = [x if p["kind"] % 2 == 0 else torch.where(e["pix"][..., None] < 0, torch.zeros(()), x) for x, e in zip(m.sample_textures(fr), es)]
        if p["kind"] == 2:
            return [[y] for y in x]
        return [[y, z] for y, z in zip(x, m.textures.faces_verts_textures_packed(*([m.faces_packed()] if p["kind"] == 0 else [])).split([len(e["faces"]) for e in es]))]

    def ref(self, p, e):
        m = e["pix"] >= 0
        q = np.maximum(e["pix"], 0)
        b, tex = e["bary"].astype(float), e["tex"].astype(float)
        if p["kind"] == 0:
            return [np.where(m[..., None], np.einsum("hwkc,hwkcd->hwkd", b, tex[e["faces"][q]]), 0), tex[e["faces"]]]
        if p["kind"] == 2:
            R = p["R"]
            xy = (b[..., :2] * R).astype(np.int64)
            frac = (b[..., :2] * R) % 1
            if (np.abs(b[..., :2] * R - np.round(b[..., :2] * R)) < 1e-4)[m].any() or (np.abs(frac.sum(-1) - 1) < 1e-4)[m].any():
                return None
            up = frac.sum(-1) > 1
            xy = np.where(up[..., None], R - 1 - xy, xy)
            c = tex[q, np.clip(xy[..., 1], 0, R - 1), np.clip(xy[..., 0], 0, R - 1)]
            return [np.where(m[..., None], c, 0)]
        if p["kind"] == 1:
            tex = tex[None]
        of = e["uv"].astype(float)[e["fuv"]]
        which = e["map"] if p["kind"] == 3 else np.zeros(len(of), np.int64)
        at = self.lookup(p, tex, np.einsum("hwkc,hwkcd->hwkd", b, of[q]), which[q], m)
        corner = self.lookup(p, tex, of, np.repeat(which[:, None], 3, 1), np.ones(of.shape[:-1], bool))
        # where no face is, the color is not defined
        return None if at is None or corner is None else [np.where(m[..., None], at, 0), corner]

    def lookup(self, p, tex, uv, which, m):
        """(M, h, w, C) maps at coordinates; None where that is not clear"""
        th_, tw = p["th"], p["tw"]
        H = np.array([tw, th_])
        g = np.stack([uv[..., 0] * 2 - 1, (1 - uv[..., 1]) * 2 - 1], -1)
        pos = (g + 1) / 2 * (H - 1) if p["align"] else ((g + 1) * H - 1) / 2
        if p["pad"] == "border":
            pos = np.clip(pos, 0, H - 1)
        elif p["pad"] == "reflection":
            lo, span = (0.0, H - 1.0) if p["align"] else (-0.5, H * 1.0)
            t = np.abs(pos - lo) % (2 * span)
            pos = np.clip(np.where(t > span, 2 * span - t, t) + lo, 0, H - 1)
        if p["mode"] == "nearest":
            if (np.abs(pos - np.floor(pos) - 0.5) < 1e-3)[m].any():
                return None
            corners = [(np.round(pos), np.ones(pos.shape[:-1]))]
        else:
            f = np.floor(pos)
            r = pos - f
            corners = [(f + np.array([i, j]), (r[..., 0] if i else 1 - r[..., 0]) * (r[..., 1] if j else 1 - r[..., 1])) for i in (0, 1) for j in (0, 1)]
        out = 0
        for c, w in corners:
            ok = ((c >= 0) & (c < H)).all(-1)
            c = np.clip(c, 0, H - 1).astype(int)
            out = out + np.where(ok, w, 0)[..., None] * tex[which, c[..., 1], c[..., 0]]
        return out


class March(Op):
    def params(self, d, g):
        return dict(kind=d.choice(2), h=d.integer(1, 5), P=d.integer(2, 6), C=d.integer(1, 4), thick=d.integer(1, 3))

    def draw(self, d, g, p):
        return dict(rho=f32(g.uniform(0.02, 0.95, (p["h"], p["P"], 1))), feat=f32(g.randn(p["h"], p["P"], p["C"])))

    def run(self, ctx, p, es, pad):
        rho, feat = (torch.stack([e[k] for e in es]) for k in ("rho", "feat"))
        if p["kind"] == 0:
            return [[x] for x in EmissionAbsorptionRaymarcher(p["thick"])(rho, feat)]
        return [[x] for x in AbsorptionOnlyRaymarcher()(rho)]

    def ref(self, p, e):
        a = e["rho"].astype(float)[..., 0]
        if p["kind"] == 1:
            return [1 - np.prod(1 - a, -1, keepdims=True)]
        k, P = p["thick"], p["P"]
        # what is left before each point of the ray, a surface being some points thick
        left = np.concatenate([np.ones((len(a), 1)), np.cumprod(1 + 1e-10 - a, -1)], 1)
        T = np.ones_like(a)
        T[:, k:] = left[:, 1 : P - k + 1] if P > k else T[:, k:]
        w = a * T
        return [np.concatenate([(w[..., None] * e["feat"].astype(float)).sum(1), 1 - np.prod(1 - a, -1, keepdims=True)], -1)]


OPS = [RastMeshes(), RastMeshes(), RastPoints(), Composite(), Blend(), Texels(), March()]


def run(d, ctx):
    c23.run(d, ctx, OPS, FILES)


META = {
    "rule": "a run is one seed: mesh or point rasterization, alpha, weighted or normalised compositing, hard, sigmoid or softmax blending, vertex, UV or atlas textures, emission-absorption or absorption-only "
    "marching, with its settings, 1-4 images with elements of their own (none in some), in a batch (permuted, repeated, other values in the padding); failing allocations, interruptions or a second thread, "
    "after or under which the batch is computed; nontrivial = at least two images in the batch",
    "state_measure": "distinct (operation, settings) and distinct thread schedules",
    "real": "pytorch3d.renderer's rasterize_meshes, rasterize_points, clip, compositing, blending, textures, raymarchers and their C++ (CPU), compiled from the working tree",
    "stub": "scheduler for threads; allocator failures are injected into torch operations",
    "assumptions": [
        "pixels on an edge, at the border of the blur, of two faces at one depth or beyond the horizon of a face are not judged by the reference (only batch against alone)",
        "clipping (z_clip_value, cull_to_frustum) together with blur is judged batch against alone only",
        "gradients are compared with differences of the reference where those agree for two step sizes",
    ],
    "level": "exploration",
}
SCENARIOS = [Scenario("images", run, 12000, 500000)]
