"""C23: operators and losses treat each element of a batch as if it were alone, whatever
pads it, whatever stands next to it and whatever failed before."""

import os
import warnings

import numpy as np
import torch

from .. import instr
from .. import threads as th
from ..core import Scenario, Violation

th.install()

from pytorch3d import loss as L  # noqa: E402
from pytorch3d import ops as O  # noqa: E402
from pytorch3d.ops.marching_cubes import marching_cubes  # noqa: E402
from pytorch3d.ops.points_to_volumes import add_points_features_to_volume_densities_features  # noqa: E402
from pytorch3d.structures import Meshes, Pointclouds  # noqa: E402

PROPERTY = "C23"
FILES = [os.path.join(th.REPO, "pytorch3d", "ops") + os.sep, os.path.join(th.REPO, "pytorch3d", "loss") + os.sep]
f32 = np.float32


def prepare(tier):
    try:
        instr.plain(instr.OPS)
    except RuntimeError as e:
        raise SystemExit(f"cannot build the C++ code: {e}")


# ---------------------------------------------------------------- batches
class Pad:
    """what stands where no element is"""

    def __init__(self, seed, clean=False):
        self.g = np.random.RandomState(seed)
        self.clean = clean
        self.extra = 0 if clean else int(self.g.choice([0, 0, 1, 3]))
        self.kind = self.g.randint(4)

    def fill(self, shape, near=None):
        if self.clean or self.kind == 0:
            return torch.zeros(shape)
        if self.kind == 1 and near is not None and near.shape[0]:
            # what could be taken for an element
            return near.detach()[torch.from_numpy(self.g.randint(0, near.shape[0], shape[0]))].reshape(shape) * 1.0001
        return torch.from_numpy(f32(self.g.randn(*shape) * (1.0 if self.kind == 2 else 1e3)))

    def __call__(self, xs):
        """-> padded (N, max, ...), lengths"""
        m = max(1, max(x.shape[0] for x in xs)) + self.extra
        out = torch.stack([torch.cat([x, self.fill((m - x.shape[0], *x.shape[1:]), x).to(x)]) for x in xs])
        if not self.clean and self.g.randint(3) == 0:
            out = out.transpose(0, 1).contiguous().transpose(0, 1)
        return out, torch.tensor([x.shape[0] for x in xs])


def zero(ctx, x, lens, what, value=0):
    for i, n in enumerate(lens.tolist()):
        ctx.check(bool((x[i, n:] == value).all()), "wrong-padding", what, x[i, n:])


def mesh(g, v=None, f=None):
    """a small mesh without thin faces"""
    v = v or g.randint(4, 9)
    verts = f32(g.uniform(-1, 1, (v, 3)))
    faces = []
    want = f or g.randint(1, 7)
    for _ in range(60):
        t = g.choice(v, 3, replace=False)
        a, b, c = verts[t].astype(float)
        area, longest = np.linalg.norm(np.cross(b - a, c - a)) / 2, max(np.sum(x * x) for x in (b - a, c - b, a - c))
        if area > max(0.05, 0.12 * longest) and sorted(t) not in [sorted(x) for x in faces]:
            faces.append(list(t))
        if len(faces) >= want:
            break
    if not faces:
        return mesh(g, v, f)
    return verts, np.array(faces, dtype=np.int64)


def edges_of(faces):
    e = np.concatenate([faces[:, [0, 1]], faces[:, [1, 2]], faces[:, [2, 0]]])
    return np.unique(np.sort(e, 1), axis=0)


def meshes_of(es):
    return Meshes(verts=[e["verts"] for e in es], faces=[e["faces"] for e in es])


# ---------------------------------------------------------------- the operators
class Op:
    tol = 1e-4
    diff = True
    mean = False  # returns one number, the mean over the batch

    def params(self, d, g):
        return {}


class Knn(Op):
    def params(self, d, g):
        return dict(D=d.pick([1, 2, 3, 3, 4, 9]), K=d.integer(1, 5), norm=1 + d.choice(2), sorted=not d.chance(1, 4), nn=d.chance(1, 2), low=d.pick([0, 1, 1]))

    def draw(self, d, g, p):
        return dict(x=f32(g.randn(d.integer(p["low"], 8), p["D"])), y=f32(g.randn(d.integer(p["low"], 9), p["D"])))

    def run(self, ctx, p, es, pad):
        x, lx = pad([e["x"] for e in es])
        y, ly = pad([e["y"] for e in es])
        full = bool((lx == x.shape[1]).all() and (ly == y.shape[1]).all()) and pad.g.randint(2)
        r = O.knn_points(x, y, None if full else lx, None if full else ly, norm=p["norm"], K=p["K"], return_nn=p["nn"], return_sorted=p["sorted"])
        zero(ctx, r.dists, lx, "dists")
        zero(ctx, r.idx, lx, "idx")
        z = r.knn if p["nn"] else O.knn_gather(y, r.idx, ly)
        out = []
        for i, e in enumerate(es):
            n, k = e["x"].shape[0], min(p["K"], e["y"].shape[0])
            ctx.check(bool((r.dists[i, :, k:] == 0).all() and (r.idx[i, :, k:] == 0).all()), "wrong-padding", "beyond the neighbours")
            ctx.check(bool((z[i, :n, k:] == 0).all()), "wrong-padding", "gathered beyond the neighbours")
            ds, ix, ps = r.dists[i, :n, :k], r.idx[i, :n, :k], z[i, :n, :k]
            if not p["sorted"]:
                o = ds.detach().argsort(1)
                ds, ix, ps = ds.gather(1, o), ix.gather(1, o), ps.gather(1, o[..., None].expand(ps.shape))
            # with the rest of the row: nothing is there
            out.append([ds, ix, ps, r.dists[i].sum()])
        return out

    def ref(self, p, e):
        x, y = e["x"].astype(float), e["y"].astype(float)
        k = min(p["K"], len(y))
        dd = np.abs(x[:, None] - y[None])
        dd = dd.sum(2) if p["norm"] == 1 else (dd**2).sum(2)
        i = np.argsort(dd, 1, kind="stable")[:, :k]
        return [np.take_along_axis(dd, i, 1), i, y[i] if len(y) else np.zeros((len(x), 0, p["D"])), np.take_along_axis(dd, i, 1).sum()]


class Ball(Op):
    def params(self, d, g):
        return dict(D=d.pick([1, 2, 3, 3, 4]), K=d.integer(1, 5), r=float(g.uniform(0.3, 2.5)), cube=d.chance(1, 2), low=d.pick([0, 1, 1]))

    def draw(self, d, g, p):
        return dict(x=f32(g.randn(d.integer(p["low"], 8), p["D"])), y=f32(g.randn(d.integer(p["low"], 9), p["D"])))

    def run(self, ctx, p, es, pad):
        x, lx = pad([e["x"] for e in es])
        y, ly = pad([e["y"] for e in es])
        r = O.ball_query(x, y, lx, ly, K=p["K"], radius=p["r"], return_nn=True, skip_points_outside_cube=p["cube"])
        zero(ctx, r.dists, lx, "dists")
        zero(ctx, r.idx, lx, "idx", -1)
        zero(ctx, r.knn, lx, "knn")
        return [[r.dists[i, :n], r.idx[i, :n], r.knn[i, :n], r.dists[i].sum()] for i, n in enumerate(lx.tolist())]

    def ref(self, p, e):
        x, y = e["x"].astype(float), e["y"].astype(float)
        n, k = len(x), p["K"]
        ds, ix, ps = np.zeros((n, k)), np.full((n, k), -1), np.zeros((n, k, p["D"]))
        for i in range(n):
            q = ((y - x[i]) ** 2).sum(1)
            for j, m in enumerate(np.flatnonzero(q < p["r"] ** 2)[:k]):
                ds[i, j], ix[i, j], ps[i, j] = q[m], m, y[m]
        return [ds, ix, ps, ds.sum()]


class Farthest(Op):
    def params(self, d, g):
        return dict(D=d.pick([2, 3, 3, 5]), K=d.integer(1, 6), each=d.choice(3), low=1)

    def draw(self, d, g, p):
        return dict(x=f32(g.randn(d.integer(1, 8), p["D"])), k=np.int64(d.integer(1, 6)))

    def run(self, ctx, p, es, pad):
        x, lx = pad([e["x"] for e in es])
        ks = [int(e["k"]) if p["each"] else p["K"] for e in es]
        K = p["K"] if not p["each"] else ks if p["each"] == 1 else torch.tensor(ks)
        pts, idx = O.sample_farthest_points(x, lx, K)
        out = []
        for i, (n, k) in enumerate(zip(lx.tolist(), ks)):
            m = min(n, k)
            ctx.check(bool((idx[i, m:] == -1).all() and (pts[i, m:] == 0).all()), "wrong-padding", "beyond the samples")
            out.append([pts[i, :m], idx[i, :m]])
        return out

    def ref(self, p, e):
        x = e["x"]
        k = min(len(x), int(e["k"]) if p["each"] else p["K"])
        near = np.full(len(x), np.inf)
        out = [0]
        while len(out) < k:
            near = np.minimum(near, ((x - x[out[-1]]).astype(float) ** 2).sum(1))
            out.append(int(near.argmax()))
        return [x[out], np.array(out)]


def nearest(x, y, norm):
    dd = np.abs(x[:, None] - y[None])
    dd = dd.sum(2) if norm == 1 else (dd**2).sum(2)
    return dd


class Chamfer(Op):
    def params(self, d, g):
        p = dict(norm=1 + d.choice(2), point=d.pick(["mean", "sum", "max", None]), single=d.chance(1, 3), absc=d.chance(1, 2), weights=d.chance(1, 3), form=d.choice(3), D=3)
        p["normals"] = p["point"] != "max" and d.chance(1, 2)

        p["low"] = 1
        return p

    def draw(self, d, g, p):
        e = dict(x=f32(g.randn(d.integer(p["low"], 8), 3)), y=f32(g.randn(d.integer(p["low"], 9), 3)))
        if p["normals"]:
            for k in "xy":
                v = g.randn(len(e[k]), 3)
                e["n" + k] = f32(v / np.linalg.norm(v, axis=1, keepdims=True))
        e["w"] = np.float64(g.uniform(0.3, 2))
        return e

    def call(self, p, es, pad, batch):
        k = dict(norm=p["norm"], point_reduction=p["point"], single_directional=p["single"], abs_cosine=p["absc"], batch_reduction=batch)
        if p["weights"]:
            k["weights"] = torch.tensor([float(e["w"]) for e in es])
        n = p["normals"]
        if p["form"] == 0:
            c = [Pointclouds([e[s] for e in es], [e["n" + s] for e in es] if n else None) for s in "xy"]
            return L.chamfer_distance(c[0], c[1], **k)
        x, lx = pad([e["x"] for e in es])
        y, ly = pad([e["y"] for e in es])
        if n:
            # the normals are padded as the points are
            for s, t in (("x", x), ("y", y)):
                q = pad([e["n" + s] for e in es])[0]
                k[s + "_normals"] = q
        return L.chamfer_distance(x, y, lx, ly, **k)

    def run(self, ctx, p, es, pad):
        dist, nrm = self.call(p, es, pad, None)
        ctx.check((nrm is not None) == p["normals"], "normals-loss", p)
        out = []
        for i, e in enumerate(es):
            o = []
            for r in (dist, nrm):
                if r is None:
                    continue
                if p["point"] is None:
                    r = [r] if p["single"] else r
                    for s, q in zip("xy", r):
                        m = e[s].shape[0]
                        ctx.check(bool((q[i, m:] == 0).all()), "wrong-padding", "beyond the points")
                        o.append(q[i, :m])
                else:
                    ctx.check(r.shape == (len(es),), "wrong-shape", tuple(r.shape), p)
                    o.append(r[i])
            out.append(o)
        if p["point"] is not None:
            for b in ("sum", "mean"):
                dist, nrm = self.call(p, es, pad, b)
                for j, r in enumerate([dist, nrm] if p["normals"] else [dist]):
                    w = sum(float(e["w"]) for e in es) if p["weights"] else len(es)
                    s = sum(o[j] for o in out)
                    ctx.check(r.shape == () and close(r, s / (w or 1) if b == "mean" else s, 1e-4), "wrong-reduction", b, r, s, w)
        return out

    def ref(self, p, e):
        w = float(e["w"]) if p["weights"] else 1.0
        o, on = [], []
        for s, t in ("xy", "yx"):
            x, y = e[s].astype(float), e[t].astype(float)
            dd = nearest(x, y, p["norm"])
            o.append(w * dd.min(1))
            if p["normals"]:
                n = {k: e["n" + k].astype(float) / np.linalg.norm(e["n" + k].astype(float), axis=1, keepdims=True) for k in "xy"}
                c = (n[s] * n[t][dd.argmin(1)]).sum(1)
                on.append(w * (1 - (np.abs(c) if p["absc"] else c)))
        if p["single"]:
            o, on = o[:1], on[:1]
        if p["point"] is None:
            return o + on
        f = {"mean": np.mean, "sum": np.sum, "max": np.max}[p["point"]]
        q = [f(a) for a in o]
        return [max(q) if p["point"] == "max" else sum(q)] + ([sum(f(a) for a in on)] if on else [])


def seg_dist(p, a, b):
    u = b - a
    t = np.clip(((p - a) * u).sum(-1) / (u * u).sum(-1), 0, 1)
    return ((p - a - t[..., None] * u) ** 2).sum(-1)


def tri_dist(p, a, b, c):
    n = np.cross(b - a, c - a)
    n = n / np.linalg.norm(n, axis=-1, keepdims=True)
    h = ((p - a) * n).sum(-1)
    q = p - h[..., None] * n
    inside = np.ones(h.shape, bool)
    for u, v in ((a, b), (b, c), (c, a)):
        inside &= (np.cross(v - u, q - u) * n).sum(-1) >= 0
    return np.where(inside, h * h, np.minimum(np.minimum(seg_dist(p, a, b), seg_dist(p, b, c)), seg_dist(p, c, a)))


class PointMesh(Op):
    mean = True

    def params(self, d, g):
        return dict(face=d.chance(1, 2))

    def draw(self, d, g, p):
        v, f = mesh(g)
        return dict(verts=v, faces=f, x=f32(g.uniform(-1.5, 1.5, (d.integer(1, 8), 3))))

    def run(self, ctx, p, es, pad):
        f = L.point_mesh_face_distance if p["face"] else L.point_mesh_edge_distance
        return f(meshes_of(es), Pointclouds([e["x"] for e in es]))

    def ref(self, p, e):
        v, x = e["verts"].astype(float), e["x"].astype(float)[:, None]
        if p["face"]:
            a, b, c = (v[e["faces"][:, i]][None] for i in range(3))
            dd = tri_dist(x, a, b, c)
        else:
            q = edges_of(e["faces"])
            dd = seg_dist(x, v[q[:, 0]][None], v[q[:, 1]][None])
        return [dd.min(1).mean() + dd.min(0).mean()]


class MeshLoss(Op):
    mean = True
    tol = 1e-3

    def params(self, d, g):
        return dict(kind=d.choice(5), target=float(g.uniform(0, 1)))

    def draw(self, d, g, p):
        v, f = mesh(g)
        return dict(verts=v, faces=f)

    def run(self, ctx, p, es, pad):
        m = meshes_of(es)
        if p["kind"] == 0:
            return L.mesh_edge_loss(m, p["target"])
        if p["kind"] == 1:
            # one zero where no faces meet
            return L.mesh_normal_consistency(m).sum()
        return L.mesh_laplacian_smoothing(m, ["uniform", "cot", "cotcurv"][p["kind"] - 2])

    def ref(self, p, e):
        v, f = e["verts"].astype(float), e["faces"]
        q = edges_of(f)
        if p["kind"] == 0:
            return [((np.linalg.norm(v[q[:, 0]] - v[q[:, 1]], axis=1) - p["target"]) ** 2).mean()]
        if p["kind"] == 1:
            out = []
            for a, b in q:
                ns = []
                for t in f:
                    if a in t and b in t:
                        o = [x for x in t if x != a and x != b][0]
                        n = np.cross(v[b] - v[a], v[o] - v[a])
                        ns.append(n / np.linalg.norm(n))
                for i in range(len(ns)):
                    for j in range(i):
                        # normals of both sides point alike where the faces continue each other
                        out.append(1 + ns[i] @ ns[j])
            return [np.mean(out) if out else 0.0]
        if p["kind"] == 2:
            nb = [set() for _ in v]
            for a, b in q:
                nb[a].add(b)
                nb[b].add(a)
            return [np.mean([np.linalg.norm(np.mean([v[j] for j in s], 0) - v[i]) if s else np.linalg.norm(v[i]) for i, s in enumerate(nb)])]
        return None


class Packed(Op):
    tol = 0

    def params(self, d, g):
        return dict(tail=d.pick([(), (1,), (3,), (2, 3)]), extra=d.choice(3))

    def draw(self, d, g, p):
        return dict(x=f32(g.randn(d.integer(0, 5), *p["tail"])))

    def run(self, ctx, p, es, pad):
        x = torch.cat([e["x"] for e in es])
        n = torch.tensor([e["x"].shape[0] for e in es])
        first = n.cumsum(0) - n
        if x.shape[0] == 0:
            return [[e["x"] * 1, e["x"] * 1] for e in es]
        y = O.packed_to_padded(x, first, int(n.max()) + p["extra"])
        zero(ctx, y, n, "packed_to_padded")
        z, _ = pad([y[i, :k] for i, k in enumerate(n.tolist())])
        back = O.padded_to_packed(z, first, x.shape[0])
        ctx.check(bool((back == x).all()), "not-packed-again", back, x)
        return [[back[a : a + k], y[i, :k]] for i, (a, k) in enumerate(zip(first.tolist(), n.tolist()))]

    def ref(self, p, e):
        return [e["x"], e["x"]]


def rotation(g):
    q, r = np.linalg.qr(g.randn(3, 3))
    q = q * np.sign(np.diag(r))
    return q if np.linalg.det(q) > 0 else q[:, [1, 0, 2]]


class Align(Op):
    diff = False
    tol = 2e-3

    def params(self, d, g):
        return dict(scale=d.chance(1, 2), refl=d.chance(1, 3), weights=d.choice(3), form=d.choice(2), noise=d.pick([0.0, 0.05]))

    def draw(self, d, g, p):
        x = g.randn(d.integer(5, 9), 3)
        R, T, s = rotation(g), g.randn(3), g.uniform(0.5, 2) if p["scale"] else 1.0
        if p["refl"] and d.chance(1, 2):
            R = R @ np.diag([1, 1, -1.0])
        y = s * x @ R + T + p["noise"] * g.randn(*x.shape)
        return dict(x=f32(x), y=f32(y), w=f32(g.uniform(0.2, 1, len(x))), R=R, T=T, s=np.float64(s))

    def run(self, ctx, p, es, pad):
        w = [e["w"] for e in es] if p["weights"] else None
        if p["form"]:
            x, y = Pointclouds([e["x"] for e in es]), Pointclouds([e["y"] for e in es])
            if w is not None:
                w = Pad(0, True)(w)[0] if p["weights"] == 1 else w
        else:
            n = max(e["x"].shape[0] for e in es)
            w = w or [torch.ones(e["x"].shape[0]) for e in es]
            x, y = (torch.stack([torch.cat([e[k], pad.fill((n - e[k].shape[0], 3), e[k])]) for e in es]) for k in "xy")
            w = torch.stack([torch.cat([q, torch.zeros(n - q.shape[0])]) for q in w])
        r = O.corresponding_points_alignment(x, y, w, estimate_scale=p["scale"], allow_reflection=p["refl"])
        return [[r.R[i], r.T[i], r.s[i]] for i in range(len(es))]

    def ref(self, p, e):
        return [e["R"], e["T"], e["s"]] if p["noise"] == 0 else None


class Icp(Op):
    diff = False
    tol = 5e-3

    def params(self, d, g):
        return dict(scale=d.chance(1, 3), form=d.choice(2), it=d.integer(1, 4), less=d.choice(2))

    def draw(self, d, g, p):
        x = g.randn(d.integer(6, 10), 3)
        n = 8 if p["form"] else len(x)
        x = x if p["form"] == 0 else g.randn(n, 3)
        a = g.randn(3) * 0.05
        K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
        return dict(x=f32(x), y=f32((x @ (np.eye(3) + K) + 0.1 * g.randn(3))[: n - p["less"]]))

    def run(self, ctx, p, es, pad):
        if p["form"]:
            x, y = (torch.stack([e[k] for e in es]) for k in "xy")
        else:
            x, y = Pointclouds([e["x"] for e in es]), Pointclouds([e["y"] for e in es])
        r = O.iterative_closest_point(x, y, max_iterations=p["it"], relative_rmse_thr=-1.0, estimate_scale=p["scale"])
        xt = r.Xt if p["form"] else None
        return [[r.RTs.R[i], r.RTs.T[i], r.RTs.s[i], r.rmse[i], xt[i] if p["form"] else r.Xt.points_list()[i]] for i in range(len(es))]


class Normals(Op):
    diff = False
    tol = 2e-2

    def params(self, d, g):
        return dict(K=d.integer(4, 6), form=d.choice(2), clear=d.chance(1, 2))

    def draw(self, d, g, p):
        n = d.integer(7, 12)
        x = g.randn(n, 3) * [1, 1, 0.05]
        return dict(x=f32(x @ rotation(g)))

    def run(self, ctx, p, es, pad):
        c = Pointclouds([e["x"] for e in es])
        if p["form"] and len({e["x"].shape for e in es}) == 1:
            c = torch.stack([e["x"] for e in es])
        n = O.estimate_pointcloud_normals(c, neighborhood_size=p["K"], disambiguate_directions=p["clear"])
        out = []
        for i, e in enumerate(es):
            k = e["x"].shape[0]
            v = n[i, :k]
            out.append([v if p["clear"] else v[:, :, None] * v[:, None]])
        return out

    def ref(self, p, e):
        if p["clear"]:
            return None
        x = e["x"].astype(float)
        out = []
        for q in x:
            nb = x[np.argsort(((x - q) ** 2).sum(1))[: p["K"]]]
            w, v = np.linalg.eigh(np.cov(nb.T))
            if w[1] < 3 * w[0] + 1e-2:
                return None
            out.append(np.outer(v[:, 0], v[:, 0]))
        return [np.array(out)]

    def usable(self, p, e):
        return self.ref({**p, "clear": False}, e) is not None


class ToVolume(Op):
    def params(self, d, g):
        return dict(C=d.integer(1, 3), mode=d.pick(["trilinear", "nearest"]), corners=d.chance(1, 2), rescale=d.chance(2, 3), low=d.pick([0, 1, 1]))

    def draw(self, d, g, p):
        n = d.integer(p["low"], 7)
        size = tuple(d.integer(2, 5) for _ in range(3))
        return dict(x=f32(g.uniform(-1.3, 1.3, (n, 3))), f=f32(g.randn(n, p["C"])), den=f32(g.uniform(0, 1, (1, *size))), vol=f32(g.randn(p["C"], *size)))

    def run(self, ctx, p, es, pad):
        x, lx = pad([e["x"] for e in es])
        n = x.shape[1]
        f = torch.stack([torch.cat([e["f"], pad.fill((n - e["f"].shape[0], p["C"]), e["f"])]) for e in es])
        mask = (torch.arange(n)[None] < lx[:, None]).float()
        sizes = torch.tensor([e["den"].shape[1:] for e in es])
        full = sizes.max(0)[0].tolist()

        def put(k):
            out = []
            for e in es:
                v = torch.zeros(e[k].shape[0], *full)
                a, b, c = e[k].shape[1:]
                v[:, :a, :b, :c] = e[k]
                out.append(v)
            return torch.stack(out)

        before = put("den"), put("vol")
        vol, den = add_points_features_to_volume_densities_features(
            x, f, before[0], before[1], mode=p["mode"], mask=mask, grid_sizes=sizes, rescale_features=p["rescale"], align_corners=p["corners"])
        out = []
        for i, (a, b, c) in enumerate(sizes.tolist()):
            for v in (vol[i], den[i]):
                v = v.detach().clone()
                v[:, :a, :b, :c] = 0
                ctx.check(bool((v == 0).all()), "voxels-outside-of-the-grid-changed")
            out.append([vol[i, :, :a, :b, :c], den[i, :, :a, :b, :c]])
        return out

    def ref(self, p, e):
        D, H, W = e["den"].shape[1:]
        s = np.array([W, H, D])
        den, vol = e["den"].astype(float).copy(), e["vol"].astype(float).copy()
        w0 = np.zeros((D, H, W))
        for x, f in zip(e["x"].astype(float), e["f"].astype(float)):
            q = (x + 1) / 2 * (s - 1) if p["corners"] else ((x + 1) * s - 1) / 2
            if p["mode"] == "nearest":
                if (np.abs(q - np.floor(q) - 0.5) < 1e-4).any():
                    return None
                at = [(np.round(q).astype(int), 1.0)]
            else:
                b = np.floor(q).astype(int)
                at = []
                for o in np.ndindex(2, 2, 2):
                    o = np.array(o)
                    at.append((b + o, np.prod(np.where(o == 1, q - b, 1 - (q - b)))))
            for i, w in at:
                if (i >= 0).all() and (i < s).all():
                    vol[:, i[2], i[1], i[0]] += w * f
                    w0[i[2], i[1], i[0]] += w
        den = den + w0
        if p["rescale"]:
            vol = vol / np.maximum(den, 1e-4 if p["mode"] == "trilinear" else 1.0)
        return [vol, den]


class VertAlign(Op):
    def params(self, d, g):
        return dict(form=d.choice(3), packed=d.chance(1, 2), mode=d.pick(["bilinear", "nearest"]), pad=d.pick(["zeros", "border", "reflection"]), corners=d.chance(1, 2),
                    shapes=[(d.integer(1, 3), d.integer(2, 5), d.integer(2, 5)) for _ in range(d.integer(1, 2))])

    def draw(self, d, g, p):
        v, f = mesh(g)
        e = dict(verts=v, faces=f)
        for i, s in enumerate(p["shapes"]):
            e[f"im{i}"] = f32(g.randn(*s))
        return e

    def run(self, ctx, p, es, pad):
        n = torch.tensor([e["verts"].shape[0] for e in es])
        if p["form"] == 0:
            v = meshes_of(es)
        elif p["form"] == 1:
            v = Pointclouds([e["verts"] for e in es])
        else:
            v = pad([e["verts"] for e in es])[0]
        feats = [torch.stack([e[f"im{i}"] for e in es]) for i in range(len(p["shapes"]))]
        r = O.vert_align(feats if len(feats) > 1 else feats[0], v, return_packed=p["packed"], interp_mode=p["mode"], padding_mode=p["pad"], align_corners=p["corners"])
        if p["packed"]:
            ctx.check(r.dim() == 2, "wrong-shape", tuple(r.shape))
            if p["form"] == 2:
                r = r.view(len(es), -1, r.shape[1])
            else:
                ctx.check(r.shape[0] == int(n.sum()), "not-packed", tuple(r.shape), n)
                return [[x] for x in r.split(n.tolist())]
        return [[r[i, :k]] for i, k in enumerate(n.tolist())]


class Graph(Op):
    def params(self, d, g):
        p = dict(cin=d.integer(1, 3), cout=d.integer(1, 3), directed=d.chance(1, 2), init=d.pick(["normal", "zero"]))
        torch.manual_seed(d.seed32())
        p["conv"] = O.GraphConv(p["cin"], p["cout"], init=p["init"], directed=p["directed"])
        return p

    def draw(self, d, g, p):
        v, f = mesh(g)
        return dict(x=f32(g.randn(len(v), p["cin"])), e=edges_of(f) if d.chance(5, 6) else np.zeros((0, 2), np.int64))

    def run(self, ctx, p, es, pad):
        n = [e["x"].shape[0] for e in es]
        off = np.cumsum([0] + n)
        r = p["conv"](torch.cat([e["x"] for e in es]), torch.cat([e["e"] + int(o) for e, o in zip(es, off)]))
        return [[x] for x in r.split(n)]

    def ref(self, p, e):
        w = {k: v.detach().numpy().astype(float) for k, v in p["conv"].named_parameters()}
        x = e["x"].astype(float)
        out = x @ w["w0.weight"].T + w["w0.bias"]
        y = x @ w["w1.weight"].T + w["w1.bias"]
        for a, b in e["e"]:
            out[a] += y[b]
            if not p["directed"]:
                out[b] += y[a]
        return [out]


class Cubify(Op):
    diff = False
    tol = 1e-6

    def params(self, d, g):
        p = dict(size=tuple(d.integer(2, 4) for _ in range(3)), align=d.pick(["topleft", "corner", "center"]), thresh=float(g.uniform(0.2, 0.9)), C=d.choice(3))
        if p["align"] != "center":
            p["C"] = 0
        return p

    def draw(self, d, g, p):
        e = dict(x=f32(g.uniform(0, 1, p["size"])))
        if p["C"]:
            e["f"] = f32(g.uniform(0, 1, (p["C"], *p["size"])))
        return e

    def run(self, ctx, p, es, pad):
        k = {"feats": torch.stack([e["f"] for e in es])} if p["C"] else {}
        m = O.cubify(torch.stack([e["x"] for e in es]), p["thresh"], align=p["align"], **k)
        out = []
        for i in range(len(es)):
            v, f = m.verts_list()[i], m.faces_list()[i]
            o = [v.reshape(-1, 3), f.reshape(-1, 3)]
            out.append(o)
        if p["C"]:
            atlas = m.textures.atlas_list() if m.textures is not None else [torch.zeros(0, 1, 1, p["C"])] * len(es)
            for o, t in zip(out, atlas):
                ctx.check(t.shape == (o[1].shape[0], 1, 1, p["C"]), "wrong-shape", tuple(t.shape))
                o.append(t)
        return out

    def judge(self, ctx, p, e, out):
        """exposed sides, watertight, where the voxels are"""
        x = np.pad(e["x"] > p["thresh"], 1)
        sides = sum(int((np.diff(x.astype(int), axis=a) != 0).sum()) for a in range(3))
        v, f = out[0].numpy(), out[1].numpy()
        ctx.check(len(f) == 2 * sides, "wrong-number-of-faces", len(f), sides)
        if not len(f):
            return
        ctx.check(len(np.unique(np.round(v, 5), axis=0)) == len(v) and set(f.ravel()) == set(range(len(v))), "vertices-repeated-or-unused")
        q = np.sort(np.concatenate([f[:, [0, 1]], f[:, [1, 2]], f[:, [2, 0]]]), 1)
        _, n = np.unique(q, axis=0, return_counts=True)
        ctx.check(bool((n % 2 == 0).all()), "not-closed")


class Marching(Op):
    diff = False
    tol = 1e-6

    def params(self, d, g):
        return dict(size=tuple(d.integer(2, 5) for _ in range(3)), iso=None if d.chance(1, 3) else float(g.uniform(-1, 1)), local=d.chance(1, 2))

    def draw(self, d, g, p):
        return dict(x=f32(g.randn(*p["size"])))

    def run(self, ctx, p, es, pad):
        x = torch.stack([e["x"] for e in es])
        if not pad.clean and pad.g.randint(2):
            x = x.transpose(1, 3).contiguous().transpose(1, 3)
        v, f = marching_cubes(x, p["iso"], return_local_coords=p["local"])
        ctx.check(len(v) == len(f) == len(es), "wrong-number-of-meshes")
        return [[torch.as_tensor(a).reshape(-1, 3).float(), torch.as_tensor(b).reshape(-1, 3).long()] for a, b in zip(v, f)]

    def judge(self, ctx, p, e, out):
        """one vertex on each edge of the grid that crosses the level, all of them used"""
        x = e["x"].astype(float)
        iso = (x.max() + x.min()) / 2 if p["iso"] is None else p["iso"]
        want = []
        for a in range(3):
            lo, hi = np.take(x, range(x.shape[a] - 1), a), np.take(x, range(1, x.shape[a]), a)
            for i in np.argwhere((lo < iso) != (hi < iso)):
                l, h = lo[tuple(i)], hi[tuple(i)]
                if min(abs(l - iso), abs(h - iso)) < 1e-3:
                    return
                q = i.astype(float)
                q[a] += (iso - l) / (h - l)
                want.append(q[::-1])
        want = np.array(want).reshape(-1, 3)
        D, H, W = x.shape
        v, f = out[0].numpy().astype(float), out[1].numpy()
        if p["local"] and len(v):
            v = (v + 1) / 2 * (np.array([W, H, D]) - 1)
        ctx.check(len(v) == len(want), "wrong-number-of-vertices", len(v), len(want))
        if len(v):
            m = np.abs(v[:, None] - want[None]).max(2)
            ctx.check(m.min(1).max() < 1e-3 and m.min(0).max() < 1e-3, "vertices-not-on-the-level")
            ctx.check(f.min() >= 0 and set(f.ravel()) == set(range(len(v))), "vertices-unused")


class Subdivide(Op):
    def params(self, d, g):
        return dict(C=d.choice(3), same=d.chance(1, 3), again=d.chance(1, 3), seed=d.seed32(), kept=d.chance(1, 2))

    def draw(self, d, g, p):
        if p["same"]:
            _, f = mesh(np.random.RandomState(p["seed"]), 6)
            v = f32(g.uniform(-1, 1, (6, 3)))
        else:
            v, f = mesh(g)
        e = dict(verts=v, faces=f)
        if p["C"]:
            e["f"] = f32(g.randn(len(v), p["C"]))
        return e

    def run(self, ctx, p, es, pad):
        m = meshes_of(es)
        x = None
        if p["C"]:
            x = torch.cat([e["f"] for e in es])
        sub = O.SubdivideMeshes(m if p["same"] and p["kept"] else None)
        r = sub(m, x) if x is not None else sub(m)
        m2, x2 = r if x is not None else (r, None)
        n = m2.num_verts_per_mesh().tolist()
        if x2 is not None:
            # one mesh or meshes of the same faces: (N, V, D)
            x2 = x2.reshape(-1, x2.shape[-1])
        x2 = x2.split(n) if x2 is not None else [None] * len(n)
        out = []
        for i in range(len(es)):
            v, f = m2.verts_list()[i], m2.faces_list()[i]
            full = v if x2[i] is None else torch.cat([v, x2[i]], 1)
            # the triangles, in an order of their own
            t = full[f].detach()
            s = t[..., :3].double()
            s = (s.mean(1) * torch.tensor([1.0, 1.7, 2.3])).sum(1)
            out.append([full[f][s.argsort()].flatten(), torch.tensor([len(v)])])
        return out

    def judge(self, ctx, p, e, out):
        f = e["faces"]
        full = e["verts"] if "f" not in e else np.concatenate([e["verts"], e["f"]], 1)
        full = full.astype(float)
        ctx.check(int(out[1]) == len(e["verts"]) + len(edges_of(f)), "wrong-number-of-vertices", int(out[1]))
        want = []
        for a, b, c in full[f]:
            ab, bc, ca = (a + b) / 2, (b + c) / 2, (c + a) / 2
            want += [(a, ab, ca), (ab, b, bc), (ca, bc, c), (ab, bc, ca)]
        want = np.array(want)
        got = out[0].detach().numpy().reshape(want.shape[0] if out[0].numel() == want.size else -1, 3, full.shape[1])
        ctx.check(len(got) == len(want), "wrong-number-of-faces", len(got), len(want))
        ok = [False] * len(want)
        for t in got:
            for i, w in enumerate(want):
                if not ok[i] and any(np.abs(np.roll(t, k, 0) - w).max() < 1e-4 for k in range(3)):
                    ok[i] = True
                    break
            else:
                ctx.check(False, "wrong-face", t)


class Taubin(Op):
    tol = 1e-3

    def params(self, d, g):
        return dict(it=d.integer(1, 4), l=float(g.uniform(0.2, 0.7)))

    def draw(self, d, g, p):
        # every vertex belongs to a face
        v, f = mesh(g)
        u, i = np.unique(f, return_inverse=True)
        return dict(verts=v[u], faces=i.reshape(f.shape))

    def run(self, ctx, p, es, pad):
        m = O.taubin_smoothing(meshes_of(es), lambd=p["l"], mu=-p["l"] - 0.03, num_iter=p["it"])
        return [[v] for v in m.verts_list()]


UNIT = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]) - 0.5


def close_faces(s1, c1, s2, c2):
    """the least distance of parallel faces"""
    return min(float(np.abs(c1 + a * s1 / 2 - c2 - b * s2 / 2).min()) for a in (-1, 1) for b in (-1, 1))


class Boxes(Op):
    diff = False
    tol = 3e-3

    def params(self, d, g):
        return dict(same=d.chance(2, 3))

    def draw(self, d, g, p):
        s1, s2 = g.uniform(0.5, 2, (2, 3))
        c1, c2 = g.uniform(-0.8, 0.8, (2, 3))
        R = rotation(g)
        R2 = R if p["same"] else rotation(g)
        if close_faces(s1, c1, s2, c2) < 0.02 if p["same"] else np.abs(R @ R2.T).max() > 0.99:
            # see the scenario close_boxes
            return self.draw(d, g, p)
        inter = np.prod(np.maximum(0, np.minimum(c1 + s1 / 2, c2 + s2 / 2) - np.maximum(c1 - s1 / 2, c2 - s2 / 2)))
        return dict(a=f32((UNIT * s1 + c1) @ R), b=f32((UNIT * s2 + c2) @ R2), vols=np.array([inter, np.prod(s1), np.prod(s2)]), R=R, R2=R2)

    def run(self, ctx, p, es, pad):
        a, b = torch.stack([e["a"] for e in es]), torch.stack([e["b"] for e in es])
        vol, iou = O.box3d_overlap(a, b)
        v2, i2 = O.box3d_overlap(b, a)
        ctx.check(vol.shape == iou.shape == (len(es), len(es)), "wrong-shape")
        clear = np.array([[i == j or np.abs(e["R"] @ o["R2"].T).max() < 0.99 for j, o in enumerate(es)] for i, e in enumerate(es)])
        ctx.check(close(v2.T[clear], vol[clear], self.tol) and close(i2.T[clear], iou[clear], self.tol), "not-symmetric", vol, v2, clear)
        return [[vol[i, i], iou[i, i]] for i in range(len(es))]

    def ref(self, p, e):
        if not p["same"]:
            return None
        x, a, b = (float(q) for q in e["vols"])
        return [x, x / (a + b - x)]


class FaceAttrs(Op):
    def params(self, d, g):
        return dict(D=d.integer(1, 4), size=(d.integer(1, 3), d.integer(1, 3), d.integer(1, 3)))

    def draw(self, d, g, p):
        F = d.integer(1, 4)
        pix = g.randint(-1, F, p["size"])
        return dict(pix=pix, bary=f32(g.uniform(0, 1, (*p["size"], 3))), at=f32(g.randn(F, 3, p["D"])))

    def run(self, ctx, p, es, pad):
        off = np.cumsum([0] + [e["at"].shape[0] for e in es])
        pix = torch.stack([torch.where(e["pix"] >= 0, e["pix"] + int(o), e["pix"]) for e, o in zip(es, off)])
        r = O.interpolate_face_attributes(pix, torch.stack([e["bary"] for e in es]), torch.cat([e["at"] for e in es]))
        return [[x] for x in r]

    def ref(self, p, e):
        r = (e["bary"].astype(float)[..., None] * e["at"].astype(float)[e["pix"]]).sum(-2)
        r[e["pix"] < 0] = 0
        return [r]


class Laplace(Op):
    tol = 1e-3

    def params(self, d, g):
        return dict(kind=d.choice(3))

    def draw(self, d, g, p):
        v, f = mesh(g)
        return dict(verts=v, faces=f)

    def run(self, ctx, p, es, pad):
        n = [e["verts"].shape[0] for e in es]
        off = np.cumsum([0] + n)
        v = torch.cat([e["verts"] for e in es])
        f = torch.cat([e["faces"] + int(o) for e, o in zip(es, off)])
        e = torch.cat([torch.from_numpy(edges_of(x["faces"].numpy())) + int(o) for x, o in zip(es, off)])
        extra = None
        if p["kind"] == 0:
            m = O.laplacian(v, e)
        elif p["kind"] == 1:
            m, extra = O.cot_laplacian(v, f)
        else:
            m = O.norm_laplacian(v, e)
        m = m.to_dense()
        out = []
        for i, k in enumerate(n):
            a = slice(int(off[i]), int(off[i]) + k)
            rest = m[a].detach().clone()
            rest[:, a] = 0
            ctx.check(bool((rest == 0).all()), "elements-are-joined")
            out.append([m[a, a]] + ([extra[a, 0]] if extra is not None else []))
        return out

    def ref(self, p, e):
        n, q = len(e["verts"]), edges_of(e["faces"])
        v = e["verts"].astype(float)
        A = np.zeros((n, n))
        if p["kind"] == 0:
            A[q[:, 0], q[:, 1]] = A[q[:, 1], q[:, 0]] = 1
            deg = A.sum(1, keepdims=True)
            return [np.divide(A, deg, out=np.zeros_like(A), where=deg > 0) - np.eye(n)]
        if p["kind"] == 2:
            w = 1 / (np.linalg.norm(v[q[:, 0]] - v[q[:, 1]], axis=1) + 1e-12)
            A[q[:, 0], q[:, 1]] = A[q[:, 1], q[:, 0]] = w
            return [A]
        inv = np.zeros(n)
        for t in e["faces"]:
            a, b, c = v[t]
            area = np.linalg.norm(np.cross(b - a, c - a)) / 2
            inv[t] += area
            for i in range(3):
                o, x, y = t[i], t[(i + 1) % 3], t[(i + 2) % 3]
                u, z = v[x] - v[o], v[y] - v[o]
                cot = (u @ z) / np.linalg.norm(np.cross(u, z))
                A[x, y] += cot
                A[y, x] += cot
        return [A, np.divide(1.0, inv, out=np.zeros(n), where=inv > 0)]


class Areas(Op):
    def draw(self, d, g, p):
        v, f = mesh(g)
        return dict(verts=v, faces=f)

    def run(self, ctx, p, es, pad):
        n = [e["verts"].shape[0] for e in es]
        off = np.cumsum([0] + n)
        k = [e["faces"].shape[0] for e in es]
        a, m = O.mesh_face_areas_normals(torch.cat([e["verts"] for e in es]), torch.cat([e["faces"] + int(o) for e, o in zip(es, off)]))
        return [[x, y] for x, y in zip(a.split(k), m.split(k))]

    def ref(self, p, e):
        a, b, c = (e["verts"].astype(float)[e["faces"][:, i]] for i in range(3))
        n = np.cross(b - a, c - a)
        s = np.linalg.norm(n, axis=1)
        return [s / 2, n / s[:, None]]


class Pnp(Op):
    diff = False
    tol = 5e-2

    def params(self, d, g):
        return dict(n=d.integer(10, 16), weights=d.choice(3), skip=d.chance(1, 3))

    def draw(self, d, g, p):
        x = g.uniform(-1, 1, (p["n"], 3))
        R, T = rotation(g), np.array([g.uniform(-0.5, 0.5), g.uniform(-0.5, 0.5), g.uniform(3, 5)])
        q = x @ R + T
        e = dict(x=f32(x), y=f32(q[:, :2] / q[:, 2:]), w=f32(g.uniform(0.5, 1.5, p["n"])), R=R, T=T)
        if p["weights"] == 2:
            # does not count
            e["y"][-1] += 3
            e["w"][-1] = 0
        return e

    def run(self, ctx, p, es, pad):
        x, y, w = (torch.stack([e[k] for e in es]) for k in "xyw")
        r = O.efficient_pnp(x, y, w if p["weights"] else None, skip_quadratic_eq=p["skip"])
        return [[r.R[i], r.T[i]] for i in range(len(es))]

    def ref(self, p, e):
        return [e["R"], e["T"]]


OPS = [Pnp(), Knn(), Ball(), Farthest(), Chamfer(), PointMesh(), MeshLoss(), Packed(), Align(), Icp(), Normals(), ToVolume(), VertAlign(), Graph(), Cubify(), Marching(), Subdivide(), Taubin(),
       Boxes(), FaceAttrs(), Laplace(), Areas()]


# ---------------------------------------------------------------- one run
def close(a, b, tol):
    a = a.detach().double().numpy() if torch.is_tensor(a) else np.asarray(a, dtype=float)
    b = b.detach().double().numpy() if torch.is_tensor(b) else np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if not a.size:
        return True
    return bool((np.abs(a - b) <= tol * max(1.0, float(np.abs(b).max()))).all())


def differ(a, b):
    a, b = (np.asarray(x.detach() if torch.is_tensor(x) else x, dtype=float) for x in (a, b))
    return float(np.abs(a - b).max()) if a.shape == b.shape and a.size else (a.shape, b.shape)


def tensors(op, es):
    out = []
    for e in es:
        t = {}
        for k, v in e.items():
            if isinstance(v, np.ndarray) and v.dtype == f32:
                t[k] = torch.from_numpy(v.copy())
                if op.diff:
                    t[k].requires_grad_()
            elif isinstance(v, np.ndarray) and v.dtype == np.int64:
                t[k] = torch.from_numpy(v.copy())
            else:
                t[k] = v
        out.append(t)
    return out


def evaluate(op, ctx, p, es, pad):
    """-> outputs of each element, gradients of each element"""
    ts = tensors(op, es)
    out = op.run(ctx, p, ts, pad)
    total = 0
    flat = [[out]] if op.mean else out
    for o in flat:
        for x in o:
            if x.is_floating_point() and x.requires_grad:
                w = torch.cos(torch.arange(x.numel(), dtype=torch.float32) + 1).reshape(x.shape)
                total = total + (x * w).sum()
    leaves = [(i, k) for i, t in enumerate(ts) for k, v in t.items() if torch.is_tensor(v) and v.requires_grad]
    grads = [{} for _ in es]
    if torch.is_tensor(total) and total.requires_grad:
        gs = torch.autograd.grad(total, [ts[i][k] for i, k in leaves], allow_unused=True)
        for (i, k), x in zip(leaves, gs):
            grads[i][k] = torch.zeros_like(ts[i][k]) if x is None else x
    for e, t in zip(es, ts):
        for k, v in t.items():
            if torch.is_tensor(v):
                ctx.check(np.array_equal(v.detach().numpy(), e[k]), "input-changed", type(op).__name__, k)
    return [[x.detach() for x in o] for o in flat], grads


def slope(op, p, e, names, floats, way, h):
    """of the weighted sum of the outputs by definition, in a direction"""

    def value(q):
        r = op.ref(p, {**e, **{k: e[k].astype(float) + q * way[k] for k in names}})
        return None if r is None else sum((np.cos(np.arange(np.size(x)) + 1.0) * np.ravel(x)).sum() for x, f in zip(r, floats) if f)

    a, b = value(h), value(-h)
    return None if a is None or b is None else (a - b) / (2 * h)


def slopes(op, ctx, p, e, out, grads, seed):
    names = sorted(grads)
    g = np.random.RandomState(seed)
    way = {k: g.randn(*e[k].shape) for k in names}
    floats = [x.is_floating_point() for x in out]
    a, b = (slope(op, p, e, names, floats, way, h) for h in (1e-5, 1e-6))
    got = sum(float((grads[k].double().numpy() * way[k]).sum()) for k in names)
    size = 1 + sum(float(np.abs(grads[k].double().numpy() * way[k]).sum()) for k in names)
    if a is None or b is None or abs(a - b) > 1e-3 * size:
        # not smooth here
        return
    ctx.check(abs(got - b) < 1e-2 * size, f"wrong-gradient-{type(op).__name__}", p, got, b, names)


def batch(d, ctx, ops=None, files=FILES):
    op = d.pick(ops or OPS)
    name = type(op).__name__
    g = np.random.RandomState(d.seed32())
    p = op.params(d, g)
    es = [op.draw(d, g, p) for _ in range(d.integer(1, 4))]
    if hasattr(op, "usable") and not all(op.usable(p, e) for e in es):
        return
    order = [d.choice(len(es)) for _ in range(d.integer(1, 5))] if d.chance(1, 2) else d.shuffle(list(range(len(es))))
    seed = d.seed32()
    ctx.state(name, tuple(sorted((k, v) for k, v in p.items() if isinstance(v, (bool, int, str)) and k != "seed")))

    def whole():
        return evaluate(op, ctx, p, [es[i] for i in order], Pad(seed))

    alone = [evaluate(op, ctx, p, [e], Pad(0, True)) for e in es]
    for e, (o, _) in zip(es, alone):
        if hasattr(op, "ref"):
            r = op.ref(p, e)
            if r is not None:
                ctx.check(len(r) == len(o[0]) and all(close(a, b, max(op.tol, 1e-4)) for a, b in zip(o[0], r)), f"wrong-{name}", p, [differ(a, b) for a, b in zip(o[0], r)], o[0], r)
        if hasattr(op, "judge"):
            op.judge(ctx, p, e, o[0])
        ctx.check(all(bool(torch.isfinite(x).all()) for x in o[0]), f"not-finite-{name}", p, o[0])
    if op.diff and hasattr(op, "ref"):
        i = d.choice(len(es))
        if alone[i][1][0]:
            slopes(op, ctx, p, es[i], alone[i][0][0], alone[i][1][0], d.seed32())
    how = d.weighted([4, 3, 3, 3])
    results = None
    if how == 1:
        ctx.arm("alloc_failure")
        with th.OpFaults(1 + d.choice(40)) as f:
            try:
                results = [whole()]
            except (th.AllocFail, RuntimeError):
                if not f.fired:
                    raise
        if f.fired:
            ctx.fault("alloc_failure")
            results = None
    elif how == 2:
        ctx.arm("interrupt")
        (ok, r), fired = th.interrupted(whole, files, d.gap(8))
        if fired:
            ctx.fault("interrupt")
        elif ok != "ok":
            raise r
        else:
            results = [r]
    elif how == 3:
        sch = th.Sched(files, th.draw_preemptions(d, 2, 0, 24, 8))
        rs = sch.run([whole, whole])
        ctx.fault("preemption", sch.di)
        ctx.state("schedule", str(sch.trail))
        for ok, r in rs:
            if ok != "ok":
                raise r
        results = [r for _, r in rs]
    for out, grads in results or [whole()]:
        judge(op, ctx, p, name, alone, order, out, grads)
    ctx.nontrivial = len(order) > 1
    ctx.count(name)


def judge(op, ctx, p, name, alone, order, out, grads):
    n = len(order)
    if op.mean:
        want = sum(alone[i][0][0][0] for i in order) / n
        ctx.check(close(out[0][0], want, op.tol), f"batch-differs-{name}", p, out[0][0], want)
    for j, i in enumerate(order):
        if not op.mean:
            a, b = out[j], alone[i][0][0]
            ctx.check(len(a) == len(b) and all(close(x, y, op.tol) for x, y in zip(a, b)), f"batch-differs-{name}", p, [differ(x, y) for x, y in zip(a, b)], a, b)
        for k, y in alone[i][1][0].items():
            x = grads[j].get(k)
            x = torch.zeros_like(y) if x is None else x * (n if op.mean else 1)
            ctx.check(close(x, y, 10 * op.tol), f"gradient-differs-{name}", p, k, x, y)


def run(d, ctx, ops=None, files=FILES):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            batch(d, ctx, ops, files)


def close_boxes(d, ctx):
    """boxes with faces next to each other"""
    g = np.random.RandomState(d.seed32())
    s1, c1 = g.uniform(0.8, 2, 3), g.uniform(-0.3, 0.3, 3)
    s2, c2 = g.uniform(0.8, 2, 3), g.uniform(-0.3, 0.3, 3)
    axis = d.choice(3)
    gap = d.pick([0.0, 0.001, 0.002, 0.05])
    c2[axis] = c1[axis] + (s1[axis] - s2[axis]) / 2 + gap
    R = rotation(g) if d.chance(1, 2) else np.eye(3)
    inter = np.prod(np.maximum(0, np.minimum(c1 + s1 / 2, c2 + s2 / 2) - np.maximum(c1 - s1 / 2, c2 - s2 / 2)))
    size = d.pick([1.0, 0.25, 4.0])
    pair = [torch.from_numpy(f32(size * (UNIT * s + c) @ R))[None] for s, c in ((s1, c1), (s2, c2))]
    if d.chance(1, 2):
        pair = pair[::-1]
    v, i = (float(x) for x in O.box3d_overlap(*pair))
    v /= size**3
    want = inter, inter / (np.prod(s1) + np.prod(s2) - inter)
    gaps = np.abs(np.concatenate([c1 + a * s1 / 2 - c2 - b * s2 / 2 for a in (-1, 1) for b in (-1, 1)]))
    near = bool(((gaps > 1e-9) & (gaps < 0.02)).any())
    ctx.state("boxes", gap, axis)
    ctx.count("close_boxes")
    ctx.check(abs(v - want[0]) < 0.02 and abs(i - want[1]) < 0.02, "faces-almost-in-one-plane" if near else "wrong-overlap", (v, i), want, gap)


META = {
    "rule": "a run is one seed: an operator or loss (nearest neighbours, ball query, farthest points, chamfer, point-mesh and mesh losses, packing, alignment, ICP, PnP, normals, splatting to volumes, "
    "vert_align, graph convolution, cubify, marching cubes, subdivision, smoothing, boxes, face attributes, Laplacians, areas) with its settings, 1-4 elements of different sizes (empty ones where allowed), "
    "arranged in a batch (permuted, repeated, padded with zeros, noise, huge values or copies of the elements, other strides); failing allocations, interruptions or a second thread, after or under which "
    "the batch is computed; nontrivial = at least two elements in the batch",
    "state_measure": "distinct (operator, settings) and distinct thread schedules",
    "real": "pytorch3d.ops, pytorch3d.loss and their C++ (CPU), structures; compiled from the working tree",
    "stub": "scheduler for threads; allocator failures are injected into torch operations",
    "assumptions": [
        "meshes without thin faces, neighbourhoods with a clear normal, points not half-way between voxels (in nearest mode): elsewhere single precision decides",
        "box3d_overlap with faces 0 to 0.02 apart and parallel is known to be inexact (known finding), such pairs are judged in a scenario of their own",
        "chamfer_distance where all weights are zero has another shape (fixed by upstream tests) and is left out, as are isolated vertices in taubin_smoothing",
        "gradients are compared with differences of the reference where those agree for two step sizes",
    ],
    "level": "exploration",
}
SCENARIOS = [
    Scenario("batch", run, 8000, 400000),
    Scenario("close_boxes", close_boxes, 200, 4000),
]
