"""C21: a voxel grid field keeps its contents where they are, through changes of
resolution, cropping, scaffolds, saving and loading, failures and copies."""

import copy
import io
import itertools
import os
import warnings

import numpy as np
import torch

from .. import threads as th
from ..core import Scenario

th.install()

from pytorch3d.implicitron.models.implicit_function.voxel_grid import VoxelGridModule  # noqa: E402
from pytorch3d.implicitron.models.implicit_function.voxel_grid_implicit_function import (  # noqa: E402
    VoxelGridImplicitFunction,
)
from pytorch3d.implicitron.models.renderer.base import ImplicitronRayBundle  # noqa: E402
from pytorch3d.implicitron.tools.config import expand_args_fields, get_default_args  # noqa: E402
from pytorch3d.renderer import PerspectiveCameras  # noqa: E402
from pytorch3d.transforms import random_rotations  # noqa: E402

PROPERTY = "C21"
FILES = [os.path.join(th.REPO, "pytorch3d") + os.sep]
expand_args_fields(VoxelGridModule)
expand_args_fields(VoxelGridImplicitFunction)


# ---------------------------------------------------------------- reference
def axis_weights(x, n, align, padding):
    """the interpolation weights (points, n) of local coordinates along an axis of n voxels"""
    t = (x + 1) / 2 * (n - 1) if align else ((x + 1) * n - 1) / 2
    if padding == "border":
        t = np.clip(t, 0, n - 1)
    lo = np.floor(t)
    W = np.zeros((len(x), n))
    for i, w in ((lo, lo + 1 - t), (lo + 1, t - lo)):
        ok = (i >= 0) & (i <= n - 1)
        W[np.nonzero(ok)[0], i[ok].astype(int)] += w[ok]
    return W


AXES = dict(
    voxel_grid="xyz",
    vector_components_x="x",
    vector_components_y="y",
    vector_components_z="z",
    matrix_components_xy="xy",
    matrix_components_yz="yz",
    matrix_components_xz="xz",
)


class Snapshot:
    """a grid as it is now: its values, where it is and how it interpolates"""

    def __init__(self, m):
        self.values = {
            k.split("params.")[1]: v.detach().double().numpy().copy()
            for k, v in m.state_dict().items()
            if k.startswith("params.")
        }
        self.extents = np.array([float(e) for e in m.extents])
        self.translation = np.array([float(t) for t in m.translation])
        self.align = m.voxel_grid.align_corners
        self.padding = m.voxel_grid.padding
        self.res = {}
        for k, v in self.values.items():
            for ax, n in zip(AXES.get(k, ""), v.shape[2:]):
                self.res[ax] = n

    def local(self, p):
        return (p - self.translation) / (self.extents / 2)

    def at(self, p):
        """the field at the points (n, 3)"""
        q = self.local(p)
        W = {ax: axis_weights(q[:, i], self.res[ax], self.align, self.padding) for i, ax in enumerate("xyz")}
        v = {k: a[0] for k, a in self.values.items()}
        if "voxel_grid" in v:
            return np.einsum("fxyz,nx,ny,nz->nf", v["voxel_grid"], W["x"], W["y"], W["z"], optimize=True)

        def vec(ax):
            return np.einsum("ca,na->nc", v["vector_components_" + ax], W[ax])

        def mat(a, b):
            return np.einsum("cab,na,nb->nc", v[f"matrix_components_{a}{b}"], W[a], W[b])

        if "matrix_components_xy" in v:
            f = np.concatenate((mat("x", "y") * vec("z"), mat("x", "z") * vec("y"), mat("y", "z") * vec("x")), 1)
        else:
            f = vec("x") * vec("y") * vec("z")
        return f @ v["basis_matrix"] if "basis_matrix" in v else f.sum(1, keepdims=True)

    def hull(self):
        """the box spanned by the centers of the voxels, and the distances between them"""
        n = np.array([self.res[a] for a in "xyz"])
        if self.align:
            half, step = self.extents / 2, self.extents / np.maximum(n - 1, 1)
        else:
            half, step = self.extents / 2 * (n - 1) / n, self.extents / n
        return self.translation - half, self.translation + half, step

    def nodes(self):
        n = [self.res[a] for a in "xyz"]
        lo, hi, _ = self.hull()
        ax = [np.linspace(a, b, k) for a, b, k in zip(lo, hi, n)]
        return np.stack(np.meshgrid(*ax, indexing="ij"), -1)

    def scale(self):
        return 1 + max(float(np.abs(v).max()) for v in self.values.values()) ** 3 * 10


def inside(p, lo, hi, eps=1e-5):
    return ((p >= lo + eps * np.abs(hi - lo)) & (p <= hi - eps * np.abs(hi - lo))).all(-1)


def call(m, p):
    return m(torch.tensor(np.asarray(p), dtype=torch.float32)).detach().double().numpy()


def close(a, b, tol):
    return bool((np.abs(a - b) <= tol).all())


# ---------------------------------------------------------------- grids
def draw_grid(d, res=None, feats=None, extents=None, translation=None):
    kind = d.pick(["FullResolutionVoxelGrid", "CPFactorizedVoxelGrid", "VMFactorizedVoxelGrid"])
    draw_res = lambda: [d.weighted([0, 1, 3, 3, 3, 2, 2, 2]) for _ in "xyz"]  # noqa: E731
    basis = d.chance(2, 3)
    f = feats or d.integer(1, 3)
    if kind != "FullResolutionVoxelGrid" and not basis:
        f = 1
    align = d.chance(2, 3)
    a = dict(
        align_corners=align,
        padding=d.pick(["zeros", "border"]),
        n_features=f,
        resolution_changes={e: draw_res() for e in [0] + sorted({d.integer(1, 6) for _ in range(d.choice(4))})},
    )
    if not align:
        # the ends of an axis are its outermost voxels' sides: one voxel is not a field
        a["resolution_changes"] = {e: [max(2, n) for n in r] for e, r in a["resolution_changes"].items()}
    if d.chance(1, 3):
        # in the order in which someone wrote them
        a["resolution_changes"] = {e: a["resolution_changes"][e] for e in d.shuffle(list(a["resolution_changes"]))}
    if kind == "CPFactorizedVoxelGrid":
        a.update(n_components=d.integer(1, 3), basis_matrix=basis)
    if kind == "VMFactorizedVoxelGrid":
        a["basis_matrix"] = basis
        if d.chance(1, 2):
            a["n_components"] = 3 * d.integer(1, 2)
        else:
            a["distribution_of_components"] = tuple(d.integer(1, 3) for _ in range(3))
    return {
        "voxel_grid_class_type": kind,
        f"voxel_grid_{kind}_args": a,
        "extents": extents or tuple(d.pick([2.0, 1.0, 0.7, 3.0]) for _ in "xyz"),
        "translation": translation or tuple(d.pick([0.0, 0.0, 0.4, -1.3]) for _ in "xyz"),
        "init_std": 0.7,
        "init_mean": d.pick([0.0, 0.3]),
        "hold_voxel_grid_as_parameters": d.chance(3, 4),
    }


def affine(m, rs):
    """gives the grid values which are affine in the index along each axis: a field whose
    interpolation is the same at every resolution"""
    sd = m.state_dict()
    for k, v in sd.items():
        name = k.split("params.")[-1]
        if name in AXES:
            c = torch.tensor(rs.uniform(-1, 1, size=v.shape[:2] + (2,) * len(AXES[name])), dtype=v.dtype)
            for i, n in enumerate(v.shape[2:]):
                t = torch.linspace(0, 1, n, dtype=v.dtype) if n > 1 else torch.zeros(1, dtype=v.dtype)
                c0, c1 = c.select(2 + i, 0), c.select(2 + i, 1)
                shape = [1] * c0.ndim
                shape.insert(2 + i, n)
                t = t.reshape(shape)
                c = c0.unsqueeze(2 + i) * (1 - t) + c1.unsqueeze(2 + i) * t
            v.copy_(c)


def build(cfg):
    return VoxelGridModule(**copy.deepcopy(cfg))


def nodes_are_values(ctx, m, S, epoch, what):
    """the documented places of the voxels are where the field has their values"""
    g = m.get_grid_points(epoch).double().numpy()
    want = tuple(S.res[a] for a in "xyz")
    ctx.check(g.shape == want + (3,), "grid-points-of-another-resolution", what, g.shape, want)
    multi = np.array([n > 1 for n in want])
    ctx.check(close(g[..., multi], S.nodes()[..., multi], 1e-4), "grid-points-misplaced", what)
    return g


def preserved(ctx, old, new, f, what, box=None, smooth=False, rs=None):
    """what a grid of other values contains is what it has contained, between the old
    voxels (and in the box): at its own voxels, and everywhere if it is smooth"""
    lo, hi, st0 = old.hull()
    nlo, nhi, st1 = new.hull()
    tol = 1e-4 * old.scale()
    for i, a in enumerate("xyz"):
        if old.res[a] == 1:  # constant along the axis
            lo[i], hi[i] = -np.inf, np.inf
    p = new.nodes().reshape(-1, 3)
    ok = (p >= lo - 1e-6).all(1) & (p <= hi + 1e-6).all(1)
    if box is not None:
        ok &= (p >= box[0] - 1e-6).all(1) & (p <= box[1] + 1e-6).all(1)
    p = np.clip(p[ok], lo, hi)
    if not old.align:  # rounding at the edge of what is defined
        p = np.clip(p, lo + 1e-6, hi - 1e-6)
    if len(p):
        q = np.clip(p, nlo, nhi)
        ctx.check(close(f(q), old.at(p), tol), "field-moved", what, float(np.abs(f(q) - old.at(p)).max()))
        ctx.count("preserved_voxels", len(p))
    if smooth and all(new.res[a] > 1 or old.res[a] == 1 for a in "xyz"):
        eps = 1e-4
        m0 = np.where(np.isfinite(lo), np.maximum(lo, nlo), nlo)
        m1 = np.where(np.isfinite(hi), np.minimum(hi, nhi), nhi)
        if not new.align:
            m0, m1 = m0 + st1, m1 - st1
        if box is not None:
            b0, b1 = box if new.align else (box[0] + st1, box[1] - st1)
            m0, m1 = np.maximum(m0, b0), np.minimum(m1, b1)
        if (m1 - m0 > 2 * eps).all():
            p = rs.uniform(m0 + eps, m1 - eps, size=(12, 3))
            e = np.abs(f(p) - old.at(p)).max()
            ctx.check(e <= tol, "field-distorted", what, float(e))
            ctx.count("preserved_points", len(p))


def draw_box(d, S):
    """two corners of a box to crop to, some at voxels, some outside of the grid"""
    lo, hi = S.translation - S.extents / 2, S.translation + S.extents / 2
    a, b = np.zeros(3), np.zeros(3)
    nodes = S.nodes()
    for i in range(3):
        while True:
            v = []
            for _ in "ab":
                if d.chance(1, 3):
                    n = nodes[..., i]
                    v.append(float(np.unique(n)[d.choice(len(np.unique(n)))]))
                else:
                    v.append(float(lo[i] + (hi[i] - lo[i]) * (d.choice(141) - 20) / 100))
            v = sorted(v)
            inner = min(v[1], hi[i]) - max(v[0], lo[i])
            if inner > 0.02 * (hi[i] - lo[i]):
                break
        a[i], b[i] = v
    return a, b


def attempt(d, ctx, fn, whole=True):
    """runs fn, maybe failing in an allocation or interrupted -> (completed, value)"""
    how = d.weighted([6, 2, 1 if whole else 0])
    if how == 0:
        return True, fn()
    if how == 1:
        r = None
        with th.OpFaults(1 + d.choice(12)) as f:
            try:
                r = fn()
            except (th.AllocFail, RuntimeError):
                if not f.fired:
                    raise
        if f.fired:
            ctx.fault("alloc_failure")
            return False, r
        return True, r
    (ok, r), fired = th.interrupted(fn, FILES, 1 + d.gap(7))
    if fired:
        ctx.fault("interrupt")
    elif ok != "ok":
        raise r
    return not fired, r


def reload(d, sd):
    """a state dict which went through a file"""
    if d.chance(1, 2):
        return copy.deepcopy(sd)
    b = io.BytesIO()
    torch.save(sd, b)
    b.seek(0)
    return torch.load(b, weights_only=False)


def grid(d, ctx):
    torch.manual_seed(d.seed32())
    rs = np.random.RandomState(d.seed32())
    cfg = draw_grid(d)
    m = build(cfg)
    kind = cfg["voxel_grid_class_type"]
    changes = cfg[f"voxel_grid_{kind}_args"]["resolution_changes"]
    epoch = 0
    smooth = d.chance(1, 2)
    if smooth:
        affine(m, rs)
    saved = []
    cropped = False

    def judge(what):
        S = Snapshot(m)
        lo, hi = S.translation - 0.7 * S.extents, S.translation + 0.7 * S.extents
        p = rs.uniform(lo, hi, size=(2, 3, 3))
        t = torch.tensor(np.ascontiguousarray(p.transpose(1, 0, 2)), dtype=torch.float32).transpose(0, 1) if d.chance(1, 4) else torch.tensor(p, dtype=torch.float32)
        got = m(t).detach().double().numpy()
        want = S.at(p.reshape(-1, 3)).reshape(*p.shape[:-1], -1)
        # a jump at the border of a grid padded with zeros
        edge = (np.abs(np.abs(S.local(p)) - 1) < 1e-4).any(-1)
        ctx.check(close(got[~edge], want[~edge], 1e-4 * S.scale()), "field-is-not-its-values", what)
        nodes_are_values(ctx, m, S, epoch, what)
        return S

    S = judge("new")
    for _ in range(d.integer(2, 8)):
        op = d.weighted([3, 3, 2, 2, 1, 1, 1])
        ctx.event("op", op, epoch)
        old = Snapshot(m)
        if op == 0:  # the next epochs
            wanted, cb = m.subscribe_to_epochs()
            ctx.check(set(wanted) == set(changes), "subscribed-epochs", wanted)
            e = epoch + d.integer(1, 3)
            completed, r = attempt(d, ctx, lambda: cb(e), whole=False)
            if not completed:
                # nothing has changed
                ctx.check(all(np.array_equal(a, b) for a, b in zip(old.values.values(), Snapshot(m).values.values())), "failed-change-of-resolution")
                judge("failed epoch")
                r = cb(e)
            ctx.check(bool(r) == (e in changes and cfg["hold_voxel_grid_as_parameters"]), "parameter-change-flag", r)
            epoch_before, epoch = epoch, e
            S = Snapshot(m)
            if e not in changes:
                # only what happens at a subscribed epoch changes the grid
                epoch = epoch_before
                ctx.check(all(np.array_equal(a, b) for a, b in zip(old.values.values(), S.values.values())), "resolution-changed-at-other-epoch")
            else:
                ctx.check([S.res[a] for a in "xyz"] == list(changes[e]), "resolution-of-epoch", S.res)
                ctx.check(np.array_equal(S.extents, old.extents) and np.array_equal(S.translation, old.translation), "grid-relocated")
                preserved(ctx, old, S, lambda p: call(m, p), "resolution", smooth=smooth, rs=rs)
                # beyond the outermost voxels nothing is defined, which new ones repeat
                smooth = smooth and old.align
                ctx.count("resolution_changes")
        elif op == 1:  # crop
            a, b = draw_box(d, old)
            ta, tb = torch.tensor(a, dtype=torch.float32), torch.tensor(b, dtype=torch.float32)
            ctx.event("crop", [round(float(x), 6) for x in (*a, *b)], old.res, old.align, old.padding, old.extents.tolist(), old.translation.tolist())
            completed, _r = attempt(d, ctx, lambda: m.crop_self(ta, tb), whole=False)
            if not completed:
                S = judge("failed crop")
                ctx.check(all(np.array_equal(x, y) for x, y in zip(old.values.values(), S.values.values())), "failed-crop-changed")
                m.crop_self(ta, tb)
            S = Snapshot(m)
            ctx.check(S.res == old.res, "crop-changed-resolution", S.res, old.res)
            lo, hi = S.translation - S.extents / 2, S.translation + S.extents / 2
            olo, ohi = old.translation - old.extents / 2, old.translation + old.extents / 2
            tol = 1e-5 * old.extents + 1e-6
            ctx.check((lo >= olo - tol).all() and (hi <= ohi + tol).all(), "cropped-grid-is-larger")
            ctx.check((lo <= np.maximum(a, olo) + tol).all() and (hi >= np.minimum(b, ohi) - tol).all(), "cropped-grid-lacks-the-box")
            _, _, st = old.hull()
            ctx.check(
                (lo >= np.maximum(a, olo) - 1.6 * st - tol).all() and (hi <= np.minimum(b, ohi) + 1.6 * st + tol).all()
                or min(S.res.values()) == 1,
                "grid-is-not-cropped",
            )
            preserved(ctx, old, S, lambda p: call(m, p), "crop", box=(a, b), smooth=smooth, rs=rs)
            kinds = {type(x).__name__ for x in m.parameters()}
            ctx.check(bool(kinds) == cfg["hold_voxel_grid_as_parameters"], "crop-changed-parameters-to-buffers")
            cropped = True
            smooth = smooth and old.align
            ctx.count("crops")
        elif op == 2:  # save, and load into another
            sd = m.state_dict()
            n = build(cfg)
            if d.chance(1, 3):
                # one with a history of its own
                if d.chance(1, 2):
                    n.crop_self(*(torch.tensor(x, dtype=torch.float32) for x in draw_box(d, Snapshot(n))))
                for e in sorted(changes)[: d.choice(3)]:
                    n.subscribe_to_epochs()[1](e)
            completed, _r = attempt(d, ctx, lambda: n.load_state_dict(reload(d, sd)))
            if not completed:
                n.load_state_dict(reload(d, sd))
            p = torch.tensor(rs.uniform(-1.5, 1.5, size=(7, 3)) * old.extents + old.translation, dtype=torch.float32)
            ctx.check(torch.equal(m(p), n(p)), "reloaded-grid-differs", cropped)
            saved.append((reload(d, sd), epoch, smooth, cropped, m(p).detach(), p))
            if d.chance(1, 2):
                m = n
            ctx.count("reloads")
        elif op == 3 and saved:  # back to a checkpoint
            sd, epoch, smooth, cropped, want, p = d.pick(saved)
            m.load_state_dict(copy.deepcopy(sd))
            ctx.check(torch.equal(m(p), want), "rolled-back-grid-differs", cropped)
            ctx.count("rollbacks")
        elif op == 4:  # a copy which changes
            c = copy.deepcopy(m)
            p = torch.tensor(rs.uniform(-1, 1, size=(7, 3)), dtype=torch.float32)
            before = m(p).detach()
            ctx.check(torch.equal(c(p), before), "copy-differs")
            c.crop_self(*(torch.tensor(x, dtype=torch.float32) for x in draw_box(d, old)))
            with torch.no_grad():
                for v in itertools.chain(c.parameters(), c.buffers()):
                    v += 1
            ctx.check(torch.equal(m(p), before), "copy-is-shared")
        elif op == 5:  # training
            if cfg["hold_voxel_grid_as_parameters"]:
                opt = torch.optim.SGD(m.parameters(), lr=0.1)
                p = torch.tensor(rs.uniform(-0.5, 0.5, size=(9, 3)) * old.extents + old.translation, dtype=torch.float32)
                loss = (m(p) ** 2).mean()
                opt.zero_grad()
                loss.backward()
                opt.step()
                # towards lower loss, for a small step, unless nothing is there
                ctx.check(all(v.grad is not None for v in m.parameters()), "grid-values-without-gradient")
                smooth = False
        else:  # at once
            p = [torch.tensor(rs.uniform(-1, 1, size=(5, 3)), dtype=torch.float32) for _ in range(2)]
            alone = [m(q).detach() for q in p]
            sch = th.Sched(FILES, th.draw_preemptions(d, 2, 0, 24, 10))
            res = sch.run([lambda q=q: m(q).detach() for q in p])
            if sch.di:
                ctx.fault("preemption", sch.di)
            ctx.state("sched", tuple(sch.trail))
            for (ok, r), w in zip(res, alone):
                ctx.check(ok == "ok" and torch.equal(r, w), "concurrent-call-differs", repr(r)[:100])
        judge(op)
        ctx.state(kind, old.align, old.padding, op, smooth, cropped)
    ctx.nontrivial = True


# ---------------------------------------------------------------- fields
ACT = dict(
    RELU=lambda x: np.maximum(x, 0),
    SOFTPLUS=lambda x: np.log1p(np.exp(-np.abs(x))) + np.maximum(x, 0),
    SIGMOID=lambda x: 1 / (1 + np.exp(-x)),
    IDENTITY=lambda x: x,
)


def harmonic(x, n, append, omega0=1.0, logspace=True):
    w = omega0 * (2.0 ** np.arange(n) if logspace else np.linspace(1.0, 2.0 ** (n - 1), n))
    e = (x[..., None] * w).reshape(*x.shape[:-1], -1)
    parts = [np.sin(e), np.cos(e)] if n else []
    return np.concatenate(parts + ([x] if append else []), -1)


def decode(spec, sd, x):
    if spec["kind"] == "ElementwiseDecoder":
        return ACT[spec["op"]](x * spec["scale"] + spec["shift"])
    n = spec["n_layers"]
    z, y = x, x
    for i in range(n):
        if i in spec["skips"]:
            y = np.concatenate((y, z), -1)
        W, b = (sd[f"network.mlp.{i}.0.{k}"].detach().double().numpy() for k in ("weight", "bias"))
        y = ACT["RELU" if i + 1 < n else spec["op"]](y @ W.T + b)
    return y


def draw_decoder(d, dim_in, dim_out):
    op = d.pick(["RELU", "SOFTPLUS", "SIGMOID", "IDENTITY"])
    if dim_in == dim_out and d.chance(1, 2):
        return dict(kind="ElementwiseDecoder", op=op, scale=d.pick([1.0, 2.0, -0.5]), shift=d.pick([0.0, 0.5, -0.5]))
    n = d.integer(1, 3)
    return dict(kind="MLPDecoder", op=op, n_layers=n, hidden=d.integer(2, 5), skips=tuple(i for i in range(1, n) if d.chance(1, 3)), out=dim_out, inp=dim_in)


def set_decoder(a, name, s):
    a[f"decoder_{name}_class_type"] = s["kind"]
    da = a[f"decoder_{name}_{s['kind']}_args"]
    if s["kind"] == "ElementwiseDecoder":
        da.update(operation=s["op"], scale=s["scale"], shift=s["shift"])
    else:
        da.network_args.update(
            n_layers=s["n_layers"], hidden_dim=s["hidden"], input_skips=s["skips"], output_dim=s["out"], last_activation=s["op"], skip_dim=s["inp"]
        )


class Field:
    """a configuration of a VoxelGridImplicitFunction and its reference"""

    def __init__(self, d):
        a = get_default_args(VoxelGridImplicitFunction)
        self.emb = {}
        feats = {}
        same = d.chance(2, 3)
        self.grids = {}
        for g in ("density", "color"):
            first = self.grids.get("density")
            cfg = draw_grid(
                d,
                feats=1 if g == "density" and d.chance(1, 2) else None,
                extents=first["extents"] if first and same else None,
                translation=first["translation"] if first and same else None,
            )
            cfg["hold_voxel_grid_as_parameters"] = True
            kind = cfg["voxel_grid_class_type"]
            va = cfg[f"voxel_grid_{kind}_args"]
            feats[g] = va["n_features"]
            self.grids[g] = cfg
            v = a[f"voxel_grid_{g}_args"]
            for k, x in cfg.items():
                if k.endswith("_args"):
                    for kk, xx in x.items():
                        v[k][kk] = xx
                else:
                    v[k] = x
        for e, dim in (("xyz_density", feats["density"]), ("xyz_color", feats["color"]), ("dir_color", 3)):
            n = d.weighted([3, 1, 1])
            self.emb[e] = (n, n == 0 or d.chance(1, 2), d.pick([1.0, 0.3]))
            ea = a[f"harmonic_embedder_{e}_args"]
            ea.n_harmonic_functions, ea.append_input, ea.omega_0 = self.emb[e]
        dim = lambda e, k: k * (2 * self.emb[e][0] + int(self.emb[e][1]))  # noqa: E731
        self.dec = dict(
            density=draw_decoder(d, dim("xyz_density", feats["density"]), 1),
            color=draw_decoder(d, dim("xyz_color", feats["color"]) + dim("dir_color", 3), 3),
        )
        for k, s in self.dec.items():
            set_decoder(a, k, s)
        self.thr = d.pick([0.001, 0.3, 0.6])
        self.kernel = d.pick([1, 3, 5])
        self.res = [d.integer(2, 6) for _ in "xyz"]
        self.filter = d.chance(3, 4)
        self.in_camera = d.chance(1, 4)
        a.scaffold_empty_space_threshold = self.thr
        a.scaffold_max_pool_kernel_size = self.kernel
        a.scaffold_resolution = tuple(self.res)
        a.scaffold_filter_points = self.filter
        a.scaffold_occupancy_chunk_size = d.pick([-1, 1, 2, 3, 100])
        a.xyz_ray_dir_in_camera_coords = self.in_camera
        a.scaffold_calculating_epochs = tuple(sorted({d.integer(0, 6) for _ in range(d.integer(1, 3))}))
        a.volume_cropping_epochs = tuple(sorted({d.integer(a.scaffold_calculating_epochs[0], 7) for _ in range(d.integer(0, 2))}))
        self.args = a
        c = self.grids["density"]
        self.lo = np.array(c["translation"]) - np.array(c["extents"]) / 2
        self.hi = np.array(c["translation"]) + np.array(c["extents"]) / 2
        self.occupied = None  # of the scaffold, once calculated
        self.known = True

    def make(self):
        return VoxelGridImplicitFunction(**copy.deepcopy(self.args))

    def density(self, m, p):
        S = Snapshot(m.voxel_grid_density)
        return decode(self.dec["density"], m.decoder_density.state_dict(), harmonic(S.at(p), *self.emb["xyz_density"]))

    def color(self, m, p, dirs):
        S = Snapshot(m.voxel_grid_color)
        x = harmonic(S.at(p), *self.emb["xyz_color"])
        n = dirs / np.maximum(np.linalg.norm(dirs, axis=-1, keepdims=True), 1e-12)
        return decode(self.dec["color"], m.decoder_color.state_dict(), np.concatenate((x, harmonic(n, *self.emb["dir_color"])), -1))

    def scaffold_nodes(self):
        ax = [np.linspace(a, b, k) for a, b, k in zip(self.lo, self.hi, self.res)]
        return np.stack(np.meshgrid(*ax, indexing="ij"), -1)

    def calculate(self, m):
        """the voxels of the scaffold which are not empty now"""
        p = self.scaffold_nodes()
        # the outermost ones are at the very edge of the density grid
        eps = 1e-6 * (self.hi - self.lo)
        dens = [self.density(m, np.clip(p, self.lo + s, self.hi - s).reshape(-1, 3)).max(-1).reshape(self.res) for s in (eps, 0 * eps)]
        S = Snapshot(m.voxel_grid_density)
        # rounding decides what is at the edge of a cropped grid padded with zeros
        lo, hi = S.translation - S.extents / 2, S.translation + S.extents / 2
        near = ((np.abs(p - lo) < 1e-4) | (np.abs(p - hi) < 1e-4)).any(-1)
        k = self.kernel // 2
        occ = np.zeros(self.res, bool)
        sure = np.ones(self.res, bool)
        for i in np.ndindex(*self.res):
            w = tuple(slice(max(0, j - k), j + k + 1) for j in i)
            top = dens[0][w].max()
            occ[i] = top > self.thr
            margin = 1e-4 * (1 + abs(top))
            sure[i] = abs(top - self.thr) > margin
            if near[w].any() and S.padding == "zeros":
                far = np.where(near[w], -np.inf, dens[0][w]).max()
                sure[i] = sure[i] and far > self.thr + margin
        self.occupied = occ
        self.known = bool(sure.all())

    def empty(self, p):
        """-> (is the point in empty space, is that certain)"""
        e, _ = self.hi - self.lo, None
        t = (p - self.lo) / e * (np.array(self.res) - 1)
        sure = (np.abs(t - np.round(t)) > 1e-4).all(-1)
        W = [axis_weights((p[:, i] - self.lo[i]) / e[i] * 2 - 1, self.res[i], True, "zeros") for i in range(3)]
        v = np.einsum("xyz,nx,ny,nz->n", self.occupied.astype(float), *W, optimize=True)
        return v <= 0, sure


def bundle(rs, F, b, r):
    c, e = (F.lo + F.hi) / 2, F.hi - F.lo
    o = c + rs.uniform(-0.6, 0.6, size=(b, r, 3)) * e
    dr = rs.normal(size=(b, r, 3)) * 0.5
    t = np.sort(rs.uniform(0, 1.0, size=(b, r, 3)), -1)
    f = lambda x: torch.tensor(x, dtype=torch.float32)  # noqa: E731
    return ImplicitronRayBundle(origins=f(o), directions=f(dr), lengths=f(t), xys=torch.zeros(b, r, 2))


def run(m, rb, cam):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        dens, col, aux = m(ray_bundle=rb, camera=cam)
    return dens.detach(), col.detach()


def field(d, ctx):
    torch.manual_seed(d.seed32())
    rs = np.random.RandomState(d.seed32())
    F = Field(d)
    m = F.make()
    if d.chance(1, 3):
        affine(m.voxel_grid_density, rs)
    if d.chance(1, 3):
        # an object in empty space
        with torch.no_grad():
            for g in m.voxel_grid_density.parameters():
                if g.ndim == 5:
                    g.copy_(torch.where(torch.rand_like(g) < 0.8, torch.zeros_like(g), g.abs() + 1))
    ready = False
    epoch = -1
    saved = []

    def judge(what):
        b, r = d.integer(1, 2), d.integer(1, 4)
        rb = bundle(rs, F, b, r)
        R = random_rotations(b)
        cam = PerspectiveCameras(R=R) if F.in_camera else None
        dens, col = run(m, rb, cam)
        ctx.check(dens.shape[:-1] == (b, r, 3) and col.shape == (b, r, 3, 3), "shape-of-densities-or-colors", dens.shape, col.shape)
        p = (rb.origins[..., None, :] + rb.lengths[..., None] * rb.directions[..., None, :]).double().numpy().reshape(-1, 3)
        dirs = rb.directions.double()
        if F.in_camera:
            dirs = dirs @ R.double()
        dirs = dirs[:, :, None].expand(b, r, 3, 3).reshape(-1, 3).numpy()
        wd, wc = F.density(m, p), F.color(m, p, dirs)
        ok = np.ones(len(p), bool)
        for g in (m.voxel_grid_density, m.voxel_grid_color):
            ok &= (np.abs(np.abs(Snapshot(g).local(p)) - 1) > 1e-4).all(-1)
        hidden = np.zeros(len(p), bool)
        if ready and F.filter:
            if not F.known:
                ctx.count("scaffold_too_close")
                hidden = None
            else:
                hidden, sure = F.empty(p)
                ok &= sure
        gd, gc = dens.double().numpy().reshape(len(p), -1), col.double().numpy().reshape(len(p), -1)
        tol = 2e-3 * max(Snapshot(m.voxel_grid_density).scale(), Snapshot(m.voxel_grid_color).scale())
        if hidden is None:
            zero = (gd == 0).all(-1) & (gc == 0).all(-1)
            wd, wc = np.where(zero[:, None], 0, wd), np.where(zero[:, None], 0, wc)
        else:
            wd, wc = np.where(hidden[:, None], 0, wd), np.where(hidden[:, None], 0, wc)
            ctx.count("hidden_points", int(hidden.sum()))
        ctx.check(close(gd[ok], wd[ok], tol), "density-differs", what, float(np.abs(gd - wd)[ok].max(initial=0)))
        ctx.check(close(gc[ok], wc[ok], tol), "color-differs", what, float(np.abs(gc - wc)[ok].max(initial=0)))
        ctx.count("points", int(ok.sum()))
        # the same for each ray on its own
        if d.chance(1, 3):
            i, j = d.choice(b), d.choice(r)
            one = ImplicitronRayBundle(*(getattr(rb, k)[i : i + 1, j : j + 1] for k in ("origins", "directions", "lengths", "xys")))
            a = run(m, one, PerspectiveCameras(R=R[i : i + 1]) if cam is not None else None)
            for x, y in zip(a, (dens, col)):
                ctx.check(torch.allclose(x[0, 0], y[i, j], atol=1e-4, rtol=1e-4), "depends-on-other-rays")
        return rb, cam, (dens, col)

    rb, cam, out = judge("new")
    sc_epochs, crop_epochs = tuple(F.args.scaffold_calculating_epochs), tuple(F.args.volume_cropping_epochs)
    for _ in range(d.integer(3, 9)):
        op = d.weighted([5, 2, 1, 1, 1, 1, 1])
        ctx.event("op", op, epoch)
        if op == 0:  # an epoch begins
            epoch += 1
            wanted, cb = m.subscribe_to_epochs()
            ctx.check(set(wanted) == set(sc_epochs) | set(crop_epochs), "subscribed-epochs", wanted)
            if epoch in wanted:
                before = {g: Snapshot(getattr(m, "voxel_grid_" + g)) for g in ("density", "color")}
                if epoch in sc_epochs:
                    F.calculate(m)
                    ready = True
                    ctx.count("scaffolds")
                completed, r = attempt(d, ctx, lambda: cb(epoch), whole=False)
                if not completed:
                    if epoch in crop_epochs:
                        # whatever was cropped before the failure is what will be there
                        break
                    r = cb(epoch)
                crops = epoch in crop_epochs
                if F.known:
                    crops = crops and F.occupied.any()
                    ctx.check(bool(r) == bool(crops), "parameter-change-flag", r)
                elif not r:
                    crops = False
                for g, o in before.items():
                    mod = getattr(m, "voxel_grid_" + g)
                    n = Snapshot(mod)
                    if not crops:
                        ctx.check(all(np.array_equal(x, y) for x, y in zip(o.values.values(), n.values.values())), "grid-changed-at-other-epoch", g)
                    else:
                        ctx.check(n.res == o.res, "crop-changed-resolution")
                        if F.known:
                            idx = np.argwhere(F.occupied)
                            nodes = F.scaffold_nodes()
                            lo, hi = nodes[tuple(idx.min(0))], nodes[tuple(idx.max(0))]
                            olo, ohi = o.translation - o.extents / 2, o.translation + o.extents / 2
                            nlo, nhi = n.translation - n.extents / 2, n.translation + n.extents / 2
                            preserved(ctx, o, n, lambda p: call(mod, p), "crop " + g, box=(lo, hi))
                            tol = 1e-4
                            ctx.check((nlo <= np.maximum(lo, olo) + tol).all() and (nhi >= np.minimum(hi, ohi) - tol).all(), "object-outside-of-the-crop", g)
                        ctx.count("crops")
            for g in ("density", "color"):
                ep, cb = getattr(m, "voxel_grid_" + g).subscribe_to_epochs()
                if epoch in ep:
                    o = Snapshot(getattr(m, "voxel_grid_" + g))
                    cb(epoch)
                    mod = getattr(m, "voxel_grid_" + g)
                    preserved(ctx, o, Snapshot(mod), lambda p: call(mod, p), "resolution " + g)
        elif op == 1:  # save and load into another
            sd = m.state_dict()
            n = F.make()
            completed, _r = attempt(d, ctx, lambda: n.load_state_dict(reload(d, sd)))
            if not completed:
                n.load_state_dict(reload(d, sd))
            a, b = run(m, rb, cam), run(n, rb, cam)
            ctx.check(all(torch.equal(x, y) for x, y in zip(a, b)), "reloaded-field-differs", ready)
            saved.append((reload(d, sd), ready, F.occupied, F.known, epoch, a, rb, cam))
            if d.chance(1, 2):
                m = n
            ctx.count("reloads")
        elif op == 2 and saved:  # back to a checkpoint
            sd, ready, F.occupied, F.known, epoch, want, qb, qc = d.pick(saved)
            m.load_state_dict(copy.deepcopy(sd))
            a = run(m, qb, qc)
            ctx.check(all(torch.equal(x, y) for x, y in zip(a, want)), "rolled-back-field-differs", ready)
        elif op == 3:  # a forward which fails
            want = run(m, rb, cam)
            completed, r = attempt(d, ctx, lambda: run(m, rb, cam))
            for r in [r] * completed + [run(m, rb, cam)]:
                ctx.check(all(torch.equal(x, y) for x, y in zip(r, want)), "differs-after-a-failure")
        elif op == 4:  # a copy
            c = copy.deepcopy(m)
            want = run(m, rb, cam)
            ctx.check(all(torch.equal(x, y) for x, y in zip(run(c, rb, cam), want)), "copy-differs")
            with torch.no_grad():
                for v in c.parameters():
                    v += 1
            if epoch >= 0:
                for e in range(8):
                    if e in sc_epochs:
                        c.subscribe_to_epochs()[1](e)
            ctx.check(all(torch.equal(x, y) for x, y in zip(run(m, rb, cam), want)), "copy-is-shared")
        elif op == 5:  # training
            opt = torch.optim.SGD(m.parameters(), lr=0.05)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                dens, col, _ = m(ray_bundle=rb, camera=cam)
            if dens.requires_grad:
                (dens.mean() + (col**2).mean()).backward()
                opt.step()
        else:
            want = run(m, rb, cam)
            sch = th.Sched(FILES, th.draw_preemptions(d, 2, 0, 24, 11))
            res = sch.run([lambda: run(m, rb, cam)] * 2)
            if sch.di:
                ctx.fault("preemption", sch.di)
            for ok, r in res:
                ctx.check(ok == "ok" and all(torch.equal(x, y) for x, y in zip(r, want)), "concurrent-call-differs")
        rb, cam, out = judge(op)
        ctx.state(F.grids["density"]["voxel_grid_class_type"], ready, F.filter, F.in_camera, op, F.kernel)
    ctx.nontrivial = True


META = {
    "rule": "a run is one seed: a voxel grid (full, CP or VM, any resolution, place, alignment and padding) or a density and color field made of two of them, then "
    "2-9 operations: epochs that change resolutions, calculate the scaffold or crop, crops to a box, saving and loading into a fresh or used object, rolling back, "
    "copies that are changed, training steps, calls in two threads; failing allocations and interruptions in any of them, which are repeated; nontrivial = all",
    "state_measure": "distinct (kind of grid, alignment, padding or scaffold state, operation) and distinct thread schedules",
    "real": "pytorch3d.implicitron.models.implicit_function: voxel_grid, voxel_grid_implicit_function, decoding_functions, utils; HarmonicEmbedding; VolumeLocator; the configuration system; torch.save",
    "stub": "operators that fail on request, scheduler for threads; the reference (numpy, double precision)",
    "assumptions": [
        "what a resampled grid contains is compared at its voxels, and everywhere for fields that are affine along each axis",
        "points within 1e-4 of the sides of a grid or of the scaffold's cells are not compared",
        "odd pooling kernels; mode bilinear; CPU only",
    ],
    "level": "exploration",
}
SCENARIOS = [
    Scenario("grid", grid, 1600, 90000),
    Scenario("field", field, 1200, 70000),
]
