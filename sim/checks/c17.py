"""C17: random samples of surfaces, clouds and rotations are what the functions
promise, whatever the generators draw and whatever happened before."""

import warnings

import numpy as np
import torch

from .. import instr
from .. import rng
from .. import threads as th
from ..core import Scenario, Violation

th.install()

from pytorch3d.implicitron.tools.camera_utils import jitter_extrinsics  # noqa: E402
from pytorch3d.ops import sample_farthest_points, sample_points_from_meshes  # noqa: E402
from pytorch3d.ops.sample_farthest_points import sample_farthest_points_naive  # noqa: E402
from pytorch3d.renderer import TexturesAtlas, TexturesUV, TexturesVertex  # noqa: E402
from pytorch3d.structures import Meshes, Pointclouds  # noqa: E402
from pytorch3d.transforms import random_quaternions, random_rotation, random_rotations  # noqa: E402

PROPERTY = "C17"


def prepare(tier):
    try:
        instr.plain()
    except RuntimeError as e:
        raise SystemExit(f"cannot build the C++ code: {e}")


def dying(ctx, fn, at):
    """fn() with its at-th allocation failing (an error through C++ code loses its type)"""
    with th.OpFaults(at) as o:
        try:
            fn()
        except (th.AllocFail, RuntimeError):
            if not o.fired:
                raise
            ctx.fault("alloc_failure")


# -- surfaces

COLOUR = np.array([[0.5, -0.25, 0.125], [0.25, 0.5, -0.5], [-0.125, 0.25, 0.5]])


def colour(p):
    """the vertex colours are this affine function of the position"""
    return p @ COLOUR + 0.3


def draw_mesh(g, d):
    kind = d.weighted([6, 1, 1])
    if kind == 1:
        return np.zeros((0, 3), np.float32), np.zeros((0, 3), np.int64)
    nv, nf = d.integer(3, 9), d.integer(1, 9)
    v = (g.randn(nv, 3) * [1, 0.1, 10][d.choice(3)]).astype(np.float32)
    f = np.stack([g.choice(nv, 3, replace=False) for _ in range(nf)]).astype(np.int64)
    if kind == 2:
        for j in range(nf):  # faces without an area
            if g.rand() < 0.5:
                f[j, 1] = f[j, 0]
        f[g.randint(nf)] = [0, 1, 2]
        f[0] = [0, 1, 2]
    return v, f


def areas(v, f):
    v = v.astype(np.float64)
    a, b, c = v[f[:, 0]], v[f[:, 1]], v[f[:, 2]]
    n = np.cross(b - a, c - a)
    return np.linalg.norm(n, axis=1) / 2, n


def bary(v, f, p):
    """barycentric coordinates (S, F, 3) of p in every face and the distance to its
    plane"""
    v = v.astype(np.float64)
    a, b, c = v[f[:, 0]], v[f[:, 1]], v[f[:, 2]]
    n = np.cross(b - a, c - a)
    nn = (n * n).sum(1)
    nn = np.where(nn == 0, 1, nn)
    q = p[:, None]
    w0 = (np.cross(c - b, q - b) * n).sum(-1) / nn
    w1 = (np.cross(a - c, q - c) * n).sum(-1) / nn
    w = np.stack([w0, w1, 1 - w0 - w1], -1)
    near = w[..., :1] * a + w[..., 1:2] * b + w[..., 2:] * c
    return w, np.linalg.norm(near - q, axis=-1)


class Batch:
    def __init__(self, d):
        self.g = g = np.random.RandomState(d.seed32())
        n = d.integer(1, 4)
        self.m = [draw_mesh(g, d) for _ in range(n)]
        self.tex = d.weighted([2, 3, 2, 2]) if any(len(f) for _, f in self.m) else 0
        self.kind = d.choice(2)
        if self.tex == 2:  # uv: each face has a triangle of its own
            self.uv = [g.rand(len(f) * 3, 2).astype(np.float32) * 0.8 + 0.1 for _, f in self.m]
        if self.tex == 3:
            self.atlas = [g.rand(len(f), 3).astype(np.float32) for _, f in self.m]

    def build(self):
        v = [torch.from_numpy(x.copy()) for x, _ in self.m]
        f = [torch.from_numpy(x.copy()) for _, x in self.m]
        t = None
        if self.tex == 1:
            t = TexturesVertex([torch.from_numpy(colour(x)).float() for x in v and [a for a, _ in self.m]])
        elif self.tex == 2:
            # a map whose colour is the position on it
            k = 16
            xs = torch.linspace(0, 1, k)
            m = torch.stack([xs[None].expand(k, k), xs.flip(0)[:, None].expand(k, k)], -1)
            t = TexturesUV(
                m[None].expand(len(v), k, k, 2),
                [torch.arange(len(x) * 3).reshape(-1, 3) for x in f],
                [torch.from_numpy(x.copy()) for x in self.uv],
            )
        elif self.tex == 3:
            t = TexturesAtlas([torch.from_numpy(x.copy())[:, None, None].expand(len(x), 2, 2, 3) for x in self.atlas])
        if self.kind and all(len(x) == len(v[0]) for x in v) and all(len(x) == len(f[0]) for x in f) and len(f[0]):
            return Meshes(torch.stack(v), torch.stack(f), t)
        return Meshes(v, f, t)

    def usable(self):
        return all(len(f) == 0 or areas(v, f)[0].sum() > 1e-8 for v, f in self.m)

    def judge(self, ctx, S, p, n, t):
        C = {1: 3, 2: 2, 3: 3}.get(self.tex)
        N = len(self.m)
        for x, name, k in ((p, "samples", 3), (n, "normals", 3), (t, "textures", C)):
            if x is not None:
                ctx.check(tuple(x.shape) == (N, S, k), "wrong-shape-of-" + name, tuple(x.shape), N, S)
                ctx.check(bool(torch.isfinite(x).all()), name + "-not-finite")
        for i, (v, f) in enumerate(self.m):
            if len(f) == 0:
                for x in (p, n, t):
                    ctx.check(x is None or bool((x[i] == 0).all()), "samples-of-an-empty-mesh", i)
                continue
            if S == 0:
                continue
            scale = np.abs(v).max() + 1
            A, nrm = areas(v, f)
            w, dist = bary(v, f, p[i].numpy().astype(np.float64))
            # tolerance in barycentric coordinates grows for thin faces
            longest = np.array([max(np.linalg.norm(v[t1] - v[t2]) for t1, t2 in ((a, b), (b, c), (a, c))) for a, b, c in f])
            tol = 1e-5 * scale * (longest / np.maximum(2 * A, 1e-30)) + 1e-5
            ok = (w > -tol[:, None]).all(-1) & (w < 1 + tol[:, None]).all(-1) & (dist < 2e-5 * scale) & (A > 0)
            # faces which the code cannot tell from those without an area
            ok &= A > 1e-12
            thin = (A <= 1e-6 * scale**2)
            if thin.any():
                # close to a face too thin to have usable barycentric coordinates
                q = p[i].numpy()
                lo, hi = v[f].min(1) - 1e-4 * scale, v[f].max(1) + 1e-4 * scale
                ok |= thin & (A > 0) & (q[:, None] >= lo).all(-1) & (q[:, None] <= hi).all(-1)
            ctx.check(bool(ok.any(1).all()), "sample-not-on-the-surface", i, self.m[i])
            ctx.count("samples", len(p[i]))
            cand = ok & ~thin
            decided = ~(ok & thin).any(1)
            if n is not None:
                u = nrm / np.maximum(np.linalg.norm(nrm, axis=1, keepdims=True), 1e-30)
                e = np.abs(n[i].numpy()[:, None] - u).max(-1)
                good = (cand & (e < 2e-3)).any(1)
                ctx.check(bool(good[decided].all()), "normal-of-another-face", i)
                cand = cand & (e < 2e-3)
            if t is not None:
                got = t[i].numpy()
                if self.tex == 1:
                    want = colour(p[i].numpy().astype(np.float64))[:, None].repeat(len(f), 1)
                elif self.tex == 2:
                    uv = self.uv[i].reshape(-1, 3, 2).astype(np.float64)
                    want = (w[..., None] * uv[None]).sum(2)
                else:
                    want = self.atlas[i][None].repeat(len(w), 0)
                e = np.abs(got[:, None] - want).max(-1)
                good = (cand & (e < 1e-3 * scale + 3 * tol[None])).any(1)
                ctx.check(bool(good[decided].all()), "texture-of-another-place", i, self.tex)


def distribution(ctx, v, f, p):
    """The faces hit and the places within them fit a uniform distribution."""
    A, _ = areas(v, f)
    w, dist = bary(v, f, p.numpy().astype(np.float64))
    ok = (w > -1e-4).all(-1) & (dist < 1e-4)
    S = len(p)
    P = A / A.sum()
    if (ok.sum(1) != 1).mean() > 0.002:
        return
    hit = ok.argmax(1)
    for j in range(len(f)):
        k = (hit == j).sum()
        sd = np.sqrt(max(S * P[j] * (1 - P[j]), 1)) + 0.002 * S
        ctx.check(abs(k - S * P[j]) < 7 * sd, "not-in-proportion-to-the-area", j, k, S * P[j])
    b = w[np.arange(S), hit]
    for c in range(3):
        ctx.check(abs(b[:, c].mean() - 1 / 3) < 7 * np.sqrt(1 / 18 / S), "not-uniform-within-a-face", c, b[:, c].mean())
        ctx.check(abs((b[:, c] ** 2).mean() - 1 / 6) < 7 * np.sqrt(0.04 / S), "not-uniform-within-a-face", c)
    ctx.count("distributions")


def surface(d, ctx):
    warnings.simplefilter("ignore")
    B = Batch(d)
    M = B.build()
    adv = d.chance(1, 2)
    with rng.draws(d, ctx, adv):
        for _ in range(d.integer(1, 3)):
            S = d.pick([0, 1, 2, 7, 40]) if d.chance(3, 4) else 1
            if S == 0 and not any(len(f) for _, f in B.m):
                S = 1
            rn, rt = d.chance(1, 2), B.tex > 0 and d.chance(2, 3)
            go = lambda: sample_points_from_meshes(M, S, return_normals=rn, return_textures=rt)  # noqa: E731
            if not any(len(f) for _, f in B.m):
                try:
                    go()
                except ValueError:
                    ctx.event("empty refused")
                    continue
                raise Violation("empty-batch-accepted", "")
            if not B.usable() or S == 0:
                return
            if B.tex == 0 and d.chance(1, 8):
                try:
                    sample_points_from_meshes(M, S, return_textures=True)
                except ValueError:
                    ctx.event("untextured refused")
                else:
                    raise Violation("textures-out-of-nowhere", "")
            before = [x.clone() for x in M.verts_list()] + [x.clone() for x in M.faces_list()]
            if not adv and d.chance(1, 3):
                with th.OpFaults() as o:
                    s = torch.get_rng_state()
                    go()
                    torch.set_rng_state(s)
                at = 1 + d.choice(max(o.n, 1))
                dying(ctx, go, at)
            seed = d.seed32()
            torch.manual_seed(seed)
            r = go()
            parts = list(r) if isinstance(r, tuple) else [r]
            ctx.check(len(parts) == 1 + rn + rt and isinstance(r, tuple) == (rn or rt), "wrong-number-of-results", len(parts))
            p = parts.pop(0)
            n = parts.pop(0) if rn else None
            t = parts.pop(0) if rt else None
            B.judge(ctx, S, p, n, t)
            after = M.verts_list() + M.faces_list()
            ctx.check(all(torch.equal(a, b) for a, b in zip(before, after)), "the-mesh-changed")
            if not adv:
                torch.manual_seed(seed)
                again = go()
                again = again[0] if isinstance(again, tuple) else again
                ctx.check(torch.equal(p, again), "not-determined-by-the-seed")
                M2 = B.build()  # another history, the same samples
                torch.manual_seed(seed)
                again = sample_points_from_meshes(M2, S)
                ctx.check(torch.equal(p, again), "samples-depend-on-the-history")
            ctx.event(S, rn, rt, float(p.double().abs().sum()))
            ctx.state("surface", len(B.m), B.tex, rn, rt, S, tuple(len(f) for _, f in B.m))
        if not any(len(f) for _, f in B.m):
            return
        if not adv and d.chance(1, 6):
            p = sample_points_from_meshes(M, 3000)
            for (v, f), q in zip(B.m, p):
                if len(f):
                    A, _ = areas(v, f)
                    s = np.abs(v).max()
                    if A.min() > 1e-3 * s * s:
                        distribution(ctx, v / s, f, q / float(s))
        # coordinates which are not finite
        if d.chance(1, 6):
            v, f = [(a, b) for a, b in B.m if len(b)][0]
            v = v.copy()
            v[d.choice(len(v)), d.choice(3)] = d.pick([np.nan, np.inf, -np.inf])
            try:
                sample_points_from_meshes(Meshes([torch.from_numpy(v)], [torch.from_numpy(f)]), 4)
            except ValueError:
                ctx.fault("not_finite")
            else:
                raise Violation("not-finite-accepted", "")
    ctx.nontrivial = True


# -- farthest points


def farthest(d, ctx):
    g = np.random.RandomState(d.seed32())
    N, P, D = d.integer(1, 4), d.integer(1, 14), d.integer(1, 4)
    x = g.randn(N, P, D) * [1, 100, 0.01][d.choice(3)]
    if d.chance(1, 4):
        x = np.round(x)  # equal distances
    double = d.chance(1, 6)
    pts = torch.from_numpy(x).to(torch.float64 if double else torch.float32)
    if double:
        pts = pts.float().double()
    lengths = None if d.chance(1, 3) else torch.from_numpy(g.randint(0 if d.chance(1, 4) else 1, P + 1, N))
    if lengths is not None and d.chance(1, 5):
        lengths = lengths.int()
    kk = d.choice(4)
    if kk == 0:
        K = d.integer(1, P + 3)
        ks = [K] * N
    else:
        ks = [d.integer(0 if kk == 3 else 1, P + 2) for _ in range(N)]
        if kk == 3 and max(ks) == 0:
            ks[0] = 1
        K = ks if kk == 1 else torch.tensor(ks, dtype=torch.int32 if d.chance(1, 5) else torch.int64)
    L = [P] * N if lengths is None else [int(v) for v in lengths]
    rand = d.chance(1, 2)
    which = d.choice(2)
    adv = d.chance(1, 2)
    fn = (sample_farthest_points, sample_farthest_points_naive)[which]
    keep = pts.clone(), None if lengths is None else lengths.clone()
    with rng.draws(d, ctx, adv):
        for again in range(d.integer(1, 2)):
            got, idx = fn(pts, lengths, K, rand)
            mk = max(ks)
            ctx.check(tuple(idx.shape) == (N, mk) and tuple(got.shape) == (N, mk, D), "wrong-shape", tuple(idx.shape), mk)
            ctx.check(idx.dtype == torch.int64, "wrong-dtype", idx.dtype)
            X = pts.float().double().numpy()
            for i in range(N):
                k = min(L[i], ks[i])
                r = idx[i].tolist()
                ctx.check(all(v == -1 for v in r[k:]), "padding-of-the-indices", r, k, which)
                ctx.check(bool((got[i, k:] == 0).all()), "padding-of-the-points", which)
                if k == 0:
                    continue
                ctx.check(all(0 <= v < L[i] for v in r[:k]), "index-out-of-the-cloud", r, L[i], which)
                ctx.check(bool((got[i, :k].double() == pts[i, r[:k]].double()).all()), "points-are-not-those-of-the-indices", which)
                if not rand:
                    ctx.check(r[0] == 0, "does-not-start-at-the-first-point", r, which)
                dist = np.full(L[i], np.inf)
                for j in range(1, k):
                    dist = np.minimum(dist, ((X[i, : L[i]] - X[i, r[j - 1]]) ** 2).sum(-1))
                    best = dist.max()
                    if best == 0:
                        break
                    ctx.check(dist[r[j]] >= best * (1 - 1e-5), "not-the-farthest-point", i, j, r, which)
                ctx.count("clouds")
            ctx.check(torch.equal(pts, keep[0]) and (lengths is None or torch.equal(lengths, keep[1])), "input-changed")
            ctx.event(which, idx.tolist())
        if rand and not adv and L[0] > 1 and d.chance(1, 4):
            n = 400
            q = pts[:1].expand(n, P, D).contiguous()
            ln = torch.full((n,), L[0])
            s = fn(q, None if L[0] == P and d.chance(1, 2) else ln, 1, True)[1][:, 0]
            c = torch.bincount(s, minlength=L[0]).numpy()
            ctx.check(len(c) == L[0], "start-out-of-the-cloud", c)
            e = n / L[0]
            ctx.check(np.abs(c - e).max() < 7 * np.sqrt(e), "start-is-not-uniform", c.tolist())
            ctx.count("distributions")
    for bad in (0, 1, 2):
        if not d.chance(1, 10):
            continue
        try:
            if bad == 0:
                fn(pts, torch.full((N,), P + 1), 1)
            elif bad == 1:
                fn(pts, torch.ones(N + 1, dtype=torch.int64), 1)
            else:
                fn(pts, None, [1] * (N + 1))
        except ValueError:
            ctx.event("refused", bad)
        else:
            raise Violation("invalid-sizes-accepted", f"{bad}")
    ctx.state("farthest", N, P, kk, rand, which, lengths is None)
    ctx.nontrivial = True


# -- subsets of clouds


def subsets(d, ctx):
    g = np.random.RandomState(d.seed32())
    n = d.integer(1, 4)
    sizes = [d.integer(0 if d.chance(1, 4) else 1, 12) for _ in range(n)]
    if d.chance(1, 4):
        sizes = sizes[:1] * n
    hn, hf = d.chance(1, 2), d.chance(1, 2)
    ident = [np.arange(s, dtype=np.float32) for s in sizes]
    pts = [torch.from_numpy(np.stack([i, i * 2 + 1, np.full_like(i, j)], 1)) for j, i in enumerate(ident)]
    nrm = [p + 100 for p in pts] if hn else None
    fea = [torch.cat([p, p[:, :1] * 3], 1) for p in pts] if hf else None
    C = Pointclouds(pts, nrm, fea)
    adv = d.chance(1, 2)
    with rng.draws(d, ctx, adv):
        for _ in range(d.integer(1, 3)):
            if d.chance(1, 2):
                mx = d.integer(0 if d.chance(1, 5) else 1, 13)
                ms = [mx] * n
            else:
                ms = [d.integer(0 if d.chance(1, 5) else 1, 13) for _ in range(n)]
                mx = ms if d.chance(1, 2) else torch.tensor(ms)
            if not adv and d.chance(1, 4):
                with th.OpFaults() as o:
                    C.subsample(mx)
                dying(ctx, lambda: C.subsample(mx), 1 + d.choice(max(o.n, 1)))
            R = C.subsample(mx)
            if all(s <= m for s, m in zip(sizes, ms)):
                ctx.check(R is C, "copied-although-nothing-is-left-out")
            ctx.check(len(R) == n, "wrong-number-of-clouds", len(R), n)
            chosen = []
            for j, (p, s, m) in enumerate(zip(R.points_list(), sizes, ms)):
                ctx.check(len(p) == min(s, m), "wrong-number-of-points", len(p), s, m)
                i = p[:, 0].long().tolist()
                ctx.check(len(set(i)) == len(i) and all(0 <= q < s for q in i), "not-a-subset", i, s)
                ctx.check(torch.equal(p, pts[j][i]), "points-mixed", j)
                if s <= m:
                    ctx.check(torch.equal(p, pts[j]), "a-small-cloud-is-not-kept", j)
                ctx.check((R.normals_list() is not None) == hn or sum(sizes) == 0, "normals-lost-or-made-up")
                ctx.check((R.features_list() is not None) == hf or sum(sizes) == 0, "features-lost-or-made-up")
                if hn and R.normals_list() is not None:
                    ctx.check(torch.equal(R.normals_list()[j], nrm[j][i]), "normals-of-other-points", j)
                if hf and R.features_list() is not None:
                    ctx.check(torch.equal(R.features_list()[j], fea[j][i]), "features-of-other-points", j)
                chosen.append(i)
            ctx.check(all(torch.equal(a, b) for a, b in zip(C.points_list(), pts)), "the-source-changed")
            ctx.event(ms, chosen)
            ctx.count("clouds", n)
        if not adv and sizes[0] > 2 and d.chance(1, 4):
            k = sizes[0] // 2
            hit = np.zeros(sizes[0])
            for _ in range(300):
                hit[C[0].subsample(k).points_list()[0][:, 0].long().numpy()] += 1
            e = 300 * k / sizes[0]
            ctx.check(np.abs(hit - e).max() < 7 * np.sqrt(e), "choice-is-not-uniform", hit.tolist())
            ctx.count("distributions")
    ctx.state("subsets", n, hn, hf, tuple(sizes))
    ctx.nontrivial = True


# -- rotations and cameras


def rotations(d, ctx):
    adv = d.chance(1, 2)
    n = d.pick([0, 1, 2, 5, 33])
    dt = d.pick([None, torch.float32, torch.float64])
    tol = 1e-5 if dt != torch.float64 else 1e-9
    with rng.draws(d, ctx, adv):
        q = random_quaternions(n, dtype=dt)
        ctx.check(tuple(q.shape) == (n, 4) and q.dtype == (dt or torch.get_default_dtype()), "wrong-shape", tuple(q.shape), q.dtype)
        ctx.check(bool(((q.norm(dim=1) - 1).abs() < tol).all()), "quaternion-not-normalised")
        ctx.check(bool((q[:, 0] >= 0).all()), "quaternion-with-negative-real-part")
        R = random_rotations(n, dtype=dt)
        ctx.check(tuple(R.shape) == (n, 3, 3), "wrong-shape", tuple(R.shape))
        if d.chance(1, 2):
            r1 = random_rotation(dtype=dt)
            ctx.check(tuple(r1.shape) == (3, 3), "wrong-shape", tuple(r1.shape))
            R = torch.cat([R, r1[None]])
        eye = torch.eye(3, dtype=R.dtype)
        ctx.check(bool(((R @ R.transpose(1, 2) - eye).abs() < 10 * tol).all()), "not-orthogonal")
        ctx.check(bool(((torch.linalg.det(R.double()) - 1).abs() < 10 * tol).all()), "not-a-rotation")
        if not adv and d.chance(1, 10):
            big = random_rotations(2000).double()
            ctx.check(bool((big.mean(0).abs() < 7 / np.sqrt(3 * 2000)).all()), "rotations-are-not-uniform", big.mean(0))
            ang = torch.acos(((big.diagonal(dim1=1, dim2=2).sum(1) - 1) / 2).clamp(-1, 1))
            ctx.check(abs(float(ang.mean()) - (np.pi / 2 + 2 / np.pi)) < 7 * 0.65 / np.sqrt(2000), "rotations-are-not-uniform", float(ang.mean()))
            ctx.count("distributions")
        if n and not adv:
            Rc, Tc = random_rotations(n), torch.randn(n, 3)
            keep = Rc.clone(), Tc.clone()
            ma, ts, ss = d.pick([0.0, 0.3, 1.0, 3.0]), d.pick([0.0, 1.0]), d.pick([0.0, 0.3])
            R2, T2 = jitter_extrinsics(Rc, Tc, max_angle=ma, translation_std=ts, scale_std=ss)
            ctx.check(torch.equal(Rc, keep[0]) and torch.equal(Tc, keep[1]), "input-changed")
            # one similarity for all cameras: R' = Q^T R, centre' = s * (A centre + b)
            Q = (Rc @ R2.transpose(1, 2)).double()
            G = (R2 @ Rc.transpose(1, 2)).double()
            ctx.check(bool(((G - G[:1]).abs() < 1e-4).all()), "cameras-turned-differently")
            cos = (G.diagonal(dim1=1, dim2=2).sum(1) - 1) / 2
            ang = float(torch.acos(cos.clamp(-1, 1)).max())
            ctx.check(ang <= ma * 1.02 + 5e-3, "turned-by-too-much", ang, ma)
            c1 = -(Tc.double()[:, None] @ Rc.double().transpose(1, 2))[:, 0]
            c2 = -(T2.double()[:, None] @ R2.double().transpose(1, 2))[:, 0]
            if n > 1:
                d1 = torch.cdist(c1, c1)
                d2 = torch.cdist(c2, c2)
                k = d1 > 1e-3
                s = (d2[k] / d1[k])
                ctx.check(bool(((s / s[0] - 1).abs() < 1e-2).all()), "not-a-similarity", s)
                if ss == 0:
                    ctx.check(abs(float(s.mean()) - 1) < 1e-2, "scaled-although-not-asked", float(s.mean()))
            if ma == 0 and ts == 0 and ss == 0:
                ctx.check(bool((R2 - Rc).abs().max() < 1e-4) and bool((T2 - Tc).abs().max() < 1e-4), "moved-although-not-asked")
            del Q
        ctx.event(n, float(R.double().abs().sum()) if n else 0)
    ctx.state("rotations", n, dt)
    ctx.nontrivial = True


META = {
    "rule": "a run is one seed: a batch of meshes (empty members, faces without an area, every texture type), clouds of unequal lengths or requests for rotations, then "
    "1-3 calls whose random draws come from the seed: half the runs an adversary stays at the ends of the ranges, the rest are judged statistically as well; a third "
    "of the others has a call die in an allocation before; nontrivial = all",
    "state_measure": "distinct (function, batch shape, options)",
    "real": "pytorch3d.ops.sample_points_from_meshes, sample_farthest_points (with its C++ code, the C++ areas and the packing compiled from the working tree), Pointclouds.subsample, transforms.random_*, jitter_extrinsics",
    "stub": "torch, numpy and random global generators (seeded, or replaced by the adversary), operators that fail on request",
    "assumptions": [
        "adversarial draws stay within the contract of the random functions; a uniform real number never is exactly 1",
        "statistical bounds are 7 standard deviations on fixed seeds",
        "CPU only",
    ],
    "level": "exploration",
}
SCENARIOS = [
    Scenario("surface", surface, 2500, 80000),
    Scenario("farthest", farthest, 2500, 80000),
    Scenario("subsets", subsets, 2000, 60000),
    Scenario("rotations", rotations, 1500, 40000),
]
