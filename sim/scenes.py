"""Scenes as plain arrays, the pytorch3d objects they describe, and a slow
reference renderer in double precision which knows nothing of batches."""

import copy

import numpy as np
import torch
from pytorch3d.renderer import (
    AmbientLights,
    BlendParams,
    DirectionalLights,
    FoVOrthographicCameras,
    FoVPerspectiveCameras,
    Materials,
    OrthographicCameras,
    PerspectiveCameras,
    PointLights,
    RasterizationSettings,
    TexturesAtlas,
    TexturesUV,
    TexturesVertex,
)
from pytorch3d.renderer.fisheyecameras import FishEyeCameras
from pytorch3d.structures import Meshes, Pointclouds, Volumes

f32 = np.float32


def t(x, grad=False):
    r = torch.from_numpy(np.array(x, dtype=f32))
    return r.requires_grad_() if grad else r


# ---- cameras

PERSP, FOV, ORTHO, SCREEN, FOVORTHO, FISHEYE = range(6)


def look_at(g, n, dist=(2.7, 4.0)):
    c = g.randn(n, 3)
    c = c / np.linalg.norm(c, axis=1, keepdims=True) * g.uniform(*dist, (n, 1))
    z = -(c + g.uniform(-0.15, 0.15, (n, 3)))
    z /= np.linalg.norm(z, axis=1, keepdims=True)
    up = g.randn(n, 3)
    x = np.cross(up, z)
    x /= np.linalg.norm(x, axis=1, keepdims=True)
    y = np.cross(z, x)
    R = np.stack([x, y, z], 2)
    T = -np.einsum("ni,nij->nj", c, R)
    return f32(R), f32(T)


def draw_cameras(d, g, n, kinds=(PERSP, FOV, ORTHO, SCREEN, FOVORTHO)):
    R, T = look_at(g, n)
    s = dict(kind=d.pick(kinds), R=R, T=T)
    if s["kind"] in (PERSP, SCREEN):
        s.update(f=f32(g.uniform(1.5, 3.0, (n, 2))), p=f32(g.uniform(-0.3, 0.3, (n, 2))))
    elif s["kind"] == ORTHO:
        s.update(f=f32(g.uniform(0.6, 1.3, (n, 2))), p=f32(g.uniform(-0.3, 0.3, (n, 2))))
    elif s["kind"] == FOV:
        s.update(fov=f32(g.uniform(30, 60, n)), znear=f32(g.uniform(0.2, 1.2, n)), zfar=f32(g.uniform(6, 100, n)))
    elif s["kind"] == FOVORTHO:
        s.update(scale=f32(g.uniform(0.6, 1.3, (n, 3))), znear=f32(g.uniform(0.2, 1.2, n)), zfar=f32(g.uniform(6, 100, n)))
    else:
        s.update(f=f32(g.uniform(8, 14, (n, 1))), p=f32(g.uniform(4, 6, (n, 2))), rad=f32(g.uniform(-0.02, 0.02, (n, 6))), thin=d.chance(1, 2))
    if s["kind"] in (SCREEN, FISHEYE):
        s["size"] = (d.integer(8, 40), d.integer(8, 40)) if s["kind"] == SCREEN else (10, 10)
    return s


def make_cameras(s):
    k = dict(R=t(s["R"]), T=t(s["T"]))
    n = len(s["R"])
    if s["kind"] == PERSP:
        return PerspectiveCameras(focal_length=t(s["f"]), principal_point=t(s["p"]), **k)
    if s["kind"] == ORTHO:
        return OrthographicCameras(focal_length=t(s["f"]), principal_point=t(s["p"]), **k)
    if s["kind"] == SCREEN:
        h, w = s["size"]
        q = min(h, w) / 2
        return PerspectiveCameras(
            focal_length=t(s["f"] * q),
            principal_point=t(np.array([w / 2, h / 2]) - s["p"] * q),
            in_ndc=False,
            image_size=torch.tensor([[h, w]] * n),
            **k,
        )
    if s["kind"] == FOV:
        return FoVPerspectiveCameras(fov=t(s["fov"]), znear=t(s["znear"]), zfar=t(s["zfar"]), **k)
    if s["kind"] == FOVORTHO:
        return FoVOrthographicCameras(scale_xyz=t(s["scale"]), znear=t(s["znear"]), zfar=t(s["zfar"]), **k)
    return FishEyeCameras(
        focal_length=t(s["f"]),
        principal_point=t(s["p"]),
        radial_params=t(s["rad"]),
        tangential_params=torch.zeros(n, 2),
        thin_prism_params=t(np.full((n, 4), 0.01)),
        use_thin_prism=s["thin"],
        world_coordinates=True,
        image_size=torch.tensor([s["size"]] * n),
        **k,
    )


def perspective(s):
    return s["kind"] in (PERSP, FOV, SCREEN)


def project(s, i, x):
    """NDC x, y and the depth in front of camera i"""
    v = x.astype(np.float64) @ s["R"][i] + s["T"][i]
    xy, z = v[:, :2], v[:, 2:]
    if s["kind"] in (PERSP, SCREEN):
        return np.concatenate([s["f"][i] * xy / z + s["p"][i], z], 1)
    if s["kind"] == FOV:
        return np.concatenate([xy / z / np.tan(np.deg2rad(float(s["fov"][i])) / 2), z], 1)
    if s["kind"] == ORTHO:
        return np.concatenate([s["f"][i] * xy + s["p"][i], z], 1)
    if s["kind"] == FOVORTHO:
        return np.concatenate([s["scale"][i, :2] * xy, z], 1)
    return None


def center(s, i):
    return -s["T"][i].astype(np.float64) @ s["R"][i].T


def rows(s, i):
    """the i-th element of a spec (of the only one, if there is one)"""
    n = len(next(v for v in s.values() if isinstance(v, np.ndarray)))
    j = i if n > 1 else 0
    return {k: v[j : j + 1].copy() if isinstance(v, np.ndarray) else v for k, v in s.items()}


# ---- lights and materials

POINT, DIRECTIONAL, AMBIENT = range(3)


def draw_lights(d, g, n):
    kind = d.weighted([3, 2, 1])
    n1 = lambda: n if d.chance(2, 3) else 1  # noqa: E731
    s = dict(kind=kind, ambient_color=f32(g.uniform(0, 1, (n1(), 3))))
    if kind != AMBIENT:
        s["diffuse_color"] = f32(g.uniform(0, 1, (n1(), 3)))
        s["specular_color"] = f32(g.uniform(0, 1, (n1(), 3)))
        s["location" if kind == POINT else "direction"] = f32(g.randn(n1(), 3) * 2)
    return spread(s)


def spread(s):
    """what broadcasting does"""
    n = max(len(v) for v in s.values() if isinstance(v, np.ndarray))
    s["one"] = {k: len(v) == 1 for k, v in s.items() if isinstance(v, np.ndarray)}
    for k, v in s.items():
        if isinstance(v, np.ndarray) and len(v) == 1:
            s[k] = np.repeat(v, n, 0)
    return s


def _given(s, k):
    """the argument for the constructor; if `one`, what it has to broadcast"""
    v = s[k]
    return t(v[:1] if s.get("one", {}).get(k) and (v == v[:1]).all() else v)


def make_lights(s):
    cls = (PointLights, DirectionalLights, AmbientLights)[s["kind"]]
    return cls(**{k: _given(s, k) for k in s if k not in ("kind", "one")})


def draw_materials(d, g, n):
    n1 = lambda: n if d.chance(1, 2) else 1  # noqa: E731
    s = {k: f32(g.uniform(0.2, 1, (n1(), 3))) for k in ("ambient_color", "diffuse_color", "specular_color")}
    s["shininess"] = f32(g.choice([1, 2, 5, 20], n1()))
    return spread(s)


def make_materials(s):
    return Materials(**{k: _given(s, k) for k in s if k != "one"})


# ---- meshes

VERTEX, UV, ATLAS = range(3)


def draw_meshes(d, g, n, tex=None):
    tex = d.weighted([3, 2, 1]) if tex is None else tex
    side = d.integer(2, 5)
    s = dict(tex=tex, align=d.chance(1, 2), verts=[], faces=[], colors=[], maps=[], uvs=[], uvf=[], atlas=[])
    for i in range(n):
        nv, nf = d.integer(3, 12), d.integer(1, 14)
        if i and tex == VERTEX and d.chance(1, 10):
            nv = nf = 0
        v = g.randn(nv, 3)
        if nv:
            v = v / np.linalg.norm(v, axis=1, keepdims=True) * g.uniform(0.3, 1, (nv, 1))
        s["verts"].append(f32(v))
        faces = {}  # no two of the same vertices: their normals could cancel
        for _ in range(nf):
            f = g.choice(nv, 3, replace=False)
            faces[frozenset(f.tolist())] = f
        nf = len(faces)
        s["faces"].append(np.array(list(faces.values()), dtype=np.int64).reshape(-1, 3))
        s["colors"].append(f32(g.uniform(0, 1, (nv, 3))))
        s["maps"].append(f32(g.uniform(0, 1, (side, side + 1, 3))))
        nu = d.integer(3, 8)
        s["uvs"].append(f32(g.uniform(0, 1, (nu, 2))))
        s["uvf"].append(np.array([g.choice(nu, 3, replace=False) for _ in range(nf)], dtype=np.int64).reshape(-1, 3))
        s["atlas"].append(f32(g.uniform(0, 1, (nf, 2, 2, 3))))
    return s


def mesh_row(s, i):
    return {k: [v[i]] if isinstance(v, list) else v for k, v in s.items()}


def make_meshes(s, grad=False):
    l = lambda k: [torch.from_numpy(x.copy()) for x in s[k]]  # noqa: E731
    if s["tex"] == VERTEX:
        tex = TexturesVertex(verts_features=l("colors"))
    elif s["tex"] == UV:
        tex = TexturesUV(maps=l("maps"), faces_uvs=l("uvf"), verts_uvs=l("uvs"), align_corners=s["align"])
    else:
        tex = TexturesAtlas(atlas=l("atlas"))
    v = l("verts")
    if grad:
        v = [x.requires_grad_() for x in v]
    return Meshes(verts=v, faces=l("faces"), textures=tex)


# ---- settings


def draw_raster(d, blur=None):
    h, w = d.integer(4, 11), d.integer(4, 11)
    if d.chance(1, 2):
        size = h = w = d.integer(4, 11)
    else:
        size = (h, w)
    blur = d.weighted([2, 1]) if blur is None else blur
    return dict(
        image_size=size,
        blur_radius=0.0 if not blur else float(f32(0.01)),
        faces_per_pixel=d.integer(1, 4),
        perspective_correct=d.pick([None, None, True, False]),
        clip_barycentric_coords=d.pick([None, None, True, False]),
        cull_backfaces=d.chance(1, 5),
        bin_size=0,
    )


def make_raster(s):
    return RasterizationSettings(**s)


def draw_blend(d, g):
    return dict(
        sigma=d.pick([1e-4, 1e-2, 0.1]),
        gamma=d.pick([1e-2, 0.1, 1.0]),
        bg=f32(g.uniform(0, 1, 3)),
        bg_tensor=d.chance(1, 2),
    )


def make_blend(s, sigma=None):
    bg = t(s["bg"]) if s["bg_tensor"] else tuple(float(x) for x in s["bg"])
    return BlendParams(sigma=sigma or s["sigma"], gamma=s["gamma"], background_color=bg)


def size_of(r):
    s = r["image_size"]
    return (s, s) if isinstance(s, int) else tuple(s)


# ---- reference: fragments


def pixel_grid(h, w):
    rx, ry = max(1, w / h), max(1, h / w)
    x = rx * (1 - (2 * np.arange(w) + 1) / w)
    y = ry * (1 - (2 * np.arange(h) + 1) / h)
    return x, y


def segment_d2(p, a, b):
    ab = b - a
    l2 = (ab**2).sum()
    u = np.clip(((p - a) @ ab) / l2, 0, 1) if l2 > 1e-12 else np.zeros(p.shape[:-1])
    return ((p - a - u[..., None] * ab) ** 2).sum(-1)


def ref_fragments(cam, i, verts, faces, r):
    """-> list over pixels of candidates (z, face, bary, dist) sorted by depth, mask of doubtful pixels"""
    h, w = size_of(r)
    x, y = pixel_grid(h, w)
    P = np.stack(np.broadcast_arrays(x[None], y[:, None]), -1)
    cand = [[[] for _ in range(w)] for _ in range(h)]
    doubt = np.zeros((h, w), bool)
    if len(faces) == 0:
        return cand, doubt
    q = project(cam, i, verts)
    pc = r["perspective_correct"]
    pc = perspective(cam) if pc is None else pc
    clip = r["clip_barycentric_coords"]
    clip = r["blur_radius"] > 0 if clip is None else clip
    blur = r["blur_radius"]
    for k, f in enumerate(faces):
        a, b, c = q[f]
        area = (c[0] - a[0]) * (b[1] - a[1]) - (c[1] - a[1]) * (b[0] - a[0])
        if abs(area) < 1e-5:
            doubt |= np.minimum.reduce([segment_d2(P, u[:2], v[:2]) for u, v in ((a, b), (b, c), (c, a))]) <= blur + 1e-3
            continue
        if r["cull_backfaces"] and area < 0:
            continue
        e = lambda u, v: ((P[..., 0] - u[0]) * (v[1] - u[1]) - (P[..., 1] - u[1]) * (v[0] - u[0])) / area  # noqa: E731
        lin = np.stack([e(b, c), e(c, a), e(a, b)], -1)
        edge = [segment_d2(P, u[:2], v[:2]) for u, v in ((a, b), (b, c), (c, a))]
        d2 = np.minimum.reduce(edge)
        inside = (lin > 0).all(-1)
        bary = lin
        wild = np.zeros((h, w), bool)  # outside of the face, at its vanishing line
        z = np.array([a[2], b[2], c[2]])
        if pc:
            top = lin * np.array([z[1] * z[2], z[0] * z[2], z[0] * z[1]])
            den = top.sum(-1, keepdims=True)
            wild = den[..., 0] < 0.1 * z.min() ** 2
            bary = top / np.where(np.abs(den) < 1e-12, 1e-12, den)
        if clip:
            bary = np.maximum(bary, 0)
            bary = bary / np.maximum(bary.sum(-1, keepdims=True), 1e-5)
        pz = bary @ z
        # float32 cannot tell: close to the edge, or to the radius
        near = np.sqrt(d2) < 2e-4
        if blur > 0:
            near = np.abs(np.sqrt(d2) - np.sqrt(blur)) < 2e-4
            near &= ~inside
        hit = inside | (d2 < blur)
        doubt |= near | (hit & (wild | (np.abs(pz) < 1e-3)))
        # barycentric coordinates of thin faces
        if abs(area) < 2e-3:
            doubt |= hit | near
        for yy, xx in zip(*np.nonzero(hit & (pz >= 0))):
            cand[yy][xx].append((pz[yy, xx], k, bary[yy, xx], -d2[yy, xx] if inside[yy, xx] else d2[yy, xx]))
    K = r["faces_per_pixel"]
    for row in range(h):
        for col in range(w):
            l = cand[row][col] = sorted(cand[row][col], key=lambda s: s[:2])
            for u, v in zip(l[:K], l[1 : K + 1]):
                if v[0] - u[0] < 1e-4 * (1 + abs(u[0])):
                    doubt[row, col] = True
    return cand, doubt


# ---- reference: shading, from the fragments of one image


def unit(v, eps=1e-6):
    return v / np.maximum(np.linalg.norm(v, axis=-1, keepdims=True), eps)


def vertex_normals(v, f):
    n = np.zeros((len(v), 3))
    if len(f):
        fn = np.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]])
        for j in range(3):
            np.add.at(n, f[:, j], fn)
    return unit(n)


def lighting(L, M, cam_center, p, n):
    """ambient, diffuse, specular at the points"""
    amb = L["ambient_color"][0].astype(np.float64) * M["ambient_color"][0]
    if L["kind"] == AMBIENT:
        return amb, 0.0, 0.0
    n = unit(n)
    if L["kind"] == POINT:
        dr = unit(L["location"][0] - p)
    else:
        dr = np.broadcast_to(unit(L["direction"][0].astype(np.float64)), p.shape)
    cos = (n * dr).sum(-1)
    dif = M["diffuse_color"][0] * L["diffuse_color"][0] * np.maximum(cos, 0)[..., None]
    refl = -dr + 2 * cos[..., None] * n
    al = np.maximum((unit(cam_center - p) * refl).sum(-1), 0) * (cos > 0)
    spec = M["specular_color"][0] * L["specular_color"][0] * (al ** float(M["shininess"][0]))[..., None]
    return amb, dif, spec


def bilinear(m, uv, align):
    h, w = m.shape[:2]
    if align:
        x, y = uv[..., 0] * (w - 1), (1 - uv[..., 1]) * (h - 1)
    else:
        x, y = uv[..., 0] * w - 0.5, (1 - uv[..., 1]) * h - 0.5
    x, y = np.clip(x, 0, w - 1), np.clip(y, 0, h - 1)
    x0, y0 = np.minimum(np.floor(x).astype(int), w - 1), np.minimum(np.floor(y).astype(int), h - 1)
    x1, y1 = np.minimum(x0 + 1, w - 1), np.minimum(y0 + 1, h - 1)
    fx, fy = (x - x0)[..., None], (y - y0)[..., None]
    return (m[y0, x0] * (1 - fx) + m[y0, x1] * fx) * (1 - fy) + (m[y1, x0] * (1 - fx) + m[y1, x1] * fx) * fy


def ref_colors(how, S, L, M, cc, pix, bary):
    """per pixel and layer: colours (H, W, K, 3); pix: faces of this mesh, -1 for none"""
    v, f = S["verts"][0].astype(np.float64), S["faces"][0]
    H, W, K = pix.shape
    out = np.zeros((H, W, K, 3))
    hit = pix >= 0
    if not hit.any():
        return out
    F, b = f[pix[hit]], bary[hit]
    ip = lambda x: (x * b[..., None]).sum(1)  # noqa: E731
    if how == "gouraud":
        a, di, sp = lighting(L, M, cc, v, vertex_normals(v, f))
        out[hit] = ip((S["colors"][0] * (a + di) + sp)[F])
        return out
    if S["tex"] == VERTEX:
        tex = ip(S["colors"][0].astype(np.float64)[F])
    else:
        uv = ip(S["uvs"][0].astype(np.float64)[S["uvf"][0][pix[hit]]])
        tex = bilinear(S["maps"][0].astype(np.float64), uv, S["align"])
    if how == "flat":
        p = v[F].mean(1)
        n = unit(np.cross(v[F[:, 1]] - v[F[:, 0]], v[F[:, 2]] - v[F[:, 0]]))
    else:
        p, n = ip(v[F]), ip(vertex_normals(v, f)[F])
    a, di, sp = lighting(L, M, cc, p, n)
    out[hit] = (a + di) * tex + sp
    return out


def hard_blend(col, pix, B):
    bg = pix[..., 0] < 0
    c = np.where(bg[..., None], B["bg"].astype(np.float64), col[..., 0, :])
    return np.concatenate([c, (~bg)[..., None].astype(np.float64)], -1)


def sigmoid(x):
    return 1 / (1 + np.exp(-np.clip(x, -500, 500)))


def soft_blend(col, pix, dist, zbuf, B, znear, zfar):
    m = pix >= 0
    pr = sigmoid(-dist / B["sigma"]) * m
    al = 1 - np.prod(1 - pr, -1)
    zi = (zfar - zbuf) / (zfar - znear) * m
    zm = np.maximum(zi.max(-1, keepdims=True), 1e-10)
    w = pr * np.exp((zi - zm) / B["gamma"])
    de = np.maximum(np.exp((1e-10 - zm) / B["gamma"]), 1e-10)
    c = ((w[..., None] * col).sum(-2) + de * B["bg"]) / (w.sum(-1, keepdims=True) + de)
    return np.concatenate([c, al[..., None]], -1)


def silhouette(pix, dist, B):
    al = 1 - np.prod(1 - sigmoid(-dist / B["sigma"]) * (pix >= 0), -1)
    return np.concatenate([np.ones(pix.shape[:2] + (3,)), al[..., None]], -1)


def hard_depth(pix, zbuf, zfar):
    return np.where(pix[..., :1] < 0, zfar, zbuf[..., :1])


def soft_depth(pix, dist, zbuf, B, zfar):
    p = sigmoid(-dist / B["sigma"]) * (pix >= 0)
    p = np.concatenate([p, np.ones(p.shape[:2] + (1,))], -1)
    z = np.concatenate([zbuf, np.full(p.shape[:2] + (1,), zfar)], -1)
    c = np.minimum(np.cumsum(p, -1), 1)
    return (np.diff(c, axis=-1, prepend=0) * z).sum(-1, keepdims=True)


def clone(x):
    return copy.deepcopy(x)


# ---- point clouds


def draw_clouds(d, g, n, ch):
    s = dict(pts=[], feats=[])
    for i in range(n):
        k = 0 if i and d.chance(1, 10) else d.integer(1, 20)
        s["pts"].append(f32(g.uniform(-0.8, 0.8, (k, 3))))
        # (some are black, or all of a cloud)
        black = g.uniform(0, 1, (k, 1)) < d.pick([0, 0, 0.3, 1])
        s["feats"].append(f32(np.where(black, 0, g.uniform(0, 1, (k, ch)))))
    return s


def make_clouds(s, grad=False):
    l = lambda k: [torch.from_numpy(x.copy()).requires_grad_(grad) for x in s[k]]  # noqa: E731
    return Pointclouds(points=l("pts"), features=l("feats"))


def ref_points(cam, pts, feats, r, how, bg):
    """-> image (H, W, C), doubtful pixels, lists of (z, point, dist2)"""
    h, w = size_of(r)
    x, y = pixel_grid(h, w)
    ch = feats.shape[1]
    img = np.zeros((h, w, ch))
    doubt = np.zeros((h, w), bool)
    q = project(cam, 0, pts) if len(pts) else np.zeros((0, 3))
    K, rad = r["points_per_pixel"], float(r["radius"])
    order = np.argsort(q[:, 2], kind="stable")
    lists = [[None] * w for _ in range(h)]
    for i in range(h):
        for j in range(w):
            d2 = (q[:, 0] - x[j]) ** 2 + (q[:, 1] - y[i]) ** 2
            if (np.abs(np.sqrt(d2) - rad) < 1e-4).any():
                doubt[i, j] = True
            l = [k for k in order if d2[k] < rad * rad and q[k, 2] >= 0]
            for a, b in zip(l[:K], l[1 : K + 1]):
                if q[b, 2] - q[a, 2] < 1e-4:
                    doubt[i, j] = True
            l = l[:K]
            lists[i][j] = [(q[k, 2], int(k), d2[k]) for k in l]
            a = [1 - d2[k] / (rad * rad) for k in l]
            if not l:
                if bg is not None:
                    img[i, j] = bg if len(bg) == ch else list(bg) + [1.0]
            elif how == "alpha":
                left = 1.0
                for k, u in zip(l, a):
                    img[i, j] += left * u * feats[k]
                    left *= 1 - u
            else:
                img[i, j] = sum(u * feats[k] for k, u in zip(l, a)) / max(sum(a), 1e-4)
                if sum(a) < 1e-3:
                    doubt[i, j] = True
    return img, doubt, lists


# ---- volumes


def draw_volumes(d, g, n, ch):
    several = n > 1 and d.chance(1, 2)
    size = lambda: (d.integer(2, 5), d.integer(2, 5), d.integer(2, 5))  # noqa: E731
    s0 = size()
    sizes = [size() if several else s0 for _ in range(n)]
    return dict(
        lists=several or d.chance(1, 3),
        align=several or d.chance(2, 3),
        dens=[f32(g.uniform(0, 0.9, (1,) + z)) for z in sizes],
        feats=[f32(g.uniform(-1, 1, (ch,) + z)) for z in sizes],
        vox=f32(g.uniform(0.3, 0.7, (n, 3))),
        shift=f32(g.uniform(-0.3, 0.3, (n, 3))),
    )


def make_volumes(s, grad=False):
    l = lambda k: [torch.from_numpy(x.copy()).requires_grad_(grad) for x in s[k]]  # noqa: E731
    a, b = l("dens"), l("feats")
    leaves = a + b
    if not s["lists"]:
        a, b = torch.stack(a), torch.stack(b)
    v = Volumes(densities=a, features=b, voxel_size=t(s["vox"]), volume_translation=t(s["shift"]), align_corners=s["align"])
    return (v, leaves) if grad else v


def unproject(s, i, xy, z):
    """world coordinates of the points with these NDC x, y and depth"""
    if s["kind"] in (PERSP, SCREEN):
        v = (xy - s["p"][i]) / s["f"][i] * z
    elif s["kind"] == FOV:
        v = xy * z * np.tan(np.deg2rad(float(s["fov"][i])) / 2)
    elif s["kind"] == ORTHO:
        v = (xy - s["p"][i]) / s["f"][i]
    else:
        v = xy / s["scale"][i, :2]
    v = np.concatenate([v, z], -1).astype(np.float64)
    return (v - s["T"][i]) @ np.linalg.inv(s["R"][i].astype(np.float64))


def trilinear(vol, u, nearest):
    """vol (C, D, H, W), u (P, 3): the index along x, y and z; zeros outside"""
    size = np.array(vol.shape[:0:-1])
    out = np.zeros((len(u), vol.shape[0]))
    if nearest:
        k = np.rint(u).astype(int)
        m = ((k >= 0) & (k < size)).all(1)
        out[m] = vol[:, k[m, 2], k[m, 1], k[m, 0]].T
        return out
    f = np.floor(u).astype(int)
    for c in np.ndindex(2, 2, 2):
        k = f + c
        wt = np.where(np.array(c) == 1, u - f, 1 - (u - f)).prod(1)
        m = ((k >= 0) & (k < size)).all(1)
        out[m] += wt[m, None] * vol[:, k[m, 2], k[m, 1], k[m, 0]].T
    return out


def ref_volume(cam, S, r, nearest):
    """the rendering (H, W, C + 1) of the only volume of S, and doubtful pixels"""
    x, y = pixel_grid(r["h"], r["w"])
    z = np.linspace(r["min_depth"], r["max_depth"], r["n_pts_per_ray"])
    X, Y, Z = np.broadcast_arrays(x[None, :, None], y[:, None, None], z[None, None])
    p = unproject(cam, 0, np.stack([X, Y], -1), Z[..., None])
    size = np.array(S["dens"][0].shape[:0:-1])
    loc = (p + S["shift"][0]) / (0.5 * S["vox"][0].astype(np.float64)) / (size - 1)
    u = (loc + 1) / 2 * (size - 1) if S["align"] else ((loc + 1) * size - 1) / 2
    flat = u.reshape(-1, 3)
    D = trilinear(S["dens"][0].astype(np.float64), flat, nearest).reshape(X.shape)
    F = trilinear(S["feats"][0].astype(np.float64), flat, nearest).reshape(X.shape + (-1,))
    doubt = np.zeros(X.shape[:2], bool)
    if nearest:
        doubt = (np.abs(u - np.floor(u) - 0.5) < 1e-3).any((-1, -2))
    th = r["thickness"]
    if th == 0:
        return (1 - np.prod(1 - D, -1))[..., None], doubt
    cum = np.cumprod(1 - D, -1)
    ab = np.concatenate([np.ones_like(cum[..., :th]), cum[..., :-th]], -1)
    c = ((D * ab)[..., None] * F).sum(-2)
    return np.concatenate([c, (1 - cum[..., -1:])], -1), doubt
