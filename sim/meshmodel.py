"""Reference model of a batch of meshes: plain numpy lists.

A Model knows what every accessor of a Meshes object with this content has to
return, whatever happened to the object before."""

import numpy as np
import torch


class Tex:
    """kind: vertex | atlas | uv.  data: per mesh arrays."""

    def __init__(self, kind, data):
        self.kind, self.data = kind, data

    def pick(self, idx):
        return Tex(self.kind, [self.data[i] for i in idx])


class Model:
    def __init__(self, verts, faces, normals=None, tex=None, maybe=False):
        self.v = [np.asarray(x, dtype=np.float32).reshape(-1, 3) for x in verts]
        self.f = [np.asarray(x, dtype=np.int64).reshape(-1, 3) for x in faces]
        self.n = normals  # user supplied normals or None
        self.maybe = maybe  # user normals may have been forgotten
        self.tex = tex
        self._cache = {}

    def copy(self):
        return Model(self.v, self.f, self.n, self.tex, self.maybe)

    def changed(self, v):
        return Model(v, self.f, self.n, self.tex, self.maybe)

    def pick(self, idx):
        n = None if self.n is None else [self.n[i] for i in idx]
        t = None if self.tex is None else self.tex.pick(idx)
        return Model([self.v[i] for i in idx], [self.f[i] for i in idx], n, t, True)

    @property
    def N(self):
        return len(self.v)

    def empty(self):
        return not any(len(v) and len(f) for v, f in zip(self.v, self.f))

    # -- derived
    def memo(self, name, fn):
        if name not in self._cache:
            self._cache[name] = fn()
        return self._cache[name]

    def nv(self):
        return np.array([len(x) for x in self.v], dtype=np.int64)

    def nf(self):
        return np.array([len(x) for x in self.f], dtype=np.int64)

    def first(self, counts):
        return np.concatenate([[0], np.cumsum(counts)[:-1]]).astype(np.int64) if len(counts) else np.zeros(0, np.int64)

    def vp(self):
        return np.concatenate(self.v) if self.v else np.zeros((0, 3), np.float32)

    def fp(self):
        fi = self.first(self.nv())
        return np.concatenate([f + o for f, o in zip(self.f, fi)]) if self.f else np.zeros((0, 3), np.int64)

    def edges(self):
        def make():
            out, mesh = [], []
            fi = self.first(self.nv())
            for i, f in enumerate(self.f):
                s = set()
                for a, b, c in (f + fi[i]).tolist():
                    for p, q in ((a, b), (b, c), (c, a)):
                        s.add((min(p, q), max(p, q)))
                s = sorted(s)
                out += s
                mesh += [i] * len(s)
            return np.array(out, dtype=np.int64).reshape(-1, 2), np.array(mesh, dtype=np.int64)

        return self.memo("edges", make)

    def f2e(self):
        def make():
            e = {tuple(x): i for i, x in enumerate(self.edges()[0].tolist())}
            r = []
            for a, b, c in self.fp().tolist():
                r.append([e[tuple(sorted(x))] for x in ((b, c), (c, a), (a, b))])
            return np.array(r, dtype=np.int64).reshape(-1, 3)

        return self.memo("f2e", make)

    def areas(self):
        def make():
            v, f = self.vp().astype(np.float64), self.fp()
            c = np.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]]) if len(f) else np.zeros((0, 3))
            a = np.linalg.norm(c, axis=1)
            return c, a

        return self.memo("areas", make)

    def vnormals(self):
        def make():
            c, _ = self.areas()
            s = np.zeros((len(self.vp()), 3))
            f = self.fp()
            for k in range(3):
                np.add.at(s, f[:, k], c)
            return s

        return self.memo("vn", make)

    def laplacian(self):
        V = len(self.vp())
        L = np.zeros((V, V))
        e = self.edges()[0]
        A = np.zeros((V, V))
        for a, b in e.tolist():
            A[a, b] += 1
            A[b, a] += 1
        deg = A.sum(1)
        for a, b in e.tolist():
            L[a, b] += 1 / deg[a] if deg[a] > 0 else 0
            L[b, a] += 1 / deg[b] if deg[b] > 0 else 0
        L[np.arange(V), np.arange(V)] -= 1
        return L

    def pad(self, rows, width, fill, tail):
        m = max([len(r) for r in rows], default=0)
        out = np.full((len(rows), max(m, 0), *tail), fill, dtype=rows[0].dtype if rows else np.float32)
        for i, r in enumerate(rows):
            out[i, : len(r)] = r
        return out


def arr(x):
    return x.detach().numpy() if torch.is_tensor(x) else np.asarray(x)


def same(got, want, tol=0.0):
    g = arr(got)
    if g.shape != want.shape:
        return f"shape {g.shape} instead of {want.shape}"
    if tol == 0.0:
        if not np.array_equal(g, want):
            return f"got {g.tolist()} instead of {want.tolist()}"[:400]
    elif not np.all(np.abs(g - want) <= tol * (1 + np.abs(want))):
        return f"off by {np.abs(g - want).max()}"
    return None


def samelist(got, want, tol=0.0):
    if len(got) != len(want):
        return f"{len(got)} elements instead of {len(want)}"
    for i, (g, w) in enumerate(zip(got, want)):
        r = same(g, w, tol)
        if r:
            return f"element {i}: {r}"
    return None


VTOL = 1e-5


def unit(c, a, lim):
    ok = a > lim
    u = np.zeros_like(c)
    u[ok] = c[ok] / a[ok][:, None]
    return u, ok


def rows_ok(got, want, ok, tol=2e-3):
    g = arr(got)
    if g.shape != want.shape:
        return f"shape {g.shape} instead of {want.shape}"
    if ok.any() and not np.all(np.abs(g[ok] - want[ok]) <= tol):
        return f"got {g[ok].tolist()} instead of {want[ok].tolist()}"[:400]
    return None


def split(x, counts):
    o, out = 0, []
    for c in counts:
        out.append(x[o : o + c])
        o += c
    return out


def check_vn(m, got):
    if m.n is not None:
        w = np.concatenate(m.n)
        r = same(got, w, VTOL)
        if r is None or not m.maybe:
            return r
    s = m.vnormals()
    a = np.linalg.norm(s, axis=1)
    u, ok = unit(s, a, 1e-2)
    return rows_ok(got, u, ok)


def check_packed_from_list(lst, m, chk):
    if len(lst) != m.N:
        return f"{len(lst)} elements instead of {m.N}"
    return chk(m, torch.cat([x for x in lst]))


def check_packed_from_padded(p, m, counts, chk):
    W = max(counts, default=0)
    if tuple(p.shape) != (m.N, W, 3):
        return f"shape {tuple(p.shape)} instead of {(m.N, W, 3)}"
    for i, c in enumerate(counts):
        if arr(p)[i, c:].any():
            return "padding is not zero"
    return chk(m, torch.cat([p[i, :c] for i, c in enumerate(counts)]))


def check_fn(m, got):
    c, a = m.areas()
    u, ok = unit(c, a, 1e-2)
    return rows_ok(got, u, ok)


# name -> (call on the object, check(model, result) -> None | message)
ACC = {
    "verts_list": (lambda o: o.verts_list(), lambda m, r: samelist(r, m.v, VTOL)),
    "faces_list": (lambda o: o.faces_list(), lambda m, r: samelist(r, m.f)),
    "verts_packed": (lambda o: o.verts_packed(), lambda m, r: same(r, m.vp(), VTOL)),
    "faces_packed": (lambda o: o.faces_packed(), lambda m, r: same(r, m.fp())),
    "verts_padded": (lambda o: o.verts_padded(), lambda m, r: same(r, m.pad(m.v, 0, 0, (3,)), VTOL)),
    "faces_padded": (lambda o: o.faces_padded(), lambda m, r: same(r, m.pad(m.f, 0, -1, (3,)))),
    "num_verts_per_mesh": (lambda o: o.num_verts_per_mesh(), lambda m, r: same(r, m.nv())),
    "num_faces_per_mesh": (lambda o: o.num_faces_per_mesh(), lambda m, r: same(r, m.nf())),
    "verts_packed_to_mesh_idx": (
        lambda o: o.verts_packed_to_mesh_idx(),
        lambda m, r: same(r, np.repeat(np.arange(m.N), m.nv())),
    ),
    "faces_packed_to_mesh_idx": (
        lambda o: o.faces_packed_to_mesh_idx(),
        lambda m, r: same(r, np.repeat(np.arange(m.N), m.nf())),
    ),
    "mesh_to_verts_packed_first_idx": (
        lambda o: o.mesh_to_verts_packed_first_idx(),
        lambda m, r: same(r, m.first(m.nv())),
    ),
    "mesh_to_faces_packed_first_idx": (
        lambda o: o.mesh_to_faces_packed_first_idx(),
        lambda m, r: same(r, m.first(m.nf())),
    ),
    "verts_padded_to_packed_idx": (
        lambda o: o.verts_padded_to_packed_idx(),
        lambda m, r: same(
            r,
            np.concatenate([np.arange(c) + i * m.nv().max() for i, c in enumerate(m.nv())]).astype(np.int64),
        ),
    ),
    "edges_packed": (lambda o: o.edges_packed(), lambda m, r: same(r, m.edges()[0])),
    "edges_packed_to_mesh_idx": (lambda o: o.edges_packed_to_mesh_idx(), lambda m, r: same(r, m.edges()[1])),
    "faces_packed_to_edges_packed": (lambda o: o.faces_packed_to_edges_packed(), lambda m, r: same(r, m.f2e())),
    "num_edges_per_mesh": (
        lambda o: o.num_edges_per_mesh(),
        lambda m, r: same(r, np.bincount(m.edges()[1], minlength=m.N)),
    ),
    "mesh_to_edges_packed_first_idx": (
        lambda o: o.mesh_to_edges_packed_first_idx(),
        lambda m, r: same(r, m.first(np.bincount(m.edges()[1], minlength=m.N))),
    ),
    "faces_areas_packed": (
        lambda o: o.faces_areas_packed(),
        lambda m, r: same(r, m.areas()[1] / 2, 1e-4),
    ),
    "faces_normals_packed": (lambda o: o.faces_normals_packed(), check_fn),
    "faces_normals_list": (
        lambda o: o.faces_normals_list(),
        lambda m, r: check_packed_from_list(r, m, check_fn),
    ),
    "faces_normals_padded": (
        lambda o: o.faces_normals_padded(),
        lambda m, r: check_packed_from_padded(r, m, m.nf(), check_fn),
    ),
    "verts_normals_packed": (lambda o: o.verts_normals_packed(), check_vn),
    "verts_normals_list": (
        lambda o: o.verts_normals_list(),
        lambda m, r: check_packed_from_list(r, m, check_vn),
    ),
    "verts_normals_padded": (
        lambda o: o.verts_normals_padded(),
        lambda m, r: check_packed_from_padded(r, m, m.nv(), check_vn),
    ),
    "laplacian_packed": (lambda o: o.laplacian_packed().to_dense(), lambda m, r: same(r, m.laplacian(), 1e-4)),
    "get_bounding_boxes": (
        lambda o: o.get_bounding_boxes() if all(len(v) for v in o.verts_list()) else None,
        lambda m, r: None
        if not all(len(v) for v in m.v)
        else same(r, np.stack([np.stack([v.min(0), v.max(0)], 1) for v in m.v]), VTOL),
    ),
}

# what may be asked of a batch in which no mesh has both vertices and faces
EMPTY_ACC = {
    "verts_list": (lambda o: o.verts_list(), lambda m, r: samelist(r, m.v)),
    "faces_list": (lambda o: o.faces_list(), lambda m, r: samelist(r, m.f)),
    "verts_packed": (lambda o: o.verts_packed(), lambda m, r: None if r.shape == (0, 3) else str(r.shape)),
    "faces_packed": (lambda o: o.faces_packed(), lambda m, r: None if r.shape == (0, 3) else str(r.shape)),
    "verts_padded": (lambda o: o.verts_padded(), lambda m, r: None if r.shape == (m.N, 0, 3) else str(r.shape)),
    "faces_padded": (lambda o: o.faces_padded(), lambda m, r: None if r.shape == (m.N, 0, 3) else str(r.shape)),
    "edges_packed": (lambda o: o.edges_packed(), lambda m, r: None if r.shape == (0, 2) else str(r.shape)),
    "faces_normals_padded": (
        lambda o: o.faces_normals_padded(),
        lambda m, r: None if r.shape == (m.N, 0, 3) else str(r.shape),
    ),
    "verts_normals_list": (
        lambda o: o.verts_normals_list(),
        lambda m, r: None if [x.shape for x in r] == [(0, 3)] * m.N else "shapes",
    ),
}


def fvt(m):
    """Texture at the corners of every face, packed: (sum F, 3, C)."""
    t = m.tex
    out = []
    for i, f in enumerate(m.f):
        d = t.data[i]
        if t.kind == "vertex":
            out.append(d[f] if len(f) else np.zeros((0, 3, d.shape[1]), np.float32))
        elif t.kind == "atlas":
            out.append(np.stack((d[:, 0, -1], d[:, -1, 0], d[:, 0, 0]), 1))
        else:
            vt, ft, mp = d
            H, W, C = mp.shape
            r = np.zeros((len(ft), 3, C), np.float64)
            for a in range(len(ft)):
                for b in range(3):
                    u, v = vt[ft[a, b]].astype(np.float64)
                    x, y = u * (W - 1), (1 - v) * (H - 1)
                    x0, y0 = int(np.floor(x)), int(np.floor(y))
                    for dx in (0, 1):
                        for dy in (0, 1):
                            w = (1 - abs(x - (x0 + dx))) * (1 - abs(y - (y0 + dy)))
                            r[a, b] += w * mp[min(max(y0 + dy, 0), H - 1), min(max(x0 + dx, 0), W - 1)]
            out.append(r)
    return np.concatenate(out)


def tex_corners(o):
    if type(o.textures).__name__ == "TexturesVertex":
        return o.textures.faces_verts_textures_packed(o.faces_packed())
    return o.textures.faces_verts_textures_packed()


TEX_ACC = {
    "vertex": {
        "tex.corners": (tex_corners, lambda m, r: same(r, fvt(m), 1e-5)),
        "tex.list": (lambda o: o.textures.verts_features_list(), lambda m, r: samelist(r, m.tex.data)),
        "tex.packed": (lambda o: o.textures.verts_features_packed(), lambda m, r: same(r, np.concatenate(m.tex.data))),
        "tex.padded": (
            lambda o: o.textures.verts_features_padded(),
            lambda m, r: same(r, m.pad(m.tex.data, 0, 0, m.tex.data[0].shape[1:])),
        ),
    },
    "atlas": {
        "tex.corners": (tex_corners, lambda m, r: same(r, fvt(m), 1e-5)),
        "tex.list": (lambda o: o.textures.atlas_list(), lambda m, r: samelist(r, m.tex.data)),
        "tex.packed": (lambda o: o.textures.atlas_packed(), lambda m, r: same(r, np.concatenate(m.tex.data))),
        "tex.padded": (
            lambda o: o.textures.atlas_padded(),
            lambda m, r: same(r, m.pad(m.tex.data, 0, 0, m.tex.data[0].shape[1:])),
        ),
    },
    "uv": {
        "tex.corners": (tex_corners, lambda m, r: same(r, fvt(m), 1e-4)),
        "tex.faces_list": (
            lambda o: (o.textures.verts_uvs_list(), o.textures.faces_uvs_list()),
            lambda m, r: samelist(
                [v[f] if len(f) else np.zeros((0, 3, 2), np.float32) for v, f in zip(*[[arr(x) for x in y] for y in r])],
                [d[0][d[1]] if len(d[1]) else np.zeros((0, 3, 2), np.float32) for d in m.tex.data],
            ),
        ),
        "tex.maps": (lambda o: o.textures.maps_list(), lambda m, r: samelist(r, [d[2] for d in m.tex.data])),
        "tex.maps_padded": (
            lambda o: o.textures.maps_padded(),
            lambda m, r: same(r, np.stack([d[2] for d in m.tex.data])),
        ),
    },
}


def accessors(m):
    if m.empty():
        return EMPTY_ACC
    a = dict(ACC)
    if m.tex is not None:
        a.update(TEX_ACC[m.tex.kind])
    return a
