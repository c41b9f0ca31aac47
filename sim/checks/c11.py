"""C11: every representation of a batch of meshes agrees, after any history of
operations, failed or interrupted calls and concurrent readers."""

import copy
import io
import pickle

import numpy as np
import torch

from .. import threads as th
from ..core import Scenario

th.install()

from pytorch3d.renderer.mesh.textures import TexturesAtlas, TexturesUV, TexturesVertex  # noqa: E402
from pytorch3d.structures import Meshes, join_meshes_as_batch, join_meshes_as_scene  # noqa: E402

from .. import meshmodel as mm  # noqa: E402
from ..history import World, history  # noqa: E402

PROPERTY = "C11"
T = torch.from_numpy


def prepare(tier):
    # first calls import modules: do that before any schedule
    for kind in ("vertex", "atlas", "uv"):
        g = np.random.RandomState(0)
        m = build_model([(4, 2), (5, 3)], g, kind, 3)
        o = construct(m, "list")
        for name, (call, _) in mm.accessors(m).items():
            call(o)
        o.clone().detach().to("cpu", copy=True).extend(2)
        o[0].offset_verts(torch.zeros(3)).scale_verts(1.0)
        join_meshes_as_scene(join_meshes_as_batch([o, o]))
        o.update_padded(o.verts_padded().clone())
        with th.OpFaults(None):
            o.clone().verts_normals_packed()
        pickle.loads(pickle.dumps(o))


def build_model(sizes, g, kind, C, normals=False):
    vs, fs, tex = [], [], []
    for V, F in sizes:
        v = g.uniform(-1, 1, (V, 3)).astype(np.float32)
        f = np.array([g.permutation(V)[:3] for _ in range(F)], dtype=np.int64).reshape(-1, 3)
        vs.append(v)
        fs.append(f)
        if kind == "vertex":
            tex.append(g.uniform(0, 1, (V, C)).astype(np.float32))
        elif kind == "atlas":
            tex.append(g.uniform(0, 1, (F, 2, 2, C)).astype(np.float32))
        elif kind == "uv":
            n = int(g.randint(3, 6))
            tex.append(
                (
                    g.uniform(0, 1, (n, 2)).astype(np.float32),
                    g.randint(0, n, (F, 3)).astype(np.int64),
                    g.uniform(0, 1, (3, 4, C)).astype(np.float32),
                )
            )
    n = [g.uniform(-1, 1, (len(v), 3)).astype(np.float32) for v in vs] if normals else None
    return mm.Model(vs, fs, n, mm.Tex(kind, tex) if kind else None)


def construct(m, how, own=None):
    """A Meshes with the content of m.  `own` collects the caller's tensors."""

    def keep(x):
        if own is not None:
            own.append((x, x.clone()))
        return x

    tex = None
    if m.tex is not None:
        k, d = m.tex.kind, m.tex.data
        if how == "list":
            if k == "vertex":
                tex = TexturesVertex([keep(T(x.copy())) for x in d])
            elif k == "atlas":
                tex = TexturesAtlas([keep(T(x.copy())) for x in d])
            else:
                tex = TexturesUV(
                    maps=[keep(T(x[2].copy())) for x in d],
                    faces_uvs=[keep(T(x[1].copy())) for x in d],
                    verts_uvs=[keep(T(x[0].copy())) for x in d],
                )
        else:
            pad = lambda rows, fill=0: T(m.pad(rows, 0, fill, rows[0].shape[1:]))  # noqa: E731
            if k == "vertex":
                tex = TexturesVertex(keep(pad(d)))
            elif k == "atlas":
                tex = TexturesAtlas(keep(pad(d)))
            else:
                tex = TexturesUV(
                    maps=keep(T(np.stack([x[2] for x in d]))),
                    faces_uvs=keep(pad([x[1] for x in d])),
                    verts_uvs=keep(pad([x[0] for x in d])),
                )
    if how == "list":
        n = None if m.n is None else [keep(T(x.copy())) for x in m.n]
        return Meshes(
            verts=[keep(T(x.copy())) for x in m.v], faces=[keep(T(x.copy())) for x in m.f], textures=tex, verts_normals=n
        )
    n = None if m.n is None else keep(T(np.stack(m.n)))
    return Meshes(
        verts=keep(T(np.stack(m.v))), faces=keep(T(m.pad(m.f, 0, -1, (3,)))), textures=tex, verts_normals=n
    )


def draw_batch(w):
    d = w.d
    kind = d.pick([None, "vertex", "atlas", "uv"])
    shape = d.weighted([6, 3, 3, 2, 1])
    n = 1 + d.weighted([3, 4, 3, 2])
    size = lambda: (d.integer(3, 6), d.integer(1, 5))  # noqa: E731
    how = "list"
    if shape == 0:
        sizes = [size() for _ in range(n)]
    elif shape == 1:
        sizes = [size()] * n
    elif shape == 2:
        V = d.integer(3, 6)
        sizes = [(V, d.integer(1, 5)) for _ in range(n)]
        how = "padded"
    elif shape == 3:
        # some members have no faces or nothing at all
        sizes = [d.pick([size(), (0, 0), (3, 0)]) for _ in range(n)]
        if not any(a and b for a, b in sizes):
            sizes = [(0, 0)] * n if d.chance(1, 2) else sizes + [size()]
    else:
        sizes = [(0, 0)] * d.integer(0, 2)
    if not any(a and b for a, b in sizes):
        kind, how = None, "list"
    g = np.random.RandomState(d.seed32())
    m = build_model(sizes, g, kind, d.integer(2, 4), normals=bool(len(sizes)) and d.chance(1, 4))
    o = construct(m, how, w.own)
    w.log.append(f"new({how},{sizes},{kind},n={m.n is not None})")
    return o, m


def draw_call(w, i):
    """An out-of-place operation on pool[i]: (name, fn -> object, model)."""
    d = w.d
    o, m = w.pool[i]
    N = m.N
    k = d.choice(15)
    if m.empty():
        k = k % 3
    if k == 0:
        return "clone", lambda: o.clone(), m.copy()
    if k == 1:
        return "detach", lambda: o.detach(), m.copy()
    if k == 2:
        return "to", lambda: o.to("cpu", copy=True), m.copy()
    if k == 3:
        j = d.choice(2 * N) - N
        if m.tex is not None and not ok_sub(m, [j % N]):
            return "clone", lambda: o.clone(), m.copy()
        return f"[{j}]", lambda: o[j], m.pick([j % N])
    if k == 4:
        a, b = sorted([d.choice(N + 1), d.choice(N + 1)])
        st = d.integer(1, 2)
        idx = list(range(N))[a:b:st]
        if not ok_sub(m, idx):
            a, b, st, idx = 0, N, 1, list(range(N))
        return f"[{a}:{b}:{st}]", lambda: o[a:b:st], m.pick(idx)
    if k in (5, 6, 7):
        idx = [d.choice(N) for _ in range(d.integer(1, 4))]
        if k == 7:
            idx = sorted(set(idx))
        if not ok_sub(m, idx):
            idx = list(range(N))
        if k == 5:
            return f"[{idx}]", lambda: o[list(idx)], m.pick(idx)
        if k == 6:
            return f"[long{idx}]", lambda: o[torch.tensor(idx)], m.pick(idx)
        b = [x in idx for x in range(N)]
        return f"[bool{idx}]", lambda: o[torch.tensor(b)], m.pick(idx)
    if k == 8:
        off, full = draw_offset(d, m)
        return f"offset(full={full})", lambda: o.offset_verts(T(off)), moved(m, off, full)
    if k == 9:
        s, sm = draw_scale(d, m)
        return f"scale({s})", lambda: o.scale_verts(s), sm
    if k == 10:
        g = np.random.RandomState(d.seed32())
        new = m.pad([g.uniform(-1, 1, x.shape).astype(np.float32) for x in m.v], 0, 0, (3,))
        t = T(new.copy())
        w.own.append((t, t.clone()))
        nm = m.changed([new[i, : len(x)] for i, x in enumerate(m.v)])
        # the normals follow the new positions
        nm.n = None
        return "update_padded", lambda: o.update_padded(t), nm
    if k == 11:
        n = d.integer(1, 3)
        return f"extend({n})", lambda: o.extend(n), m.pick([i for i in range(N) for _ in range(n)])
    if k == 12:
        how = d.choice(3)
        if how == 0:
            return "deepcopy", lambda: copy.deepcopy(o), m.copy()
        if how == 1:
            return "pickle", lambda: pickle.loads(pickle.dumps(o)), m.copy()

        def save():
            b = io.BytesIO()
            torch.save(o, b)
            b.seek(0)
            return torch.load(b, weights_only=False)

        return "torch.save", save, m.copy()
    if k == 13:
        js = [d.choice(len(w.pool)) for _ in range(d.integer(1, 2))]
        kind = m.tex.kind if m.tex else None
        js = [i] + [
            j
            for j in js
            if not w.pool[j][1].empty()
            and (w.pool[j][1].tex.kind if w.pool[j][1].tex else None) == kind
            and (kind is None or chans(w.pool[j][1]) == chans(m))
        ]
        objs = [w.pool[j][0] for j in js]
        ms = [w.pool[j][1] for j in js]
        tex = None
        if m.tex is not None:
            tex = mm.Tex(kind, [x for q in ms for x in q.tex.data])
        nm = mm.Model(
            [x for q in ms for x in q.v],
            [x for q in ms for x in q.f],
            None,
            tex,
        )
        if d.chance(1, 3) and kind != "uv":
            sm = nm
            if nm.N > 1:
                st = None
                if tex is not None:
                    st = mm.Tex(kind, [np.concatenate(tex.data)])
                sm = mm.Model([nm.vp()], [nm.fp()], None, st)
            return f"scene{js}", lambda: join_meshes_as_scene(list(objs)), sm
        return f"join{js}", lambda: join_meshes_as_batch(list(objs)), nm
    # submeshes
    pick = []
    vs, fs, td = [], [], []
    for i2 in range(N):
        row = []
        for _ in range(d.integer(0, 2)):
            F = len(m.f[i2])
            ids = [d.choice(F) for _ in range(d.integer(1, 4))] if F else []
            if not ids:
                continue
            row.append(torch.tensor(ids))
            f = m.f[i2][ids]
            u, inv = np.unique(f, return_inverse=True)
            vs.append(m.v[i2][u])
            fs.append(inv.reshape(-1, 3))
            if m.tex:
                x = m.tex.data[i2]
                td.append(x[u] if m.tex.kind == "vertex" else x[ids] if m.tex.kind == "atlas" else (x[0], x[1][ids], x[2]))
        pick.append(row)
    if not vs:
        return "clone", lambda: o.clone(), m.copy()
    nm = mm.Model(vs, fs, None, mm.Tex(m.tex.kind, td) if m.tex else None)
    return f"submeshes{[[len(x) for x in r] for r in pick]}", lambda: o.submeshes(pick), nm


def chans(m):
    d = m.tex.data[0]
    return d[2].shape[-1] if m.tex.kind == "uv" else d.shape[-1]


def ok_sub(m, idx):
    """Batches without any real mesh are only made on purpose."""
    return any(len(m.v[i]) and len(m.f[i]) for i in idx)


def draw_offset(d, m):
    g = np.random.RandomState(d.seed32())
    if d.chance(1, 2):
        return g.uniform(-1, 1, (3,)).astype(np.float32), False
    return g.uniform(-1, 1, m.vp().shape).astype(np.float32), True


def moved(m, off, full):
    vp = m.vp() + off
    nm = m.changed(mm.split(vp, m.nv()))
    if full:
        nm.maybe = True
    return nm


def draw_scale(d, m):
    k = d.choice(3)
    vals = [0.5, 2.0, 3.0, 0.25]
    if k == 0:
        s = d.pick(vals)
        f = [s] * m.N
    else:
        f = [d.pick(vals) for _ in range(m.N)]
        s = torch.tensor(f)
    nm = m.changed([v * np.float32(x) for v, x in zip(m.v, f)])
    nm.maybe = True
    return s, nm


def draw_inplace(w, i):
    d = w.d
    o, m = w.pool[i]
    if d.chance(1, 2):
        off, full = draw_offset(d, m)
        return f"offset_(full={full})", lambda: o.offset_verts_(T(off)), moved(m, off, full)
    s, nm = draw_scale(d, m)
    return f"scale_({s})", lambda: o.scale_verts_(s), nm


def scenario(d, ctx):
    history(World(d, ctx, mm.accessors, draw_call), draw_batch, draw_inplace)


SCENARIOS = [Scenario("history", scenario, quick=6000, thorough=400000, max_wall=70)]

META = {
    "rule": "a run is one seed: 1-2 batches of meshes (lists, padded, equally sized, with empty members, with textures and normals) and 2-10 steps "
    "(accessors, copies, indexing, joins, updates, in-place changes, 2-4 concurrent readers), a third of them with a failing operator or an "
    "interruption; nontrivial = all",
    "state_measure": "distinct thread schedules (points and targets of every switch)",
    "real": "pytorch3d.structures.meshes, pytorch3d.renderer.mesh.textures, torch operators, real Python threads",
    "stub": "scheduler: one thread at a time, switched at line or bytecode boundaries by the seed; operators that fail on request; threading.Lock of pytorch3d modules",
    "assumptions": [
        "threads switch at Python line or bytecode boundaries of pytorch3d code; native operators are atomic",
        "simulated time counts 1 us per traced line",
    ],
    "level": "exploration",
}
