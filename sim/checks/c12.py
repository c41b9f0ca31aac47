"""C12: every representation of a batch of point clouds agrees, after any history
of operations, failed or interrupted calls and concurrent readers."""

import copy
import io
import pickle

import numpy as np
import torch

from .. import threads as th
from ..core import Scenario

th.install()

from pytorch3d.structures import Pointclouds  # noqa: E402
from pytorch3d.structures.pointclouds import join_pointclouds_as_batch, join_pointclouds_as_scene  # noqa: E402

from ..history import World, history  # noqa: E402
from ..meshmodel import VTOL, arr, same, samelist, split  # noqa: E402

PROPERTY = "C12"
T = torch.from_numpy
F32 = np.float32


class Model:
    def __init__(self, p, n=None, f=None):
        self.p, self.n, self.f = p, n, f

    @property
    def N(self):
        return len(self.p)

    def empty(self):
        return not any(len(x) for x in self.p)

    def pick(self, idx):
        g = lambda r: None if r is None else [r[i] for i in idx]  # noqa: E731
        return Model(g(self.p), g(self.n), g(self.f))

    def copy(self):
        return Model(self.p, self.n, self.f)

    def changed(self, p):
        return Model(p, self.n, self.f)

    def np_(self):
        return np.array([len(x) for x in self.p], dtype=np.int64)

    def first(self):
        c = self.np_()
        return np.concatenate([[0], np.cumsum(c)[:-1]]).astype(np.int64)

    def pad(self, rows):
        P = max((len(x) for x in self.p), default=0)
        out = np.zeros((len(rows), P, rows[0].shape[1]), F32)
        for i, r in enumerate(rows):
            out[i, : len(r)] = r
        return out


def opt(rows, fn):
    """Check of an optional field."""

    def chk(m, r):
        want = rows(m)
        if want is None:
            return None if r is None else f"present although never given: {type(r)}"
        if r is None:
            return "missing"
        return fn(m, r, want)

    return chk


def padded_rows(m, r, want):
    # what stands in the padding of normals and features is not specified
    g = arr(r)
    w = m.pad(want)
    if g.shape != w.shape:
        return f"shape {g.shape} instead of {w.shape}"
    return samelist([g[i, : len(x)] for i, x in enumerate(want)], want)


ACC = {
    "points_list": (lambda o: o.points_list(), lambda m, r: samelist(r, m.p, VTOL)),
    "points_packed": (lambda o: o.points_packed(), lambda m, r: same(r, np.concatenate(m.p), VTOL)),
    "points_padded": (lambda o: o.points_padded(), lambda m, r: same(r, m.pad(m.p), VTOL)),
    "num_points_per_cloud": (lambda o: o.num_points_per_cloud(), lambda m, r: same(r, m.np_())),
    "packed_to_cloud_idx": (
        lambda o: o.packed_to_cloud_idx(),
        lambda m, r: same(r, np.repeat(np.arange(m.N), m.np_())),
    ),
    "cloud_to_packed_first_idx": (lambda o: o.cloud_to_packed_first_idx(), lambda m, r: same(r, m.first())),
    "padded_to_packed_idx": (
        lambda o: o.padded_to_packed_idx(),
        lambda m, r: same(
            r, np.concatenate([np.arange(c) + i * m.np_().max() for i, c in enumerate(m.np_())]).astype(np.int64)
        ),
    ),
    "get_bounding_boxes": (
        lambda o: o.get_bounding_boxes() if all(len(v) for v in o.points_list()) else None,
        lambda m, r: None
        if not all(len(v) for v in m.p)
        else same(r, np.stack([np.stack([v.min(0), v.max(0)], 1) for v in m.p]), VTOL),
    ),
    "inside_box": (
        lambda o: o.inside_box(torch.tensor([[-0.5] * 3, [0.5] * 3])),
        lambda m, r: near_box(m, arr(r)),
    ),
    "get_cloud": (
        lambda o: [o.get_cloud(i) for i in range(len(o))],
        lambda m, r: samelist([x[0] for x in r], m.p, VTOL)
        or field([x[1] for x in r], m.n, "normals")
        or field([x[2] for x in r], m.f, "features"),
    ),
}
for name, rows in (("normals", lambda m: m.n), ("features", lambda m: m.f)):
    ACC[name + "_list"] = (
        lambda o, k=name: getattr(o, k + "_list")(),
        opt(rows, lambda m, r, w: samelist(r, w)),
    )
    ACC[name + "_packed"] = (
        lambda o, k=name: getattr(o, k + "_packed")(),
        opt(rows, lambda m, r, w: same(r, np.concatenate(w))),
    )
    ACC[name + "_padded"] = (
        lambda o, k=name: getattr(o, k + "_padded")(),
        opt(rows, padded_rows),
    )

EMPTY_ACC = {
    "points_list": (lambda o: o.points_list(), lambda m, r: None if [len(x) for x in r] == [0] * m.N else "size"),
    "points_packed": (lambda o: o.points_packed(), lambda m, r: None if r.shape == (0, 3) else str(r.shape)),
    "points_padded": (lambda o: o.points_padded(), lambda m, r: None if r.shape == (m.N, 0, 3) else str(r.shape)),
    "packed_to_cloud_idx": (lambda o: o.packed_to_cloud_idx(), lambda m, r: None if len(r) == 0 else str(r)),
    "num_points_per_cloud": (
        lambda o: o.num_points_per_cloud(),
        lambda m, r: None if r.tolist() == [0] * m.N else str(r),
    ),
}


def near_box(m, r):
    p = np.concatenate(m.p)
    if r.shape != (len(p),):
        return f"shape {r.shape}"
    w = (np.abs(p) <= 0.5).all(1)
    sure = (np.abs(np.abs(p) - 0.5) > 1e-4).all(1)
    return None if np.array_equal(r[sure], w[sure]) else "points wrongly classified"


def field(rows, want, name):
    if want is None:
        return None if all(x is None for x in rows) else f"unexpected {name}"
    if any(x is None for x in rows):
        return f"{name} missing"
    return samelist(rows, want)


def accessors(m):
    return EMPTY_ACC if m.empty() else ACC


def construct(w, m, how):
    k = w.keep if w is not None else (lambda x: x)
    if how == "list":
        g = lambda r: None if r is None else [k(T(x.copy())) for x in r]  # noqa: E731
    else:
        g = lambda r: None if r is None else k(T(np.stack(r)))  # noqa: E731
    return Pointclouds(points=g(m.p), normals=g(m.n), features=g(m.f))


def build_model(sizes, g, normals, C):
    u = lambda P, c: g.uniform(-1, 1, (P, c)).astype(F32)  # noqa: E731
    return Model(
        [u(P, 3) for P in sizes],
        [u(P, 3) for P in sizes] if normals else None,
        [u(P, C) for P in sizes] if C else None,
    )


def prepare(tier):
    m = build_model([4, 6], np.random.RandomState(0), True, 2)
    for how in ("list",):
        o = construct(None, m, how)
        for call, _ in ACC.values():
            call(o)
        o.clone().detach().extend(2).offset(torch.zeros(3)).scale(1.0)
        o.update_padded(o.points_padded().clone()).features_packed()
        o.clone().estimate_normals(neighborhood_size=3, assign_to_self=True)
        join_pointclouds_as_scene(join_pointclouds_as_batch([o, o]))
        o.subsample(2)
        pickle.loads(pickle.dumps(o))


def draw_batch(w):
    d = w.d
    n = 1 + d.weighted([3, 4, 3, 2])
    shape = d.weighted([6, 3, 3, 3, 1])
    how = "list"
    if shape == 0:
        sizes = [d.integer(1, 6) for _ in range(n)]
    elif shape in (1, 2):
        sizes = [d.integer(1, 6)] * n
        how = "padded" if shape == 2 else "list"
    elif shape == 3:
        sizes = [d.pick([0, d.integer(1, 6)]) for _ in range(n)]
    else:
        sizes = [0] * d.integer(0, 2)
    nn, C = d.chance(1, 2), d.pick([0, 1, 2, 5])
    m = build_model(sizes, np.random.RandomState(d.seed32()), nn, C)
    if m.empty():
        m = Model(m.p)
    o = construct(w, m, how)
    w.log.append(f"new({how},{sizes},normals={m.n is not None},features={C})")
    return o, m


def draw_scale(d, m):
    vals = [0.5, 2.0, 3.0, -1.0]
    if d.chance(1, 2):
        s = d.pick(vals)
        f = [s] * m.N
    else:
        f = [d.pick(vals) for _ in range(m.N)]
        s = torch.tensor(f)
    return s, m.changed([p * F32(x) for p, x in zip(m.p, f)])


def draw_offset(d, m):
    g = np.random.RandomState(d.seed32())
    full = d.chance(1, 2)
    off = g.uniform(-1, 1, np.concatenate(m.p).shape if full else (3,)).astype(F32)
    return off, m.changed(split(np.concatenate(m.p) + off, m.np_()))


def fresh(d, m, C=3):
    g = np.random.RandomState(d.seed32())
    return [g.uniform(-1, 1, (len(p), C)).astype(F32) for p in m.p]


class Sub:
    """subsample(): any choice of the right number of points, rows kept together."""

    def __init__(self, m, most):
        self.m, self.most = m, most


def draw_call(w, i):
    d = w.d
    o, m = w.pool[i]
    N = m.N
    k = d.choice(13)
    if m.empty():
        k = k % 3
    if k == 0:
        return "clone", lambda: o.clone(), m.copy()
    if k == 1:
        return "detach", lambda: o.detach(), m.copy()
    if k == 2:
        return "to", lambda: o.to("cpu", copy=True), m.copy()
    if k == 3:
        j = d.choice(2 * N) - N
        return f"[{j}]", lambda: o[j], m.pick([j % N])
    if k == 4:
        a, b = sorted([d.choice(N + 1), d.choice(N + 1)])
        if a == b:
            a, b = 0, N
        st = d.integer(1, 2)
        return f"[{a}:{b}:{st}]", lambda: o[a:b:st], m.pick(list(range(N))[a:b:st])
    if k == 5:
        idx = [d.choice(N) for _ in range(d.integer(1, 4))]
        how = d.choice(3)
        if how == 0:
            return f"[{idx}]", lambda: o[list(idx)], m.pick(idx)
        if how == 1:
            return f"[long{idx}]", lambda: o[torch.tensor(idx)], m.pick(idx)
        idx = sorted(set(idx))
        return f"[bool{idx}]", lambda: o[torch.tensor([x in idx for x in range(N)])], m.pick(idx)
    if k == 6:
        off, nm = draw_offset(d, m)
        return f"offset({off.shape})", lambda: o.offset(T(off)), nm
    if k == 7:
        s, nm = draw_scale(d, m)
        return f"scale({s})", lambda: o.scale(s), nm
    if k == 8:
        p = fresh(d, m)
        n = fresh(d, m) if d.chance(1, 3) else None
        f = fresh(d, m, m.f[0].shape[1] if m.f else d.integer(1, 4)) if d.chance(1, 3) else None
        args = [None if x is None else w.keep(T(m.pad(x))) for x in (p, n, f)]
        nm = Model(p, n or m.n, f or m.f)
        return f"update_padded(n={n is not None},f={f is not None})", lambda: o.update_padded(*args), nm
    if k == 9:
        n = d.integer(1, 3)
        return f"extend({n})", lambda: o.extend(n), m.pick([x for x in range(N) for _ in range(n)])
    if k == 10:
        how = d.choice(3)
        if how == 0:
            return "deepcopy", lambda: copy.deepcopy(o), m.copy()
        if how == 1:
            return "pickle", lambda: pickle.loads(pickle.dumps(o)), m.copy()

        def save():
            b = io.BytesIO()
            torch.save(o, b)
            b.seek(0)
            return torch.load(b, weights_only=False)

        return "torch.save", save, m.copy()
    if k == 11:
        js = [i] + [
            j
            for j in [d.choice(len(w.pool)) for _ in range(d.integer(1, 2))]
            if not w.pool[j][1].empty()
            and (w.pool[j][1].n is None) == (m.n is None)
            and (w.pool[j][1].f is None) == (m.f is None)
            and (m.f is None or w.pool[j][1].f[0].shape[1] == m.f[0].shape[1])
        ]
        objs, ms = [w.pool[j][0] for j in js], [w.pool[j][1] for j in js]
        cat = lambda k: None if getattr(m, k) is None else [x for q in ms for x in getattr(q, k)]  # noqa: E731
        nm = Model(cat("p"), cat("n"), cat("f"))
        if d.chance(1, 2):
            g = lambda r: None if r is None else [np.concatenate(r)]  # noqa: E731
            sm = nm if nm.N == 1 else Model(g(nm.p), g(nm.n), g(nm.f))
            return f"scene{js}", lambda: join_pointclouds_as_scene(list(objs)), sm
        return f"join{js}", lambda: join_pointclouds_as_batch(list(objs)), nm
    sizes = []
    while sum(sizes) < N:
        sizes.append(d.integer(1, N - sum(sizes)))
    j = d.choice(len(sizes))
    a = sum(sizes[:j])
    return f"split({sizes})[{j}]", lambda: o.split(list(sizes))[j], m.pick(list(range(a, a + sizes[j])))


def draw_inplace(w, i):
    d = w.d
    o, m = w.pool[i]
    if d.chance(1, 2):
        off, nm = draw_offset(d, m)
        return f"offset_({off.shape})", lambda: o.offset_(T(off)), nm
    s, nm = draw_scale(d, m)
    return f"scale_({s})", lambda: o.scale_(s), nm


def extra(w, i):
    """Operations whose result is not a function of the content alone."""
    d, ctx = w.d, w.ctx
    o, m = w.pool[i]
    if m.empty():
        return
    if d.chance(1, 2):
        most = [d.integer(1, 6) for _ in range(m.N)] if d.chance(1, 2) else d.integer(1, 6)
        w.log.append(f"subsample({most})")
        np.random.seed(d.seed32())
        r = w.call("subsample", lambda: o.subsample(most))
        lim = most if isinstance(most, list) else [most] * m.N
        ps = [arr(x) for x in r.points_list()]
        ctx.check([len(x) for x in ps] == [min(len(p), c) for p, c in zip(m.p, lim)], "subsample-size", w.log)
        full = lambda q, n, f: np.concatenate([q] + [x for x in (n, f) if x is not None], 1)  # noqa: E731
        at_ = lambda r, j: None if r is None else arr(r[j])  # noqa: E731
        idx = []
        for j, a in enumerate(ps):
            got = full(a, at_(r.normals_list(), j), at_(r.features_list(), j))
            have = full(m.p[j], at_(m.n, j), at_(m.f, j))
            ctx.check(got.shape[1] == have.shape[1], "subsample-loses-a-field", w.log)
            at = []
            for row in got:
                dist = np.abs(have - row).sum(1)
                dist[at] = np.inf
                at.append(int(np.argmin(dist)))
            idx.append(at)
        g = lambda r: None if r is None else [x[at] for x, at in zip(r, idx)]  # noqa: E731
        nm = Model(g(m.p), g(m.n), g(m.f))
        w.verify(r, nm, where="(result of subsample)")
        w.pool[i] = (r, nm) if d.chance(1, 2) else (o, m)
        return
    if min(len(p) for p in m.p) < 4:
        return
    w.log.append("estimate_normals(assign)")
    est = w.call("estimate_normals", lambda: o.estimate_normals(neighborhood_size=3, assign_to_self=True))
    nm = Model(m.p, [arr(est)[j, : len(p)].copy() for j, p in enumerate(m.p)], m.f)
    w.pool[i] = (o, nm)
    w.verify(o, nm, where="(after estimate_normals)")


def scenario(d, ctx):
    history(World(d, ctx, accessors, draw_call), draw_batch, draw_inplace, extra)


SCENARIOS = [Scenario("history", scenario, quick=7000, thorough=500000, max_wall=60)]

META = {
    "rule": "a run is one seed: 1-2 batches of point clouds (lists, padded, equally sized, with empty clouds, with and without normals and features) "
    "and 2-10 steps (accessors, copies, indexing, joins, updates, subsampling, in-place changes, 2-4 concurrent readers), a third of them with a "
    "failing operator or an interruption; nontrivial = all",
    "state_measure": "distinct thread schedules (points and targets of every switch)",
    "real": "pytorch3d.structures.pointclouds, pytorch3d.ops used by it, torch operators, real Python threads",
    "stub": "scheduler: one thread at a time, switched at line or bytecode boundaries by the seed; operators that fail on request; threading.Lock of pytorch3d modules",
    "assumptions": [
        "threads switch at Python line or bytecode boundaries of pytorch3d code; native operators are atomic",
        "simulated time counts 1 us per traced line",
    ],
    "level": "exploration",
}
