"""C15: a SQL index dataset is exactly the selected annotated frames, for every
query, thread and worker process and however its database is read."""

import contextlib
import io
import logging
import os
import pickle
import warnings

from .. import disk as dk
from .. import dsworld as dw
from .. import threads as th
from ..core import Scenario, Violation

th.install()
logging.disable(logging.WARNING)

import sqlalchemy as sa
from pytorch3d.implicitron.dataset import orm_types as ot
from pytorch3d.implicitron.dataset import sql_dataset as sd
from pytorch3d.implicitron.dataset import types as ty
from pytorch3d.implicitron.tools.config import expand_args_fields

PROPERTY = "C15"
FILES = [os.path.join(th.REPO, "pytorch3d", "implicitron", "dataset") + os.sep]
expand_args_fields(sd.SqlIndexDataset)
FAULTS = ["EIO", "EMFILE", "short_write", "EINTR"]

FRAME_SQL = [
    ("frame_number % 2 = 0", lambda f: f.no % 2 == 0),
    ("frame_number = 0 OR frame_number > 2", lambda f: f.no == 0 or f.no > 2),
    ("_mask_mass IS NULL OR _mask_mass > 10", lambda f: f.mass is None or f.mass > 10),
    ("frame_timestamp < 1.0", lambda f: f.ts is not None and f.ts < 1.0),
    ("sequence_name LIKE 'seqb%'", lambda f: f.seq.name.startswith("seqb")),
]
SEQ_SQL = [
    ("category = 'car'", lambda s: s.cat == "car"),
    ("viewpoint_quality_score IS NULL OR category = 'apple'", lambda s: s.quality is None or s.cat == "apple"),
    ("viewpoint_quality_score > 1", lambda s: s.quality is not None and s.quality > 1),
]


def write_orm(w, path):
    """The database written with the annotation classes themselves."""
    e = sa.create_engine(f"sqlite:///{path}")
    ot.Base.metadata.create_all(e, tables=[ot.SqlFrameAnnotation.__table__, ot.SqlSequenceAnnotation.__table__])
    with sa.orm.Session(e) as s:
        # one by one: the order of the rows is that of the annotations
        for f in w.frames:
            s.add(
                ot.SqlFrameAnnotation(
                    sequence_name=f.seq.name,
                    frame_number=f.no,
                    frame_timestamp=f.ts,
                    image=ty.ImageAnnotation(path=f.path, size=(dw.H, dw.W)),
                    depth=None if f.depth is None else ty.DepthAnnotation(*f.depth),
                    mask=ty.MaskAnnotation(f.mask_path, f.mass, f.bbox) if f.mask else None,
                    viewpoint=None if f.vp is None else ty.ViewpointAnnotation(*f.vp),
                )
            )
            s.flush()
        for q in w.seqs:
            s.add(
                ot.SqlSequenceAnnotation(
                    sequence_name=q.name,
                    category=q.cat,
                    video=None if q.video is None else ty.VideoAnnotation(*q.video),
                    point_cloud=None if q.pcl is None else ty.PointCloudAnnotation(*q.pcl),
                    viewpoint_quality_score=q.quality,
                )
            )
            s.flush()
        s.commit()
    e.dispose()
    w.sql_file = path


def draw_config(d, w):
    c = dict(
        remove_empty_masks=d.chance(1, 3),
        subsets=None,
        pick_frames_sql_clause=None,
        pick_categories=(),
        pick_sequences=(),
        pick_sequences_sql_clause=None,
        exclude_sequences=(),
        limit_sequences_per_category_to=0,
        limit_sequences_to=0,
        limit_to=0,
        n_frames_per_sequence=-1,
        seed=0,
    )
    names = [s.name for s in w.seqs]
    if d.chance(2, 5):
        c["subsets"] = d.shuffle(w.subset_names)[: d.integer(1, 3)]
    if d.chance(1, 4):
        c["pick_frames_sql_clause"] = d.choice(len(FRAME_SQL))
    if d.chance(1, 6):
        c["pick_categories"] = tuple(d.shuffle(w.cats)[: d.integer(1, 2)])
    if d.chance(1, 6):
        c["pick_sequences"] = tuple(d.shuffle(names)[: d.integer(1, 3)])
    if d.chance(1, 6):
        c["pick_sequences_sql_clause"] = d.choice(len(SEQ_SQL))
    if d.chance(1, 6):
        c["exclude_sequences"] = tuple(d.shuffle(names)[: d.integer(1, 2)])
    if d.chance(1, 5):
        c["limit_sequences_per_category_to"] = d.integer(1, 2)
    if d.chance(1, 5):
        c["limit_sequences_to"] = d.integer(1, 3)
    if d.chance(1, 5):
        c["limit_to"] = d.integer(1, 12)
    if d.chance(1, 3):
        c["n_frames_per_sequence"] = d.integer(0, 4)
        c["seed"] = d.choice(5)
    return c


def select(w, c):
    sq = list(w.seqs)
    if c["pick_categories"]:
        sq = [s for s in sq if s.cat in c["pick_categories"]]
    if c["pick_sequences"]:
        sq = [s for s in sq if s.name in c["pick_sequences"]]
    if c["exclude_sequences"]:
        sq = [s for s in sq if s.name not in c["exclude_sequences"]]
    if c["pick_sequences_sql_clause"] is not None:
        sq = [s for s in sq if SEQ_SQL[c["pick_sequences_sql_clause"]][1](s)]
    n = c["limit_sequences_per_category_to"]
    if n:
        seen, out = {}, []
        for s in sq:
            seen[s.cat] = seen.get(s.cat, 0) + 1
            if seen[s.cat] <= n:
                out.append(s)
        sq = out
    if c["limit_sequences_to"]:
        sq = sq[: c["limit_sequences_to"]]
    fr = [f for f in w.frames if f.seq in sq]
    if c["subsets"]:
        fr = [f for f in fr if f.subset in c["subsets"]]
    if c["remove_empty_masks"]:
        fr = [f for f in fr if f.mass is None or f.mass != 0]
    if c["pick_frames_sql_clause"] is not None:
        fr = [f for f in fr if FRAME_SQL[c["pick_frames_sql_clause"]][1](f)]
    if c["limit_to"]:
        fr = sorted(fr, key=lambda f: f.key)[: c["limit_to"]]
    return fr


class Case:
    def __init__(self, d, w, c, images, masks):
        self.w, self.c, self.images, self.masks = w, c, images, masks
        kw = dict(c)
        if c["pick_frames_sql_clause"] is not None:
            kw["pick_frames_sql_clause"] = FRAME_SQL[c["pick_frames_sql_clause"]][0]
        if c["pick_sequences_sql_clause"] is not None:
            kw["pick_sequences_sql_clause"] = SEQ_SQL[c["pick_sequences_sql_clause"]][0]
        self.preload = d.chance(1, 3)
        self.precompute = d.chance(1, 3)
        self.scoped = d.chance(1, 3)
        if d.chance(1, 4):
            kw["remove_empty_masks_poll_whole_table_threshold"] = 0
        kw.update(
            sqlite_metadata_file=w.sql_file,
            dataset_root=w.root,
            subset_lists_file=d.pick(w.subset_files),
            preload_metadata=self.preload,
            precompute_seq_to_idx=self.precompute,
            scoped_session=self.scoped,
        )
        self.evals = None
        if not c["pick_categories"] and d.chance(1, 4):
            ev = [[f.key for f in b] for b in w.eval_batches]
            kw["eval_batches_file"] = w.eval_file
            p, x = c["pick_sequences"], c["exclude_sequences"]
            self.evals = [b for b in ev if (not p or b[0][0] in p) and b[0][0] not in x]
        self.kw = kw

    def build(self, **over):
        kw = {**self.kw, **over}
        a = dict(load_images=self.images, load_masks=self.masks, load_depths=False, load_depth_masks=False, box_crop=False, image_height=None, image_width=None, dataset_root=self.w.root)
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return sd.SqlIndexDataset(frame_data_builder_FrameDataBuilder_args=a, **kw)


class Model:
    def __init__(self, frames):
        self.frames = frames
        self.at = {f.key: i for i, f in enumerate(frames)}

    def __len__(self):
        return len(self.frames)


def order_of(ds):
    return [(r.sequence_name, int(r.frame_number)) for r in (ds.meta[i] for i in range(len(ds)))]


def raises(fn, *types):
    try:
        fn()
    except types:
        return True
    return False


def model(ctx, case, ds):
    """Checks which frames the dataset has; their order is the dataset's own."""
    fr = select(case.w, case.c)
    o = order_of(ds)
    by = {f.key: f for f in fr}
    ctx.check(len(ds) == len(o), "wrong-length", len(ds), len(o))
    ctx.check(len(set(o)) == len(o), "frame-twice", o, case.kw)
    n = case.c["n_frames_per_sequence"]
    if n > 0:
        ctx.check(set(o) <= set(by), "frames-not-selected", sorted(set(o) - set(by)), case.kw)
        avail, got = {}, {}
        for f in fr:
            avail[f.seq.name] = avail.get(f.seq.name, 0) + 1
        for s, _ in o:
            got[s] = got.get(s, 0) + 1
        want = {s: min(a, n) for s, a in avail.items()}
        ctx.check(got == want, "wrong-frames-per-sequence", got, want, case.kw)
        ctx.check(order_of(case.build()) == o, "sampling-not-reproducible", o)
    else:
        ctx.check(set(o) == set(by), "wrong-frames", sorted(set(o) ^ set(by)), case.kw)
    return Model([by[k] for k in o])


def ftype(case, f):
    return f.subset if case.c["subsets"] else None


def differs(case, f, r, blobs=True):
    return dw.frame_differs(case.w, f, r, ftype(case, f), case.images and blobs, case.masks, case.w.root)


def whole(ctx, case, ds, m, where):
    for i, f in enumerate(m.frames):
        msg = differs(case, f, ds[i])
        ctx.check(msg is None, "wrong-frame", msg, where, case.kw)
    ev = ds.get_eval_batches()
    g = None if ev is None else [[tuple(e[:2]) for e in b] for b in ev]
    ctx.check(g == case.evals, "wrong-evaluation-batches", g, case.evals, where)


def queries(d, case, ds, m):
    w = case.w
    seqs = []
    for f in m.frames:
        if f.seq not in seqs:
            seqs.append(f.seq)
    k = d.weighted([4, 3, 4, 3, 3, 2, 1, 2, 1])

    def eq(e):
        return lambda r: None if r == e else f"{r} not {e}"

    i = d.choice(len(m))
    f = m.frames[i]
    if k == 0:
        return "item", lambda: ds[i], lambda r: differs(case, f, r)
    if k == 1:
        key = d.pick([f.key, f.entry()])
        return "named_item", lambda: ds[key], lambda r: differs(case, f, r)
    if k == 2 or k == 3:
        s = d.pick(seqs)
        sub = d.pick([None, w.subset_names[:1], w.subset_names[1:], w.subset_names, w.subset_names[0]])
        ok = (lambda f: True) if sub is None else (lambda f: ftype(case, f) in ([sub] if isinstance(sub, str) else sub))
        e = sorted((g.ts0, g.no, j) for j, g in enumerate(m.frames) if g.seq is s and ok(g))
        if k == 2:
            return "frames_in_order", lambda: [tuple(x) for x in ds.sequence_frames_in_order(s.name, sub)], eq(e)
        return "indices_in_order", lambda: list(ds.sequence_indices_in_order(s.name, sub)), eq([j for _, _, j in e])
    if k == 4:
        s = d.pick(seqs)
        ii = d.shuffle([j for j, g in enumerate(m.frames) if g.seq is s])
        ii = ii[: d.integer(1, len(ii))]
        e = [(m.frames[j].no, m.frames[j].ts0) for j in ii]
        return "numbers_and_timestamps", lambda: [tuple(x) for x in ds.get_frame_numbers_and_timestamps(ii)], eq(e)
    if k == 5:
        e = {}
        for s in seqs:
            e.setdefault(s.cat, set()).add(s.name)

        def chk(r):
            g = {a: set(b) for a, b in r.items()}
            return None if g == e and all(len(b) == len(set(b)) for b in r.values()) else f"{r} not {e}"

        return "category_to_sequence_names", lambda: ds.category_to_sequence_names(), chk
    if k == 6:
        return "sequence_names", lambda: sorted(ds.sequence_names()), eq(sorted(s.name for s in seqs))
    if k == 7:
        r = d.choice(2)
        return "metadata", (lambda: ds.meta[i]) if r else (lambda: ds.meta[f.key]), lambda r: differs(case, f, r, False)
    bad = d.pick([("nowhere", 0), (f.seq.name, 10_000), (f.seq.name, f.no, "other/path.png"), len(m) + 2])
    return "missing", lambda: raises(lambda: ds[bad], IndexError), eq(True)


def scenario(d, ctx):
    warnings.simplefilter("ignore")
    with dk.Disk() as D:
        root = os.path.join(D.data, "root")
        os.mkdir(root)
        images = d.chance(1, 5)
        masks = images and d.chance(1, 2)
        orm = d.chance(1, 3)
        w = dw.draw(d, root=root, blobs=images, mass_none=True, none_ts=not orm)
        (write_orm if orm else dw.write_sql)(w, os.path.join(D.data, "meta data.sqlite" if d.chance(1, 8) else "metadata.sqlite"))
        js = os.path.join(D.data, "set_lists.json")
        dw.dump_json(js, dw.set_lists(w.frames, w.subset_names))
        w.subset_files = [js]
        sub_db = os.path.join(D.data, "set_lists.sqlite")
        dw.write_subset_sql(w, sub_db)
        w.subset_files.append(sub_db)
        w.eval_batches = [[d.pick(w.frames) for _ in range(d.integer(1, 3))] for _ in range(d.integer(1, 3))]
        w.eval_file = os.path.join(D.data, "eval_batches.json")
        dw.dump_json(w.eval_file, [[f.key for f in b] for b in w.eval_batches])
        c = draw_config(d, w)
        case = Case(d, w, c, images, masks)
        ctx.event({k: case.kw[k] for k in c}, orm, case.preload, case.precompute, case.scoped)
        ctx.state(sorted(k for k in c if c[k] and c[k] != -1), case.preload, case.precompute, case.scoped)
        bad = None
        empty = not select(w, c)
        if d.chance(1, 3):
            D.reset([(d.choice(40), d.pick(FAULTS), d.choice(256))], reads=True)
            ctx.arm("build_read")
            D.activate()
            try:
                bad = case.build()
            except Exception as e:
                err = repr(e)
            finally:
                D.deactivate()
            fired = D.fired()
            for k, n in fired.items():
                ctx.fault({"short_write": "short_read"}.get(k, k), n)
            if bad is None and not empty and not (set(fired) - {"short_write", "EINTR"}):
                raise Violation("build-fails", f"{err} after {fired} {case.kw}")
        if empty:
            ctx.check(bad is None and raises(case.build, ValueError), "empty-dataset-accepted", case.kw)
            ctx.count("refused_configurations")
            return
        threads_build = d.chance(1, 6)
        if threads_build:
            s = th.Sched(FILES, th.draw_preemptions(d, 2, 0, 12, 8))
            if d.chance(1, 2):
                # as in a process that has not built any dataset yet
                t = ot.Base.metadata.tables.get("__index")
                if t is not None:
                    ot.Base.metadata.remove(t)
            res = s.run([case.build, case.build])
            if s.dead:
                raise Violation("building-never-finishes", str(s.dead))
            ctx.fault("preemption", s.di) if s.di else None
            ctx.event("build threads", s.points, s.trail)
            ctx.state("sched", tuple(s.trail))
            for ok, r in res:
                if ok != "ok":
                    raise Violation("concurrent-build-fails", repr(r))
            ds = res[0][1]
            m2 = model(ctx, case, res[1][1])
        else:
            ds = case.build()
        m = model(ctx, case, ds)
        if bad is not None:
            mb = model(ctx, case, bad)
            whole(ctx, case, bad, mb, f"read with {fired}")
        whole(ctx, case, ds, m, "built")
        for _ in range(d.integer(2, 9)):
            op = d.weighted([8, 3, 3, 1])
            if op == 0:
                name, call, chk = queries(d, case, ds, m)
                msg = chk(call())
                ctx.check(msg is None, "wrong-" + name, msg, case.kw)
            elif op == 1:
                nt = d.integer(2, 3)
                jobs = [[queries(d, case, ds, m) for _ in range(d.integer(1, 3))] for _ in range(nt)]
                s = th.Sched(FILES, th.draw_preemptions(d, nt, 0, 24, 8))
                res = s.run([lambda qs=qs: [q[1]() for q in qs] for qs in jobs])
                if s.dead:
                    raise Violation("queries-never-finish", str(s.dead))
                ctx.event("threads", s.points, s.trail)
                ctx.fault("preemption", s.di) if s.di else None
                ctx.state("sched", tuple(s.trail))
                ctx.sim_time += s.points * 1e-6
                for qs, (ok, r) in zip(jobs, res):
                    if ok != "ok":
                        raise Violation("concurrent-query-fails", f"{[q[0] for q in qs]} {r!r}")
                    for q, x in zip(qs, r):
                        msg = q[2](x)
                        ctx.check(msg is None, "concurrent-query-wrong", q[0], msg)
            elif op == 2:
                # the disk fails while the question is answered
                name, call, chk = queries(d, case, ds, m)
                if name == "missing":
                    continue
                if d.chance(1, 2):
                    ds = case.build()  # with nothing in its caches
                    m = model(ctx, case, ds)
                    name, call, chk = queries(d, case, ds, m)
                    if name == "missing":
                        continue
                D.reset([(d.choice(10), d.pick(FAULTS), d.choice(256))], reads=True)
                ctx.arm("query_read")
                D.activate()
                try:
                    r = ("ok", call())
                except Exception as e:
                    r = ("raise", e)
                finally:
                    D.deactivate()
                fired = D.fired()
                for k, n in fired.items():
                    ctx.fault({"short_write": "short_read"}.get(k, k), n)
                if r[0] == "raise":
                    ctx.check(set(fired) - {"short_write", "EINTR"}, "query-fails-" + name, repr(r[1]), fired)
                    r = ("ok", call())
                    ctx.count("recovered_queries")
                msg = chk(r[1])
                ctx.check(msg is None, "wrong-" + name, msg, "read with", fired)
            else:
                # a worker process, which may die at any moment
                qs = [queries(d, case, ds, m) for _ in range(d.integer(1, 3))]
                die = d.chance(1, 3)
                f = [(d.choice(12), "crash_before", 0)] if die else []
                kind, val = dk.run_process(D, lambda: [q[1]() for q in qs], f, reads=True)
                if D.fired().get("crash_before"):
                    ctx.fault("worker_killed")
                    ctx.check(kind == "crash", "worker-survives", kind)
                elif kind == "exit":
                    for q, x in zip(qs, val):
                        msg = q[2](x)
                        ctx.check(msg is None, "worker-query-wrong", q[0], msg)
                    ctx.count("worker_queries", len(qs))
                else:
                    raise Violation("worker-query-fails", f"{kind} {val}")
        whole(ctx, case, ds, m, "in the end")
        ctx.nontrivial = True


SCENARIOS = [Scenario("sql", scenario, 2_400, 150_000, max_wall=60)]
META = {
    "rule": "a run is one seed: a drawn annotation database (written by hand or with the annotation classes), subset lists (json or sqlite), a drawn combination of "
    "filters, custom SQL clauses, preloading, precomputed indices and sessions, and 2-9 steps (queries, queries in threads, under disk faults, in worker "
    "processes that may be killed), each compared with a reference of the documented filters; nontrivial = runs past the configuration being refused",
    "state_measure": "distinct filter combinations and thread schedules",
    "real": "pytorch3d.implicitron.dataset (sql_dataset, orm_types, frame_data, dataset_base, utils), tools.config, sqlalchemy, sqlite, pandas, PIL, forked worker processes",
    "stub": "disk faults from the LD_PRELOAD shim (pread of sqlite included), thread scheduler",
    "assumptions": [
        "a frame belongs to at most one of the requested subsets and (sequence, frame number) is unique",
        "the order of ordinal indices is the dataset's own (documented as not guaranteed); it has to be the same for every query",
        "threads switch at lines of pytorch3d.implicitron.dataset, not inside sqlalchemy or sqlite",
    ],
    "level": "exploration",
}
