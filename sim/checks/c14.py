"""C14: a JSON index dataset is exactly the selected annotated frames, whatever is
done with it and however its files are read."""

import contextlib
import io
import logging
import os
import pickle
import shutil
import warnings

from .. import disk as dk
from .. import dsworld as dw
from .. import threads as th
from ..core import Scenario, Violation

th.install()
logging.disable(logging.WARNING)

from pytorch3d.implicitron.dataset import json_index_dataset as jid
from pytorch3d.implicitron.dataset import json_index_dataset_map_provider_v2 as v2
from pytorch3d.implicitron.dataset.dataset_map_provider import DatasetMap
from pytorch3d.implicitron.tools.config import expand_args_fields, get_default_args

PROPERTY = "C14"
FILES = [os.path.join(th.REPO, "pytorch3d", "implicitron", "dataset") + os.sep]
expand_args_fields(jid.JsonIndexDataset)
expand_args_fields(v2.JsonIndexDatasetMapProviderV2)
# progress bars and log lines are not what is looked at
jid.tqdm = v2.tqdm = lambda x, **k: x
FAULTS = ["EIO", "EMFILE", "short_write", "EINTR", "EOF"]


class Model:
    """What the dataset must present: frames in order, each with its frame type."""

    def __init__(self, frames, types, evals=None):
        self.frames, self.types, self.evals = list(frames), list(types), evals

    def __len__(self):
        return len(self.frames)

    def index(self):
        return {f.key: i for i, f in enumerate(self.frames)}


class Expected(Exception):
    pass


def select(w, c):
    """The documented filters. -> frames (before the random sampling)"""
    fr = list(w.frames)
    if c["sort_frames"]:
        fr = sorted(fr, key=lambda f: (f.seq.name, f.ts0))
    if c["remove_empty_masks"]:
        if any(f.mask and f.mass is None for f in fr):
            raise Expected("mass")
        fr = [f for f in fr if f.mask and f.mass > 1]
    sq = list(w.seqs)
    if c["subsets"]:
        fr = [f for f in fr if f.subset in c["subsets"]]
        if not fr:
            raise Expected("no frames")
        sq = [s for s in sq if any(f.seq is s for f in fr)]
    if c["limit_category_to"]:
        sq = [s for s in sq if s.cat in c["limit_category_to"]]
    if c["pick_sequence"]:
        sq = [s for s in sq if s.name in c["pick_sequence"]]
    if c["exclude_sequence"]:
        sq = [s for s in sq if s.name not in c["exclude_sequence"]]
    if c["limit_sequences_to"]:
        sq = sq[: c["limit_sequences_to"]]
    return [f for f in fr if f.seq in sq]


def draw_config(d, w):
    c = {
        "remove_empty_masks": d.chance(1, 3),
        "sort_frames": d.chance(1, 4),
        "subsets": None,
        "limit_category_to": (),
        "pick_sequence": (),
        "exclude_sequence": (),
        "limit_sequences_to": 0,
        "limit_to": 0,
        "n_frames_per_sequence": -1,
        "seed": 0,
    }
    names = [s.name for s in w.seqs]
    if d.chance(1, 3):
        c["subsets"] = d.shuffle(w.subset_names)[: d.integer(1, 2)]
    if d.chance(1, 5):
        c["limit_category_to"] = tuple(d.shuffle(w.cats)[: d.integer(1, 2)])
    if d.chance(1, 5):
        c["pick_sequence"] = tuple(d.shuffle(names)[: d.integer(1, 3)])
    if d.chance(1, 5):
        c["exclude_sequence"] = tuple(d.shuffle(names)[: d.integer(1, 2)])
    if d.chance(1, 5):
        c["limit_sequences_to"] = d.integer(1, 3)
    if d.chance(1, 5):
        c["limit_to"] = d.integer(1, 12)
    if d.chance(1, 4):
        c["n_frames_per_sequence"] = d.integer(1, 4)
        c["seed"] = d.choice(5)
    return c


def kwargs(w, c, lists, images, masks):
    k = dict(c)
    k.update(
        frame_annotations_file=w.frame_file,
        sequence_annotations_file=w.seq_file,
        subset_lists_file=w.subset_file if lists else "",
        dataset_root=w.root,
        load_images=images,
        load_masks=masks,
        load_depths=False,
        load_depth_masks=False,
        image_height=None,
        image_width=None,
        box_crop=False,
    )
    return k


def order_of(ds):
    return [(ds[i].sequence_name, int(ds[i].frame_number)) for i in range(len(ds))]


def raises(fn, *types):
    try:
        fn()
    except types:
        return True
    return False


class Case:
    def __init__(self, w, c, lists, images, masks):
        self.w, self.c, self.lists, self.images, self.masks = w, c, lists, images, masks
        self.kw = kwargs(w, c, lists, images, masks)

    def build(self, **over):
        warnings.simplefilter("ignore")
        return jid.JsonIndexDataset(**{**self.kw, **over})

    def type_of(self, f):
        return f.subset if self.lists else None

    def model(self, ctx, ds_of):
        """The reference; the order of randomly sampled frames is taken from the dataset."""
        fr = select(self.w, self.c)
        n, lim = self.c["n_frames_per_sequence"], self.c["limit_to"]
        if n > 0:
            ds = ds_of()
            o = order_of(ds)
            by = {f.key: f for f in fr}
            ctx.check(len(set(o)) == len(o) and set(o) <= set(by), "sampled-frames-not-selected-ones", o, self.c)
            avail, got = {}, {}
            for f in fr:
                avail[f.seq.name] = avail.get(f.seq.name, 0) + 1
            for s, _ in o:
                got[s] = got.get(s, 0) + 1
            want = {s: min(a, n) for s, a in avail.items()}
            if lim > 0:
                ctx.check(len(o) == min(lim, sum(want.values())), "wrong-number-of-frames", len(o), self.c)
                ctx.check(all(got[s] <= want[s] for s in got), "too-many-frames-of-a-sequence", got, want)
            else:
                ctx.check(got == want, "wrong-frames-per-sequence", got, want, self.c)
                if avail:
                    s = sorted(avail)[0]
                    one = order_of(self.build(pick_sequence=(s,), exclude_sequence=(), limit_category_to=(), limit_sequences_to=0))
                    ctx.check(set(one) == {k for k in o if k[0] == s}, "sample-depends-on-other-sequences", one, o)
            ctx.check(order_of(self.build()) == o, "sampling-not-reproducible", o)
            # the same frames in every process
            ctx.event("sampled", o)
            if any(a > n for a in avail.values()):
                ctx.count("process_sensitive")
            fr = [by[k] for k in o]
        elif lim > 0:
            fr = fr[:lim]
        return Model(fr, [self.type_of(f) for f in fr])


# -- queries


def queries(d, w, ds, m, case, root):
    """A drawn query -> (name, call, check(result) -> message)"""
    idx = m.index()
    seqs = []
    for f in m.frames:
        if f.seq not in seqs:
            seqs.append(f.seq)

    def members(s, sub):
        return [
            (i, f) for i, f in enumerate(m.frames) if f.seq is s and (sub is None or m.types[i] in sub)
        ]

    def draw_sub():
        return d.pick([None, None, w.subset_names[:1], w.subset_names[1:], w.subset_names])

    k = d.weighted([4, 3, 2, 2, 2, 1, 3, 1])
    if k == 0 and m.frames:
        i = d.choice(len(m))

        def chk(r):
            return dw.frame_differs(w, m.frames[i], r, m.types[i], case.images, case.masks, root)

        return f"item{i}", lambda: ds[i], chk
    if k == 1 and seqs:
        s, sub = d.pick(seqs), draw_sub()
        e = sorted((f.ts0, f.no, i) for i, f in members(s, sub))
        return "frames_in_order", lambda: list(ds.sequence_frames_in_order(s.name, sub)), lambda r: None if [tuple(x) for x in r] == e else f"{r} not {e}"
    if k == 2 and seqs:
        s, sub = d.pick(seqs), draw_sub()
        e = [i for _, _, i in sorted((f.ts0, f.no, i) for i, f in members(s, sub))]
        return "indices_in_order", lambda: list(ds.sequence_indices_in_order(s.name, sub)), lambda r: None if r == e else f"{r} not {e}"
    if k == 3 and m.frames:
        ii = [d.choice(len(m)) for _ in range(d.integer(0, 5))]
        sub = draw_sub()
        e = [(m.frames[i].no, m.frames[i].ts0) for i in ii if sub is None or m.types[i] in sub]
        return "numbers_and_timestamps", lambda: ds.get_frame_numbers_and_timestamps(ii, sub), lambda r: None if [tuple(x) for x in r] == e else f"{r} not {e}"
    if k == 4:
        e = {}
        for s in seqs:
            e.setdefault(s.cat, set()).add(s.name)

        def chk(r):
            g = {a: set(b) for a, b in r.items()}
            return None if g == e and all(len(b) == len(set(b)) for b in r.values()) else f"{r} not {e}"

        return "category_to_sequence_names", lambda: ds.category_to_sequence_names(), chk
    if k == 5:
        e = sorted(s.name for s in seqs)
        return "sequence_names", lambda: sorted(ds.sequence_names()), lambda r: None if r == e else f"{r} not {e}"
    if k == 6:
        batches, want = [], []
        miss = d.chance(1, 3)
        for _ in range(d.integer(1, 3)):
            b, e = [], []
            for _ in range(d.integer(1, 3)):
                if m.frames and not (miss and d.chance(1, 2)):
                    f = d.pick(m.frames)
                    b.append(d.pick([f.key, f.entry(), list(f.entry())]))
                    e.append(idx[f.key])
                else:
                    b.append(d.pick([("nowhere", 0), (m.frames[0].seq.name if m.frames else "no", 10_000)]))
                    e.append(None)
            batches.append(b)
            want.append(e)
        allow, rem = d.chance(1, 2), d.chance(1, 2)
        bad = any(None in e for e in want)
        if bad and not allow:
            return "missing_index", lambda: raises(lambda: ds.seq_frame_index_to_dataset_index(batches), IndexError), lambda r: None if r else "missing frame not reported"
        if allow and rem:
            want = [x for x in ([y for y in e if y is not None] for e in want) if x]
        return (
            "frame_index",
            lambda: ds.seq_frame_index_to_dataset_index(batches, allow_missing_indices=allow, remove_missing_indices=rem),
            lambda r: None if r == want else f"{r} not {want}",
        )
    n = len(m) + d.choice(3)
    return "past_end", lambda: raises(lambda: ds[n], IndexError), lambda r: None if r else f"index {n} accepted"


def whole(ctx, w, ds, m, case, root, where):
    ctx.check(len(ds) == len(m), "wrong-number-of-frames", len(ds), len(m), where, case.c)
    for i in range(len(ds)):
        msg = dw.frame_differs(w, m.frames[i], ds[i], m.types[i], case.images, case.masks, root)
        ctx.check(msg is None, "wrong-frame", msg, where, case.c)
    ev = ds.get_eval_batches()
    if m.evals is None:
        ctx.check(ev is None, "evaluation-batches-out-of-nowhere", ev, where)
    else:
        got = [[m.frames[i].key for i in b] for b in ev]
        ctx.check(got == m.evals, "evaluation-batches-of-other-frames", got, m.evals, where)


def faulty_build(d, ctx, D, case, model_ok):
    """A build whose reads fail: it says so, or it is right."""
    f = [(d.choice(24), d.pick(FAULTS), d.choice(256))]
    D.reset(f, reads=True)
    ctx.arm(f[0][1])
    D.activate()
    try:
        ds = case.build()
    except Exception as e:
        ds = None
        err = type(e).__name__
    finally:
        D.deactivate()
    fired = D.fired()
    for k, c in fired.items():
        ctx.fault({"short_write": "short_read"}.get(k, k), c)
    if ds is None:
        ctx.event("build raised", err)
        if model_ok and not (set(fired) - {"short_write", "EINTR"}):
            raise Violation("build-fails", f"{err} after {fired} {case.c}")
    return ds


def build(d, ctx, D, case):
    """-> (dataset, model) or None if the configuration is documented to be refused."""
    try:
        select(case.w, case.c)
        refused = False
    except Expected:
        refused = True
    bad = faulty_build(d, ctx, D, case, not refused) if d.chance(1, 4) else None
    if refused:
        ctx.check(bad is None and raises(case.build, ValueError), "bad-configuration-accepted", case.c)
        ctx.count("refused_configurations")
        return None
    ds = case.build()
    m = case.model(ctx, lambda: ds)
    if bad is not None:
        whole(ctx, case.w, bad, m, case, case.w.root, "built with failing reads")
    return ds, m


def scenario(d, ctx):
    warnings.simplefilter("ignore")
    with dk.Disk() as D:
        root = os.path.join(D.data, "root")
        os.mkdir(root)
        images = d.chance(1, 4)
        masks = images and d.chance(1, 2)
        w = dw.draw(d, root=root, blobs=images, mass_none=d.chance(1, 10))
        dw.write_json(w, os.path.join(D.data, "ann"))
        lists = d.chance(2, 3)
        c = draw_config(d, w)
        if c["subsets"]:
            lists = True
        case = Case(w, c, lists, images, masks)
        b = build(d, ctx, D, case)
        ctx.event(c, b is not None and len(b[1]))
        ctx.state(sorted(k for k in c if c[k] and c[k] != -1))
        if b is None:
            return
        ds, m = b
        pool = [(ds, m, case)]
        whole(ctx, w, ds, m, case, root, "built")
        worlds = 1
        for _ in range(d.integer(2, 10)):
            ds, m, case = pool[d.choice(len(pool))]
            op = d.weighted([8, 3, 2, 2, 2])
            if op == 0:
                name, call, chk = queries(d, w, ds, m, case, root)
                msg = chk(call())
                ctx.check(msg is None, "wrong-" + name.rstrip("0123456789"), name, msg, case.c)
            elif op == 1 and m.frames and m.evals is None:
                # a subset
                sel = d.shuffle(list(range(len(m))))[: d.integer(1, len(m))]
                entries = [d.pick([m.frames[i].key, m.frames[i].entry()]) for i in sel]
                filtered = any(
                    [c["remove_empty_masks"], c["limit_to"] > 0, c["limit_sequences_to"] > 0, c["n_frames_per_sequence"] > 0]
                    + [len(c[x]) > 0 for x in ("pick_sequence", "exclude_sequence", "limit_category_to")]
                )
                extra = d.chance(1, 4)
                if extra:
                    entries.insert(d.choice(len(entries) + 1), ("nowhere", 3))
                    if not filtered or d.chance(1, 3):
                        kw = {"allow_missing_indices": False}
                        ctx.check(raises(lambda: ds.subset_from_frame_index(entries, **kw), IndexError), "missing-frame-not-reported")
                        whole(ctx, w, ds, m, case, root, "after a refused subset")
                        continue
                sub = ds.subset_from_frame_index(entries)
                fr = [m.frames[i] for i in sel]
                ty = [f.meta.get("frame_type") if f.meta is not None else m.types[i] for i, f in zip(sel, fr)]
                sm = Model(fr, ty)
                whole(ctx, w, sub, sm, case, root, "subset")
                whole(ctx, w, ds, m, case, root, "parent of a subset")
                pool.append((sub, sm, case))
                ctx.count("subsets")
            elif op == 2 and worlds < 3 and m is pool[0][1]:
                # join with datasets of further annotation files
                others, oms = [], []
                ev = m.evals is not None
                for _ in range(d.integer(1, 2)):
                    ow = dw.draw(d, root=root, blobs=case.images, prefix=f"w{worlds}", uid=w.next_uid + 1000 * worlds, nseq=(1, 2), nframes=(1, 4))
                    worlds += 1
                    dw.write_json(ow, os.path.join(D.data, f"ann{worlds}"))
                    oc = Case(ow, {**case.c, "subsets": None, "limit_to": 0, "pick_sequence": (), "exclude_sequence": (), "limit_category_to": (), "limit_sequences_to": 0, "n_frames_per_sequence": -1, "remove_empty_masks": False}, case.lists, case.images, case.masks)
                    ods = oc.build()
                    om = oc.model(ctx, lambda: ods)
                    if ev:
                        om.evals = [[d.pick(om.frames).key for _ in range(2)]]
                        ods.eval_batches = ods.seq_frame_index_to_dataset_index(om.evals)
                    others.append(ods)
                    oms.append(om)
                if d.chance(1, 5):
                    # some have evaluation batches and some have not: refused and unchanged
                    if ev:
                        others[-1].eval_batches = None
                    else:
                        others[-1].eval_batches = [[0]]
                    ctx.check(raises(lambda: ds.join(others), ValueError), "mixed-evaluation-batches-joined")
                    whole(ctx, w, ds, m, case, root, "after a refused join")
                    continue
                ds.join(others if d.chance(1, 2) else iter(others))
                for om in oms:
                    m.frames += om.frames
                    m.types += om.types
                    if ev:
                        m.evals = m.evals + om.evals
                whole(ctx, w, ds, m, case, root, "joined")
                for o, om in zip(others, oms):
                    whole(ctx, w, o, om, case, root, "joined into another")
                ctx.count("joins")
            elif op == 3 and m.frames and m.evals is None and len(pool) == 1:
                m.evals = [[d.pick(m.frames).key for _ in range(d.integer(1, 3))] for _ in range(d.integer(1, 3))]
                ds.eval_batches = ds.seq_frame_index_to_dataset_index(m.evals)
                whole(ctx, w, ds, m, case, root, "evaluation batches")
            elif op == 4:
                if case.images and m.frames and d.chance(1, 2):
                    # a frame whose files cannot be read right now
                    i = d.choice(len(m))
                    D.reset([(d.choice(8), d.pick(FAULTS), d.choice(256))], reads=True)
                    ctx.arm("item_read")
                    D.activate()
                    try:
                        r = ds[i]
                    except Exception as e:
                        r = None
                    finally:
                        D.deactivate()
                    fired = D.fired()
                    for k, n in fired.items():
                        ctx.fault({"short_write": "short_read"}.get(k, k), n)
                    if r is None:
                        ctx.check(set(fired) - {"short_write", "EINTR"}, "frame-not-readable", fired)
                        r = ds[i]
                    msg = dw.frame_differs(w, m.frames[i], r, m.types[i], case.images, case.masks, root)
                    ctx.check(msg is None, "wrong-frame", msg, "read with", fired)
                else:
                    nt = d.integer(2, 3)
                    jobs = [[queries(d, w, ds, m, case, root) for _ in range(d.integer(1, 3))] for _ in range(nt)]
                    if m.frames and m.evals is None and d.chance(1, 3):
                        sel = d.shuffle(list(range(len(m))))[: d.integer(1, len(m))]
                        e = [m.frames[i].key for i in sel]
                        jobs[0].append(("subset", lambda: order_of(ds.subset_from_frame_index(e)), lambda r: None if r == e else f"{r} not {e}"))

                    def job(qs):
                        return lambda: [q[1]() for q in qs]

                    s = th.Sched(FILES, th.draw_preemptions(d, nt, 0, 24, 8))
                    res = s.run([job(q) for q in jobs])
                    if s.dead:
                        raise Violation("queries-never-finish", str(s.dead))
                    ctx.event("threads", s.points, s.trail)
                    ctx.fault("preemption", s.di) if s.di else None
                    ctx.state("sched", tuple(s.trail))
                    ctx.sim_time += s.points * 1e-6
                    for qs, (ok, r) in zip(jobs, res):
                        if ok != "ok":
                            raise Violation("concurrent-query-fails", f"{[q[0] for q in qs]} {r!r}")
                        for q, x in zip(qs, r):
                            msg = q[2](x)
                            ctx.check(msg is None, "concurrent-query-wrong", q[0], msg)
        for ds, m, case in pool:
            whole(ctx, w, ds, m, case, root, "in the end")
        ctx.nontrivial = True


# -- whole dataset maps of several categories


class SimPool:
    """Stands for multiprocessing.Pool: jobs run in a drawn order, what they are
    called with and what they return travels pickled."""

    d = ctx = None

    def __init__(self, processes=None, *a, **k):
        self.open = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.open = False

    close = terminate = join = lambda self: None

    def _run(self, fn, xs):
        xs = list(xs)
        out = [None] * len(xs)
        order = self.d.shuffle(list(range(len(xs))))
        self.ctx.event("pool", order)
        self.ctx.state("pool", tuple(order))
        for i in order:
            try:
                r = ("ok", pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(fn))(xs[i]))))
            except Exception as e:
                r = ("raise", e)
            out[i] = (order.index(i), r)
        return out

    def imap(self, fn, xs, chunksize=1):
        for _, (k, r) in self._run(fn, xs):
            if k == "raise":
                raise r
            yield r

    def imap_unordered(self, fn, xs, chunksize=1):
        for _, (k, r) in sorted(self._run(fn, xs), key=lambda t: t[0]):
            if k == "raise":
                raise r
            yield r

    def map(self, fn, xs, chunksize=None):
        return list(self.imap(fn, xs))


def maps(d, ctx):
    warnings.simplefilter("ignore")
    SimPool.d, SimPool.ctx = d, ctx
    import multiprocessing

    with dk.Disk() as D:
        root = os.path.join(D.data, "root")
        ncat = d.integer(1, 3)
        cats = ["apple", "car", "mug"][:ncat]
        name = "fewview_dev"
        worlds, lists, evals = {}, {}, {}
        uid = 0
        for c in cats:
            w = dw.draw(d, root=root, prefix=c + "_", cats=[c], uid=uid, nseq=(1, 3), nframes=(1, 5))
            uid = w.next_uid
            worlds[c] = w
            dw.write_json(w, os.path.join(root, c))
            part = {"train": [], "val": [], "test": []}
            for f in w.frames:
                k = d.pick(["train", "val", "test"])
                part[k].append(f)
                if k == "train" and d.chance(1, 4):
                    part["val"].append(f)
            lists[c] = part
            evals[c] = [[d.pick(part["test"]) for _ in range(d.integer(1, 3))] for _ in range(d.integer(1, 3))] if part["test"] else []
            ents = lambda fs: [f.entry() for f in fs]
            dw.dump_json(os.path.join(root, c, "set_lists", f"set_lists_{name}.json"), {k: ents(v) for k, v in part.items()})
            dw.dump_json(os.path.join(root, c, "eval_batches", f"eval_batches_{name}.json"), [ents(b) for b in evals[c]])
        rem = d.chance(1, 4)
        mode = d.weighted([4, 1, 1])
        load_eval = d.chance(3, 4)
        known = d.choice(3) if d.chance(1, 3) else 0
        chosen = d.shuffle(cats)[: d.integer(1, ncat)]
        if any(b and not any(t.seq is b[0].seq for t in lists[c]["train"]) for c in chosen for b in evals[c]):
            known = 0  # nothing known of the sequence
        if any(not all(f.seq is b[0].seq for f in b) for c in chosen for b in evals[c]):
            known = 0

        def build():
            args = get_default_args(v2.JsonIndexDatasetMapProviderV2)
            args.category = ",".join(chosen)
            args.subset_name = name
            args.dataset_root = root
            args.test_on_train = mode == 1
            args.only_test_set = mode == 2
            args.load_eval_batches = load_eval
            args.n_known_frames_for_test = known
            a = args.dataset_JsonIndexDataset_args
            a.remove_empty_masks = rem
            a.load_images = a.load_masks = a.load_depths = a.load_depth_masks = False
            a.box_crop = False
            a.image_height = a.image_width = None
            real = multiprocessing.Pool
            multiprocessing.Pool = SimPool
            try:
                return v2.JsonIndexDatasetMapProviderV2(**args).get_dataset_map()
            finally:
                multiprocessing.Pool = real

        keep = (lambda f: f.mask and f.mass > 1) if rem else (lambda f: True)
        typ = lambda f: f.meta.get("frame_type") if f.meta is not None else None
        with_eval = load_eval and mode != 1

        def verify(dm, where):
            for split in ("train", "val", "test"):
                ds = dm[split]
                if split == "train" and mode == 2:
                    ctx.check(ds is None, "unexpected-train-set", where)
                    continue
                src = "train" if mode == 1 else split
                fr = [f for c in chosen for f in lists[c][src] if keep(f)]
                got = order_of(ds)
                extra = []
                if split == "test" and mode != 1 and known and load_eval:
                    extra = [f for c in chosen for f in lists[c]["train"] if keep(f)]
                    ctx.check(len(set(got)) == len(got) and set(got) >= {f.key for f in fr} and set(got) <= {f.key for f in fr + extra}, "wrong-frames-in-test", got, where)
                else:
                    ctx.check(got == [f.key for f in fr], "wrong-frames-in-" + split, got, [f.key for f in fr], where)
                by = {f.key: f for f in fr + extra}
                for i in range(len(ds)):
                    f = by[got[i]]
                    msg = dw.frame_differs(worlds[f.seq.cat], f, ds[i], typ(f), False, False, root)
                    ctx.check(msg is None, "wrong-frame", msg, where)
                ev = ds.get_eval_batches()
                if split == "test" and with_eval:
                    want = [b for c in chosen for b in evals[c]]
                    ebs = [[ds[i] for i in b] for b in ev]
                    g = [[(r.sequence_name, int(r.frame_number)) for r in b] for b in ebs]
                    wk = [x for x in ([f.key for f in b if keep(f)] for b in want) if x] if not known else None
                    if known:
                        if not rem:
                            ctx.check(len(g) == len(want), "evaluation-batches-lost", g)
                            for b, e in zip(g, want):
                                n = min(known, sum(t.seq is e[0].seq for t in lists[e[0].seq.cat]["train"]))
                                ctx.check(b[: len(e)] == [f.key for f in e], "evaluation-batches-of-other-frames", g, where)
                                kn = {t.key for t in lists[e[0].seq.cat]["train"] if t.seq is e[0].seq}
                                ctx.check(len(b) == len(e) + n and len(set(b[len(e) :])) == n and set(b[len(e) :]) <= kn, "wrong-known-frames", b, e, n)
                    else:
                        ctx.check(g == wk, "evaluation-batches-of-other-frames", g, wk, where)
                else:
                    ctx.check(ev is None, "evaluation-batches-out-of-nowhere", ev, where)

        if not rem and any(not lists[c][k] for c in chosen for k in ("train", "val", "test")):
            pass  # empty splits are allowed
        ctx.state(len(chosen), mode, rem, load_eval, known)
        if d.chance(1, 4):
            D.reset([(d.choice(40), d.pick(FAULTS), d.choice(256))], reads=True)
            ctx.arm("map_read")
            D.activate()
            try:
                dm = build()
            except Exception as e:
                dm = None
                err = repr(e)
            finally:
                D.deactivate()
            fired = D.fired()
            for k, n in fired.items():
                ctx.fault({"short_write": "short_read"}.get(k, k), n)
            if dm is None:
                ctx.check(set(fired) - {"short_write", "EINTR"}, "dataset-map-fails", err, fired)
            else:
                verify(dm, "read with " + str(fired))
        if d.chance(1, 6):
            c = d.pick(chosen)
            p = os.path.join(root, c, d.pick(["frame_annotations.jgz", "sequence_annotations.jgz", f"set_lists/set_lists_{name}.json"]))
            mv = p + ".away"
            os.rename(p, mv)
            ctx.fault("missing_file")
            ctx.check(raises(build, Exception), "missing-file-ignored", p)
            os.rename(mv, p)
        verify(build(), "map")
        ctx.nontrivial = True


SCENARIOS = [
    Scenario("dataset", scenario, 3_000, 200_000, max_wall=60),
    Scenario("map", maps, 800, 50_000, max_wall=60),
]
META = {
    "rule": "a run is one seed: drawn annotation files (sequences, gaps in frame numbers, absent or unordered timestamps, masks, subset lists), a drawn filter "
    "configuration, and 2-10 steps (queries, subsets, joins, evaluation batches, failing reads, queries in threads), each compared with a reference of the filters; "
    "or the dataset maps of 1-3 categories loaded by a simulated worker pool; nontrivial = runs past the configuration being refused",
    "state_measure": "distinct filter combinations, worker orders and thread schedules",
    "real": "pytorch3d.implicitron.dataset (json_index_dataset, frame_data, types, dataset_base, dataset_map_provider, json_index_dataset_map_provider_v2, utils), "
    "tools.config, gzip, PIL",
    "stub": "the process pool that loads categories (run in a drawn order, pickled both ways), disk faults from the LD_PRELOAD shim, thread scheduler, progress bars",
    "assumptions": [
        "sequence names are unique over joined datasets",
        "mask masses are 0, None or at least 2 (the documented and the coded threshold differ between)",
        "datasets with evaluation batches are not subset: the documentation does not say what becomes of the batches",
    ],
    "level": "exploration",
}
