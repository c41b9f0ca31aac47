"""C16: every batch has the composition its loader promises, for all random draws."""

import itertools
import logging
import math
import os
import warnings

import numpy as np
import torch

from .. import disk as dk
from .. import dsworld as dw
from .. import rng
from .. import threads as th
from ..core import Scenario, Violation

th.install()
logging.disable(logging.WARNING)

from pytorch3d.implicitron.dataset import json_index_dataset as jid
from pytorch3d.implicitron.dataset.data_loader_map_provider import (
    BatchConditioningType,
    DoublePoolBatchSampler,
    SequenceDataLoaderMapProvider,
    SimpleDataLoaderMapProvider,
)
from pytorch3d.implicitron.dataset.dataset_base import DatasetBase
from pytorch3d.implicitron.dataset.dataset_map_provider import DatasetMap
from pytorch3d.implicitron.dataset.frame_data import FrameData
from pytorch3d.implicitron.dataset.scene_batch_sampler import SceneBatchSampler
from pytorch3d.implicitron.dataset.single_sequence_dataset import SingleSceneDatasetMapProviderBase
from pytorch3d.implicitron.dataset.train_eval_data_loader_provider import TrainEvalDataLoaderMapProvider
from pytorch3d.implicitron.tools.config import expand_args_fields
from pytorch3d.renderer import PerspectiveCameras
from pytorch3d.structures import Pointclouds

PROPERTY = "C16"
FILES = [os.path.join(th.REPO, "pytorch3d", "implicitron", "dataset") + os.sep]
for cls in (jid.JsonIndexDataset, SequenceDataLoaderMapProvider, SimpleDataLoaderMapProvider, TrainEvalDataLoaderMapProvider):
    expand_args_fields(cls)
jid.tqdm = lambda x, **k: x
SPLITS = ("train", "val", "test")


class ReadFails(OSError):
    pass


class Small(DatasetBase):
    """A dataset of in-memory frames; its reads can fail."""

    def __init__(self, frames, types, clouds, evals=None):
        self.frames, self.types, self.clouds, self.evals = frames, types, clouds, evals
        self._seq_to_idx = {}
        for i, f in enumerate(frames):
            self._seq_to_idx.setdefault(f.seq.name, []).append(i)
        for v in self._seq_to_idx.values():
            v.sort(key=lambda i: (frames[i].ts0, frames[i].no))
        self.fail_in = None
        self.failed = 0

    def __len__(self):
        return len(self.frames)

    def get_frame_numbers_and_timestamps(self, idxs, subset_filter=None):
        return [(self.frames[i].no, self.frames[i].ts0) for i in idxs if subset_filter is None or self.types[i] in subset_filter]

    def get_eval_batches(self):
        return self.evals

    def __getitem__(self, i):
        if self.fail_in is not None:
            self.fail_in -= 1
            if self.fail_in < 0:
                self.fail_in = None
                self.failed += 1
                raise ReadFails(5, "read")
        f = self.frames[i]
        return FrameData(
            frame_number=torch.tensor(f.no),
            frame_timestamp=None if f.ts is None else torch.tensor(f.ts),
            sequence_name=f.seq.name,
            sequence_category=f.seq.cat,
            frame_type=self.types[i],
            image_rgb=torch.full((3, 2, 2), float(f.uid)),
            fg_probability=torch.full((1, 2, 2), float(f.uid)) if f.mask else None,
            sequence_point_cloud=self.clouds.get(f.seq.name),
        )


class M:
    """What is known about one dataset: its frames in index order."""

    def __init__(self, frames, types, evals=None):
        self.frames, self.types, self.evals = frames, types, evals
        self.key = {f.key: i for i, f in enumerate(frames)}
        self.seqs = {}
        for i, f in enumerate(frames):
            self.seqs.setdefault(f.seq, []).append(i)
        self.order = {s: sorted(v, key=lambda i: (frames[i].ts0, frames[i].no)) for s, v in self.seqs.items()}
        self.cats = {}
        for s in self.seqs:
            self.cats.setdefault(s.cat, []).append(s)

    def __len__(self):
        return len(self.frames)

    def segments(self, s, gap, gap_s):
        o = self.order[s]
        if gap <= 0 and gap_s <= 0:
            return [list(o)]
        out = [[o[0]]]
        for a, b in zip(o, o[1:]):
            fa, fb = self.frames[a], self.frames[b]
            if (gap > 0 and fb.no - fa.no > gap) or (gap_s > 0 and fb.ts0 - fa.ts0 > gap_s):
                out.append([b])
            else:
                out[-1].append(b)
        return out


def scene_batch_wrong(m, batch, bs, options, consecutive, gap, gap_s, category_aware):
    """None or why no drawing of the documented procedure gives this batch."""
    if not 0 < len(batch) <= bs:
        return f"{len(batch)} frames, not 1..{bs}"
    if any(not 0 <= i < len(m) for i in batch):
        return "not a frame"
    if len(set(batch)) != len(batch):
        return "repeated frame"
    groups = []
    for i in batch:
        s = m.frames[i].seq
        if groups and groups[-1][0] is s:
            groups[-1][1].append(i)
        else:
            groups.append((s, [i]))
    if len({s.name for s, _ in groups}) != len(groups):
        return "sequence split over the batch"
    why = []
    for k in sorted(set(options)):
        r = fits(m, groups, len(batch), bs, k, consecutive, gap, gap_s, category_aware)
        if r is None:
            return None
        why.append(f"{k} per sequence: {r}")
    return "; ".join(why)


def fits(m, groups, total, bs, k, consecutive, gap, gap_s, category_aware):
    nseq = -(-bs // k)
    if len(groups) > nseq:
        return f"{len(groups)} sequences, not {nseq}"
    for gi, (s, g) in enumerate(groups):
        cut = total == bs and gi == len(groups) - 1
        if not consecutive:
            want = min(k, len(m.seqs[s]))
            if len(g) != want and not (cut and len(g) < want):
                return f"{len(g)} frames of {s.name}, not {want}"
            continue
        segs = m.segments(s, gap, gap_s)
        top = max(len(x) for x in segs)
        segs = [x for x in segs if len(x) >= k] if top >= k else [x for x in segs if len(x) == top]
        want = min(k, top)
        if len(g) != want and not (cut and len(g) < want):
            return f"{len(g)} frames of {s.name}, not {want}"
        for x in segs:
            # a cut window continues within its segment
            if any(x[p : p + len(g)] == g for p in range(len(x) - want + 1)):
                break
        else:
            return f"not a window of {s.name}"
    per = {}
    for s, _ in groups:
        per[s.cat] = per.get(s.cat, 0) + 1
    if category_aware:
        if len(m.cats) >= nseq and max(per.values()) > 1:
            return "a category twice while others are left"
        if total < bs:
            if len(m.cats) >= nseq:
                if len(groups) != nseq:
                    return f"{len(groups)} sequences, not {nseq}"
            elif len(groups) != nseq and not any(n == len(m.cats[c]) for c, n in per.items()):
                return f"{len(groups)} sequences, not {nseq}"
    elif total < bs and len(groups) != min(nseq, len(m.seqs)):
        return f"{len(groups)} sequences, not {min(nseq, len(m.seqs))}"
    return None


def draw_world(d, root=None):
    w = dw.draw(d, root=root, nseq=(1, 6), nframes=(1, 9))
    return w


def draw_scene_config(d):
    c = dict(
        batch_size=d.integer(1, 8),
        images_per_seq_options=tuple(d.integer(1, 6) for _ in range(d.integer(1, 3))),
        sample_consecutive_frames=d.chance(1, 2),
        consecutive_frames_max_gap=d.pick([0, 0, 1, 2, 3]),
        consecutive_frames_max_gap_seconds=d.pick([0.0, 0.1, 0.25, 0.3, 0.6]),
    )
    return c


def json_dataset(w, D, **k):
    if not getattr(w, "written", False):
        dw.write_json(w, os.path.join(D.data, "ann"))
        w.written = True
    return jid.JsonIndexDataset(
        frame_annotations_file=w.frame_file,
        sequence_annotations_file=w.seq_file,
        subset_lists_file=w.subset_file,
        dataset_root=w.root,
        load_images=False,
        load_masks=False,
        load_depths=False,
        load_depth_masks=False,
        image_height=None,
        image_width=None,
        box_crop=False,
        remove_empty_masks=False,
        **k,
    )


def clouds_of(d, w):
    kind = d.choice(3)
    out = {}
    for j, s in enumerate(w.seqs):
        if kind == 1 or (kind == 2 and d.chance(1, 2)):
            g = np.random.RandomState(j)
            out[s.name] = Pointclouds(points=torch.from_numpy(g.rand(1, 3 + j, 3).astype("float32")))
    return out


# -- the scene batch sampler


def sampler(d, ctx):
    warnings.simplefilter("ignore")
    with dk.Disk() as D:
        w = draw_world(d, root=D.data)
        real = d.chance(1, 3)
        if real:
            ds = json_dataset(w, D)
        else:
            ds = Small(w.frames, [f.subset for f in w.frames], {})
        ctx.count("json_datasets" if real else "small_datasets")
        m = M(w.frames, [f.subset for f in w.frames])
        with rng.draws(d, ctx, d.chance(2, 3)):
            run_sampler(d, ctx, ds, m)
    ctx.nontrivial = True


def run_sampler(d, ctx, ds, m):
    c = draw_scene_config(d)
    aware = d.chance(1, 2)
    n = d.choice(6)
    s = SceneBatchSampler(ds, num_batches=n, category_aware=aware, **c)
    ctx.state(c["sample_consecutive_frames"], aware, len(c["images_per_seq_options"]), c["batch_size"])
    args = (c["batch_size"], c["images_per_seq_options"], c["sample_consecutive_frames"], c["consecutive_frames_max_gap"], c["consecutive_frames_max_gap_seconds"], aware)

    def look(b):
        msg = scene_batch_wrong(m, [int(i) for i in b], *args)
        ctx.check(msg is None, "batch-not-as-documented", b, msg, c, aware, [str(f) for f in m.frames])
        ctx.count("batches")
        ctx.event(b)

    ctx.check(len(s) == n, "wrong-length", len(s), n)
    for _ in range(d.integer(1, 4)):
        op = d.weighted([4, 2, 2, 2])
        if op == 0:
            bs = list(s)
            ctx.check(len(bs) == n, "wrong-number-of-batches", len(bs), n)
            for b in bs:
                look(b)
        elif op == 1:
            it = iter(s)
            for b in itertools.islice(it, d.choice(n + 1)):
                look(b)
            ctx.fault("abandoned_epoch")
        elif op == 2:
            its, left = [iter(s), iter(s)], [n, n]
            while any(left):
                k = d.choice(2)
                if not left[k]:
                    k = 1 - k
                b = next(its[k], None)
                ctx.check(b is not None, "wrong-number-of-batches", "interleaved")
                look(b)
                left[k] -= 1
            for it in its:
                ctx.check(next(it, None) is None, "wrong-number-of-batches", "interleaved")
        else:
            nt = 2
            sch = th.Sched(FILES, th.draw_preemptions(d, nt, 0, 24, 8))
            res = sch.run([lambda: list(s) for _ in range(nt)])
            ctx.fault("preemption", sch.di) if sch.di else None
            ctx.state("sched", tuple(sch.trail))
            ctx.sim_time += sch.points * 1e-6
            for ok, r in res:
                ctx.check(ok == "ok", "concurrent-epoch-fails", r)
                ctx.check(len(r) == n, "wrong-number-of-batches", len(r), n, "concurrent")
                for b in r:
                    look(b)


# -- how the draws are distributed


def uniform(ctx, counts, total, keys, what, *more):
    """Each of keys equally likely, within seven standard deviations."""
    p = 1 / len(keys)
    dev = 7 * math.sqrt(total * p * (1 - p)) + 1
    for k in keys:
        ctx.check(abs(counts.get(k, 0) - total * p) <= dev, "draws-not-uniform", what, k, counts, total, *more)


def spread(d, ctx):
    warnings.simplefilter("ignore")
    w = draw_world(d)
    ds = Small(w.frames, [f.subset for f in w.frames], {})
    m = M(w.frames, ds.types)
    kind = d.choice(4)
    N = 400
    with rng.draws(d, ctx, False):
        if kind == 0:
            # categories equally often, sequences within them as well, frames too
            bs = d.integer(1, len(m.cats))
            s = SceneBatchSampler(ds, bs, N, (1,), category_aware=True)
            bb = list(s)
            by = {}
            for b in bb:
                for i in b:
                    by.setdefault(m.frames[i].seq.cat, []).append(i)
            n = {c: len(v) for c, v in by.items()}
            uniform(ctx, n, N * bs, list(m.cats), "categories")
            for c, v in by.items():
                q = {}
                for i in v:
                    q[m.frames[i].seq.name] = q.get(m.frames[i].seq.name, 0) + 1
                uniform(ctx, q, len(v), [x.name for x in m.cats[c]], "sequences of a category")
            for sq, fr in m.seqs.items():
                v = [i for b in bb for i in b if m.frames[i].seq is sq]
                if v:
                    uniform(ctx, {i: v.count(i) for i in fr}, len(v), fr, "frames of a sequence")
        elif kind == 1:
            s = SceneBatchSampler(ds, 1, N, (1,), category_aware=False)
            q = {}
            for b in s:
                x = m.frames[b[0]].seq.name
                q[x] = q.get(x, 0) + 1
            uniform(ctx, q, N, [x.name for x in m.seqs], "sequences")
        elif kind == 2:
            # the number of frames per sequence
            opts = tuple(d.shuffle([1, 2, 3, 5])[: d.integer(1, 3)])
            s = SceneBatchSampler(ds, 5, N, opts, category_aware=False)
            big = {x for x in m.seqs if len(m.seqs[x]) >= 5}
            q = {}
            tot = 0
            for b in s:
                f = m.frames[b[0]].seq
                if f in big:
                    g = sum(m.frames[i].seq is f for i in b)
                    q[g] = q.get(g, 0) + 1
                    tot += 1
            if tot:
                uniform(ctx, q, tot, list(opts), "frames per sequence")
        else:
            # windows: with one frame, all eligible ones alike; else each can come up
            k = d.integer(1, 4)
            gap, gap_s = d.pick([0, 1, 2]), d.pick([0.0, 0.1, 0.3])
            s = SceneBatchSampler(ds, k, 40, (k,), sample_consecutive_frames=True, consecutive_frames_max_gap=gap, consecutive_frames_max_gap_seconds=gap_s, category_aware=False)
            seen, tot = {}, {}
            for _ in range(50):
                for b in s:
                    sq = m.frames[b[0]].seq
                    seen[tuple(b)] = seen.get(tuple(b), 0) + 1
                    tot[sq] = tot.get(sq, 0) + 1
            for sq, t in tot.items():
                segs = m.segments(sq, gap, gap_s)
                segs = [x for x in segs if len(x) >= k]
                if not segs:
                    continue
                wins = [tuple(x[p : p + k]) for x in segs for p in range(len(x) - k + 1)]
                if k == 1:
                    uniform(ctx, {a: seen.get(a, 0) for a in wins}, t, wins, "frames of segments")
                elif t > 30 * sum(map(len, segs)):
                    miss = [a for a in wins if a not in seen]
                    ctx.check(not miss, "window-never-drawn", miss, segs, k, t)
    ctx.state("spread", kind)
    ctx.event(kind)
    ctx.count("distributions")
    ctx.nontrivial = True


# -- loaders


def frame_keys(fd):
    no = fd.frame_number
    no = no.tolist() if torch.is_tensor(no) else list(no)
    return [(s, int(n)) for s, n in zip(fd.sequence_name, no)]


def collated_wrong(fd, frames, types, clouds, small):
    """Is fd the collation of these frames?"""
    if frame_keys(fd) != [f.key for f in frames]:
        return f"{frame_keys(fd)}"
    if list(fd.sequence_category) != [f.seq.cat for f in frames]:
        return "categories"
    want = None if any(t is None for t in types) else list(types)
    if (None if fd.frame_type is None else list(fd.frame_type)) != want:
        return f"frame types {fd.frame_type} not {want}"
    if any(f.ts is None for f in frames):
        if fd.frame_timestamp is not None:
            return "timestamps"
    elif [float(x) for x in fd.frame_timestamp] != [f.ts for f in frames]:
        return f"timestamps {fd.frame_timestamp}"
    if not small:
        return None
    want = torch.tensor([float(f.uid) for f in frames])
    if fd.image_rgb.shape != (len(frames), 3, 2, 2) or not bool((fd.image_rgb == want[:, None, None, None]).all()):
        return "images"
    if all(f.mask for f in frames):
        if fd.fg_probability is None or not bool((fd.fg_probability == want[:, None, None, None]).all()):
            return "masks"
    elif fd.fg_probability is not None:
        return "masks"
    cl = [clouds.get(f.seq.name) for f in frames]
    if all(c is not None for c in cl):
        if fd.sequence_point_cloud is None or len(fd.sequence_point_cloud) != len({f.seq.name for f in frames}):
            return "point clouds"
        for i, c in enumerate(cl):
            j = int(fd.sequence_point_cloud_idx[i])
            if not torch.equal(fd.sequence_point_cloud.points_list()[j], c.points_list()[0]):
                return f"point cloud of element {i}"
    elif fd.sequence_point_cloud is not None:
        return "point clouds"
    return None


class Expect:
    """What a loader has to yield: kind and number of batches."""

    def __init__(self, kind, n=None):
        self.kind, self.n = kind, n


def known(t):
    return t.endswith("known")


def expect(cls, c, split, mods, num):
    """-> Expect or an exception type"""
    m, tr = mods[split], mods["train"]
    if m is None:
        return Expect("none")
    bs = c["batch_size"]
    full = len(m) // bs
    simple = Expect("simple", num or full)
    if m.evals is not None and (cls is not TrainEvalDataLoaderMapProvider or split == "test"):
        return Expect("eval", len(m.evals))
    if cls is SimpleDataLoaderMapProvider:
        return simple
    scenes = len(c["images_per_seq_options"]) > 0
    if cls is TrainEvalDataLoaderMapProvider:
        if scenes:
            return Expect("scene", num or len(m))
        if bs == 1:
            return simple
        if tr is None or bs - 1 > len(tr):
            return ValueError
        return Expect("train", num or len(m))
    cond = c[split + "_conditioning_type"]
    if scenes and cond != BatchConditioningType.SAME:
        return ValueError
    if bs == 1 or (not scenes and cond == BatchConditioningType.SAME):
        return simple
    if scenes:
        return Expect("scene", num or len(m))
    if cond == BatchConditioningType.TRAIN:
        if tr is None or bs - 1 > len(tr):
            return ValueError
        return Expect("train", num or len(m))
    nk = sum(known(t) for t in m.types)
    if bs - 1 > nk:
        return ValueError
    return Expect("known", num or len(m) - nk)


def epoch_wrong(m, tr, ex, c, num, batches, whole=True):
    """batches: lists of frame keys. None or a message."""
    bs = c["batch_size"]
    if whole and len(batches) != ex.n:
        return f"{len(batches)} batches, not {ex.n}"
    firsts = []
    for bi, b in enumerate(batches):
        if ex.kind == "eval":
            e = [m.frames[i].key for i in m.evals[bi]]
            if b != e:
                return f"evaluation batch {b} not {e}"
            continue
        if ex.kind == "scene":
            try:
                ii = [m.key[k] for k in b]
            except KeyError as e:
                return f"foreign frame {e}"
            r = scene_batch_wrong(m, ii, bs, c["images_per_seq_options"], c["sample_consecutive_frames"], c["consecutive_frames_max_gap"], c["consecutive_frames_max_gap_seconds"], True)
            if r:
                return f"{b}: {r}"
            continue
        if len(b) != bs:
            return f"batch of {len(b)}, not {bs}"
        if ex.kind == "simple":
            if any(k not in m.key for k in b):
                return f"foreign frame in {b}"
            firsts += b
            continue
        if b[0] not in m.key:
            return f"first frame {b[0]} is not of the dataset"
        pool = tr if ex.kind == "train" else m
        if any(k not in pool.key for k in b[1:]):
            return f"conditioning frames {b[1:]} are not of the {ex.kind} frames"
        if len(set(b[1:])) != bs - 1:
            return f"repeated conditioning frame {b}"
        if ex.kind == "known":
            ty = [m.types[m.key[k]] for k in b]
            if known(ty[0]) or not all(map(known, ty[1:])):
                return f"frame types {ty}"
    if ex.kind == "simple" and not num and len(set(firsts)) != len(firsts):
        return f"frame twice in an epoch {firsts}"
    return None


def loaders(d, ctx):
    warnings.simplefilter("ignore")
    with dk.Disk() as D:
        w = draw_world(d, root=D.data)
        for f in w.frames:
            if f.subset is None:
                f.subset = "train_unseen"
        groups = {x: [f for f in w.frames if f.subset == x] for x in w.subset_names}
        use = {"train": d.pick([["train_known"], ["train_known", "train_unseen"]]), "val": d.pick([["train_unseen"], ["train_unseen", "train_known"]]), "test": d.pick([["test_known"], w.subset_names])}
        clouds = clouds_of(d, w)
        real = d.chance(1, 4)
        mods, sets = {}, {}
        for s in SPLITS:
            fr = [f for f in w.frames if f.subset in use[s]]
            if not fr or (d.chance(1, 8)):
                mods[s] = sets[s] = None
                continue
            ev = None
            if d.chance(1, 4):
                ev = [[d.choice(len(fr)) for _ in range(d.integer(1, 3))] for _ in range(d.integer(1, 4))]
            ty = [f.subset for f in fr]
            mods[s] = M(fr, ty, ev)
            if real:
                sets[s] = json_dataset(w, D, subsets=use[s])
                sets[s].eval_batches = ev
            else:
                sets[s] = Small(fr, ty, clouds, ev)
        ctx.count("json_datasets" if real else "small_datasets")
        dm = DatasetMap(**sets)
        cls = d.pick([SequenceDataLoaderMapProvider, SequenceDataLoaderMapProvider, TrainEvalDataLoaderMapProvider, SimpleDataLoaderMapProvider])
        lens = {s: d.pick([0, 0, 1, 3]) for s in SPLITS}
        c = {"batch_size": d.integer(1, 4), **{f"dataset_length_{s}": lens[s] for s in SPLITS}}
        full = {**c, "images_per_seq_options": (), "sample_consecutive_frames": False, "consecutive_frames_max_gap": 0, "consecutive_frames_max_gap_seconds": 0.1}
        if cls is not SimpleDataLoaderMapProvider:
            if d.chance(1, 3):
                sc = draw_scene_config(d)
                full.update(sc)
            if cls is SequenceDataLoaderMapProvider:
                for s in SPLITS:
                    full[s + "_conditioning_type"] = d.pick(list(BatchConditioningType)) if not full["images_per_seq_options"] or d.chance(1, 8) else BatchConditioningType.SAME
        c = full if cls is not SimpleDataLoaderMapProvider else c
        ex = {s: expect(cls, full, s, mods, lens[s]) for s in SPLITS}
        refused = [s for s in SPLITS if ex[s] is ValueError]
        # conditioning on frames of a type there are none of is refused at some point
        odd = [s for s in SPLITS if isinstance(ex[s], Expect) and ex[s].kind == "known" and all(known(t) for t in mods[s].types)]
        ctx.state(cls.__name__, [getattr(ex[s], "kind", "refused") for s in SPLITS])
        if odd:
            ctx.count("no_unseen_frames")
            ctx.event("odd")
            return
        with rng.draws(d, ctx, d.chance(1, 2)):
            provider = cls(**c)
            if not real and d.chance(1, 4):
                s = d.pick(SPLITS)
                if sets[s] is not None:
                    sets[s].fail_in = d.choice(6)
                    ctx.arm("read_error")
            try:
                lm = provider.get_data_loader_map(dm)
            except ValueError:
                ctx.check(refused, "configuration-refused", c)
                ctx.event("refused")
                ctx.count("refused_configurations")
                return
            except ReadFails:
                ctx.fault("read_error")
                lm = None
            for s in SPLITS:
                if not real and sets[s] is not None:
                    sets[s].fail_in = None
            if lm is None:
                try:
                    lm = provider.get_data_loader_map(dm)
                except ValueError:
                    ctx.check(refused, "configuration-refused", c)
                    return
            ctx.check(not refused, "configuration-accepted", refused, c)
            for s in SPLITS:
                ctx.check((lm[s] is None) == (ex[s].kind == "none"), "loader-missing", s)
                if lm[s] is not None:
                    ctx.check(len(lm[s]) == ex[s].n, "wrong-length", s, len(lm[s]), ex[s].n, ex[s].kind, c)
            run_loaders(d, ctx, lm, mods, sets, ex, full, lens, clouds, real)
    ctx.nontrivial = True


def run_loaders(d, ctx, lm, mods, sets, ex, c, lens, clouds, real):
    allf = {}
    for m in mods.values():
        if m is not None:
            allf.update({f.key: (f, t) for f, t in zip(m.frames, m.types)})

    def take(fd):
        k = frame_keys(fd)
        for x in k:
            ctx.check(x in allf, "foreign-frame", x)
        fr = [allf[x][0] for x in k]
        msg = collated_wrong(fd, fr, [f.subset for f in fr], clouds, not real)
        ctx.check(msg is None, "batch-is-not-its-frames", msg, k)
        ctx.count("batches")
        return k

    have = [s for s in SPLITS if lm[s] is not None]
    if not have:
        return

    def look(s, batches, whole, how):
        ks = [take(b) for b in batches]
        msg = epoch_wrong(mods[s], mods["train"], ex[s], c, lens[s], ks, whole)
        ctx.check(msg is None, "epoch-not-as-documented", s, ex[s].kind, msg, how, c)
        ctx.event(s, how, ks)

    for _ in range(d.integer(1, 5)):
        s = d.pick(have)
        op = d.weighted([4, 2, 2, 2, 3])
        if op == 0:
            look(s, list(lm[s]), True, "epoch")
        elif op == 1:
            it = iter(lm[s])
            out = list(itertools.islice(it, d.choice(ex[s].n + 1)))
            ctx.fault("abandoned_epoch")
            look(s, out, False, "abandoned")
        elif op == 2:
            s2 = d.pick(have)
            its, out, names, live = [iter(lm[s]), iter(lm[s2])], [[], []], [s, s2], [True, True]
            while any(live):
                k = d.choice(2)
                if not live[k]:
                    k = 1 - k
                x = next(its[k], None)
                if x is None:
                    live[k] = False
                else:
                    out[k].append(x)
            for n, o in zip(names, out):
                look(n, o, True, "interleaved")
        elif op == 3 and not real:
            # a read fails in the middle of an epoch; the next epoch is a whole one
            targets = [x for x in SPLITS if sets[x] is not None]
            t = d.pick(targets)
            before = sets[t].failed
            sets[t].fail_in = d.choice(8)
            ctx.arm("read_error")
            out = []
            try:
                for x in lm[s]:
                    out.append(x)
                done = True
            except ReadFails:
                done = False
            fired = sets[t].failed - before
            sets[t].fail_in = None
            ctx.check(done == (not fired), "failed-read-hidden", s, t)
            if fired:
                ctx.fault("read_error")
            look(s, out, done, "failing reads")
            if not done:
                look(s, list(lm[s]), True, "after a failed read")
        elif op == 4:
            names = [s, d.pick(have)]
            sch = th.Sched(FILES, th.draw_preemptions(d, 2, 0, 24, 9))
            res = sch.run([(lambda n=n: list(lm[n])) for n in names])
            ctx.fault("preemption", sch.di) if sch.di else None
            ctx.state("sched", tuple(sch.trail))
            ctx.sim_time += sch.points * 1e-6
            for n, (ok, r) in zip(names, res):
                ctx.check(ok == "ok", "concurrent-epoch-fails", r)
                look(n, r, True, "concurrent")


# -- the pools


def pools(d, ctx):
    nf, nr = d.integer(1, 7), d.integer(0, 7)
    ids = d.shuffle(list(range(30)))
    first, rest = ids[:nf], (ids[nf : nf + nr] if d.chance(3, 4) else ids[:nr])
    bs = d.integer(1, 4)
    repl, num = d.chance(1, 2), d.pick([None, 0, 1, 3, 8, 20])
    if bs - 1 > nr:
        try:
            DoublePoolBatchSampler(first, rest, bs, repl, num)
        except ValueError:
            ctx.event("refused")
            return
        raise Violation("pool-too-small-accepted", f"{bs} {nr}")
    n = num or nf
    seed = d.seed32()
    adv = d.chance(1, 2)
    with rng.draws(d, ctx, adv):
        s = DoublePoolBatchSampler(first, rest, bs, repl, num)
        ctx.check(len(s) == n, "wrong-length", len(s), n)

        def look(bb, how, whole=True):
            if whole:
                ctx.check(len(bb) == n, "wrong-number-of-batches", len(bb), n, how)
            for b in bb:
                ctx.check(len(b) == bs and b[0] in first, "batch-not-as-documented", b, how)
                ctx.check(len(set(b[1:])) == bs - 1 and set(b[1:]) <= set(rest), "conditioning-not-as-documented", b, how)
            if not repl:
                f = [b[0] for b in bb]
                for i in range(0, len(f), nf):
                    x = f[i : i + nf]
                    ctx.check(len(set(x)) == len(x), "first-frame-repeated", f, how)
            ctx.event(how, bb)
            ctx.count("batches", len(bb))

        for _ in range(d.integer(1, 4)):
            op = d.choice(4)
            if op == 0:
                look(list(s), "epoch")
            elif op == 1:
                it = iter(s)
                look(list(itertools.islice(it, d.choice(n + 1))), "abandoned", False)
                ctx.fault("abandoned_epoch")
            elif op == 2:
                its, out = [iter(s), iter(s)], [[], []]
                for k in d.shuffle([0] * n + [1] * n):
                    out[k] += itertools.islice(its[k], 1)
                for o in out:
                    look(o, "interleaved")
            elif not adv:
                torch.manual_seed(seed)
                a = list(s)
                torch.manual_seed(seed)
                b = list(s)
                ctx.check(a == b, "epoch-not-determined-by-the-seed", a, b)
                torch.manual_seed(seed)
                o = list(DoublePoolBatchSampler(first, rest, 1, repl, num))
                ctx.check([x[0] for x in o] == [x[0] for x in a], "first-frames-depend-on-the-batch-size", a, o)
    ctx.state("pools", nf, nr, bs, repl, num)
    ctx.nontrivial = True


# -- scenes with given splits


class Scene(SingleSceneDatasetMapProviderBase):
    def _load_data(self):
        self.poses, self.images, self.fg_probabilities, self.i_split = self.given


def scenes(d, ctx):
    warnings.simplefilter("ignore")
    n = d.integer(3, 10)
    order = d.shuffle(list(range(n)))
    a = d.integer(1, n - 2)
    b = d.integer(a + 1, n - 1)
    split = [np.array(x) for x in (order[:a], order[a:b], order[b:])]
    images = torch.arange(n, dtype=torch.float32)[:, None, None, None].expand(n, 3, 2, 2).clone()
    fg = images[:, :1] / 16 if d.chance(1, 2) else None
    poses = [PerspectiveCameras(T=torch.tensor([[float(i), 0, 0]])) for i in range(n)]
    known_n = d.pick([None, 0, 1, 2, 5])
    adv = d.chance(1, 2)

    def build(k):
        class P(Scene):
            given = (poses, images, fg, split)

        expand_args_fields(P)
        return P(base_dir="", object_name="thing", n_known_frames_for_test=k)

    with rng.draws(d, ctx, adv):
        p = build(known_n)
        for again in range(d.integer(1, 2)):
            dm = p.get_dataset_map()
            for j, s in enumerate(SPLITS):
                own = list(split[j])
                ids = own + (list(split[0]) if j and known_n is not None else [])
                ty = ["known" if j == 0 else "unseen"] * len(own) + ["known"] * (len(ids) - len(own))
                ds = dm[s]
                ctx.check(len(ds) == len(ids), "wrong-number-of-frames", s, len(ds), len(ids))
                for i, (q, t) in enumerate(zip(ids, ty)):
                    fd = ds[i]
                    ok = (
                        torch.equal(fd.image_rgb, images[q])
                        and torch.equal(fd.camera.T, poses[q].T)
                        and fd.frame_type == t
                        and int(fd.frame_number) == i
                        and fd.sequence_category == "thing"
                        and (fg is None) == (fd.fg_probability is None)
                        and (fg is None or torch.equal(fd.fg_probability, fg[q]))
                    )
                    ctx.check(ok, "wrong-frame", s, i)
                ev = ds.get_eval_batches()
                if j < 2:
                    ctx.check(ev is None, "evaluation-batches-out-of-nowhere", s)
                    continue
                want = min(known_n or 0, len(split[0]))
                ctx.check([x[0] for x in ev] == list(range(len(own))), "evaluation-batches-of-other-frames", ev)
                for x in ev:
                    r = x[1:]
                    ctx.check(len(r) == want and len(set(r)) == want and all(len(own) <= i < len(ids) for i in r), "known-frames-of-a-test-batch", x, want)
                if known_n:
                    more = build(known_n + 1).get_dataset_map().test.get_eval_batches()
                    for x, y in zip(ev, more):
                        mm = {order.index(ids[i]) for i in x[1:]}
                        ctx.check(y[: len(x)] == x, "known-frames-change-with-their-number", x, y)
            loader = SequenceDataLoaderMapProvider(batch_size=1).get_data_loader_map(dm).test
            for x, fd in zip(dm.test.get_eval_batches(), loader):
                ctx.check(fd.frame_number.tolist() == x, "wrong-batch", x, fd.frame_number)
                ctx.check(torch.equal(fd.image_rgb, torch.stack([dm.test[i].image_rgb for i in x])), "wrong-batch", x)
                ctx.count("batches")
        cams = p.get_all_train_cameras()
        ctx.check(torch.equal(cams.T, torch.cat([poses[i].T for i in split[0]])), "wrong-train-cameras")
    ctx.event(n, a, b, known_n)
    ctx.state("scene", n, a, b, known_n)
    ctx.nontrivial = True


META = {
    "rule": "a run is one seed: a random world of annotated frames, a configuration, then epochs (whole, abandoned, interleaved, with failing reads, by two threads "
    "with up to 24 preemptions) over samplers and loaders whose random draws are seeded or adversarial",
    "state_measure": "distinct (provider, loader kinds, configuration class) and distinct thread schedules",
    "real": "pytorch3d.implicitron.dataset samplers, loader providers, dataset base, JSON index dataset, collation; torch DataLoader without worker processes",
    "stub": "numpy/torch global random functions (adversary), in-memory dataset with failing reads in place of image files, scheduler for threads",
    "assumptions": [
        "loader worker processes are not simulated (num_workers=0)",
        "adversarial draws stay within the contract of the random functions",
    ],
    "level": "exploration",
}
SCENARIOS = [
    Scenario("sampler", sampler, 4000, 120000),
    Scenario("spread", spread, 400, 6000),
    Scenario("loaders", loaders, 4000, 120000),
    Scenario("pools", pools, 3000, 60000),
    Scenario("scenes", scenes, 600, 10000),
]
