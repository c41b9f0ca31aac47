"""A random dataset of annotated frames on the simulated disk, the file formats it
is stored in (written here by hand) and the reference for what is to be read back."""

import gzip
import json
import os
import sqlite3
import struct

import numpy as np
from PIL import Image

H, W = 6, 8


class Frame:
    __slots__ = "seq no ts path subset mask bbox mass mask_path depth vp meta uid".split()

    @property
    def key(self):
        return (self.seq.name, self.no)

    @property
    def ts0(self):
        return 0.0 if self.ts is None else self.ts

    def entry(self):
        return (self.seq.name, self.no, self.path)

    def __repr__(self):
        return f"{self.seq.name}/{self.no}"


class Seq:
    __slots__ = "name cat quality pcl video frames".split()


class DsWorld:
    pass


def picture(f):
    g = np.random.RandomState(1000 + f.uid)
    a = g.randint(0, 256, (H, W, 3)).astype(np.uint8)
    a[0, 0] = (f.uid % 256, f.uid // 256, 7)
    return a


def mask_of(f):
    g = np.random.RandomState(5000 + f.uid)
    return (g.rand(H, W) * 255).astype(np.uint8)


def draw(d, nseq=(1, 5), nframes=(1, 7), prefix="", none_ts=True, mass_none=False, root=None, blobs=False, uid=0, cats=None):
    w = DsWorld()
    w.root = root
    ncat = d.integer(1, 3)
    w.cats = cats or [prefix + c for c in ("apple", "car", "mug")[:ncat]]
    w.seqs, w.frames = [], []
    w.subset_names = ["train_known", "train_unseen", "test_known"]
    ts_kind = d.weighted([4, 2, 2 if none_ts else 0, 2 if none_ts else 0])  # video, other order, none, some none
    with_mask = d.pick([0, 1, 2])  # none, all, some
    with_vp, with_depth, with_meta = d.chance(1, 2), d.chance(1, 3), d.chance(1, 2)
    assign_all = d.chance(2, 3)
    for k in range(d.integer(*nseq)):
        s = Seq()
        s.name = f"{prefix}seq{d.pick('bdca')}_{k}"
        s.cat = d.pick(w.cats)
        s.quality = d.pick([None, 0.5, 1.25])
        s.pcl = d.pick([None, (f"{s.name}/pointcloud.ply", 0.75, 12)])
        s.video = d.pick([None, (f"{s.name}/video.mp4", 2.5)])
        s.frames = []
        n = d.integer(*nframes)
        gap = d.chance(1, 3)
        no = d.choice(3) if gap else 0
        for i in range(n):
            f = Frame()
            f.seq, f.no, f.uid = s, no, uid
            uid += 1
            no += d.integer(1, 4) if gap else 1
            if ts_kind == 0:
                f.ts = 0.25 * f.no
            elif ts_kind == 1:
                f.ts = 0.125 * d.choice(16)
            elif ts_kind == 2:
                f.ts = None
            else:
                f.ts = d.pick([None, 0.5, 0.25 * f.no])
            f.path = f"{s.cat}/{s.name}/images/frame{f.uid:06d}.png"
            f.subset = d.pick(w.subset_names + ([] if assign_all else [None]))
            f.mask = with_mask == 1 or (with_mask == 2 and d.chance(1, 2))
            f.mass = f.bbox = f.mask_path = None
            if f.mask:
                f.mass = d.pick([20.5, 2.0, 0.0, 30.0] + ([None] if mass_none else []))
                f.bbox = d.pick([None, (1.0, 1.0, 4.0, 3.0)])
                f.mask_path = f"{s.cat}/{s.name}/masks/frame{f.uid:06d}.png"
            f.depth = (f"{s.cat}/{s.name}/depths/frame{f.uid:06d}.png", 1.5, None) if with_depth else None
            f.vp = None
            if with_vp:
                g = np.random.RandomState(f.uid)
                f.vp = (
                    [[float(np.float32(x)) for x in r] for r in g.randn(3, 3)],
                    [float(np.float32(x)) for x in g.randn(3)],
                    [float(np.float32(x)) for x in 1 + g.rand(2)],
                    [float(np.float32(x)) for x in g.rand(2)],
                    d.pick(["ndc_norm_image_bounds", "ndc_isotropic"]),
                )
            f.meta = None
            if with_meta and d.chance(2, 3):
                f.meta = {"frame_type": d.pick(w.subset_names), "k": d.choice(9)}
                if d.chance(1, 3):
                    f.meta.pop("frame_type")
            s.frames.append(f)
            w.frames.append(f)
        w.seqs.append(s)
    if d.chance(1, 3):
        w.frames = d.shuffle(w.frames)
    if d.chance(1, 3):
        w.seqs = d.shuffle(w.seqs)
    w.next_uid = uid
    w.blobs = blobs
    if blobs and root:
        write_blobs(w)
    return w


def write_blobs(w):
    for f in w.frames:
        p = os.path.join(w.root, f.path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        Image.fromarray(picture(f)).save(p)
        if f.mask:
            p = os.path.join(w.root, f.mask_path)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            Image.fromarray(mask_of(f)).save(p)


def frame_json(f):
    j = {
        "sequence_name": f.seq.name,
        "frame_number": f.no,
        "frame_timestamp": f.ts,
        "image": {"path": f.path, "size": [H, W]},
        "depth": None,
        "mask": None,
        "viewpoint": None,
        "meta": f.meta,
    }
    if f.depth:
        j["depth"] = {"path": f.depth[0], "scale_adjustment": f.depth[1], "mask_path": f.depth[2]}
    if f.mask:
        j["mask"] = {"path": f.mask_path, "mass": f.mass, "bounding_box_xywh": f.bbox}
    if f.vp:
        j["viewpoint"] = dict(zip(("R", "T", "focal_length", "principal_point", "intrinsics_format"), f.vp))
    return j


def seq_json(s):
    return {
        "sequence_name": s.name,
        "category": s.cat,
        "video": None if s.video is None else {"path": s.video[0], "length": s.video[1]},
        "point_cloud": None if s.pcl is None else dict(zip(("path", "quality_score", "n_points"), s.pcl)),
        "viewpoint_quality_score": s.quality,
    }


def gz(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as h:
        h.write(gzip.compress(json.dumps(obj).encode(), mtime=0))


def set_lists(frames, names):
    return {n: [f.entry() for f in frames if f.subset == n] for n in names}


def dump_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as h:
        json.dump(obj, h)


def write_json(w, d):
    w.frame_file = os.path.join(d, "frame_annotations.jgz")
    w.seq_file = os.path.join(d, "sequence_annotations.jgz")
    w.subset_file = os.path.join(d, "set_lists.json")
    gz(w.frame_file, [frame_json(f) for f in w.frames])
    gz(w.seq_file, [seq_json(s) for s in w.seqs])
    dump_json(w.subset_file, set_lists(w.frames, w.subset_names))


def write_sql(w, path, order=None):
    w.sql_file = path
    c = sqlite3.connect(path)
    c.execute(
        "CREATE TABLE frame_annots (sequence_name VARCHAR NOT NULL, frame_number INTEGER NOT NULL, frame_timestamp FLOAT, "
        "_image_path VARCHAR NOT NULL, _image_size BLOB NOT NULL, _depth_path VARCHAR, _depth_scale_adjustment FLOAT, "
        "_depth_mask_path VARCHAR, _mask_path VARCHAR, _mask_mass FLOAT, _mask_bounding_box_xywh BLOB, _viewpoint_R BLOB, "
        "_viewpoint_T BLOB, _viewpoint_focal_length BLOB, _viewpoint_principal_point BLOB, _viewpoint_intrinsics_format VARCHAR, "
        "PRIMARY KEY (sequence_name, frame_number))"
    )
    c.execute(
        "CREATE TABLE sequence_annots (sequence_name VARCHAR NOT NULL PRIMARY KEY, category VARCHAR NOT NULL, _video_path VARCHAR, "
        "_video_length FLOAT, _point_cloud_path VARCHAR, _point_cloud_quality_score FLOAT, _point_cloud_n_points INTEGER, "
        "viewpoint_quality_score FLOAT)"
    )
    for f in w.frames:
        vp = [None] * 5
        if f.vp:
            vp = [
                struct.pack("fffffffff", *np.array(f.vp[0]).reshape(-1)),
                struct.pack("fff", *f.vp[1]),
                struct.pack("ff", *f.vp[2]),
                struct.pack("ff", *f.vp[3]),
                f.vp[4],
            ]
        dp = f.depth or (None, None, None)
        c.execute(
            "INSERT INTO frame_annots VALUES (" + ",".join("?" * 16) + ")",
            (
                f.seq.name, f.no, f.ts, f.path, struct.pack("ii", H, W), *dp, f.mask_path, f.mass,
                None if f.bbox is None else struct.pack("ffff", *f.bbox), *vp,
            ),
        )
    for s in w.seqs:
        c.execute(
            "INSERT INTO sequence_annots VALUES (?,?,?,?,?,?,?,?)",
            (s.name, s.cat, *(s.video or (None, None)), *(s.pcl or (None, None, None)), s.quality),
        )
    c.commit()
    c.close()


# -- what a loaded frame must look like


def frame_differs(w, f, r, frame_type, images, masks, root):
    """None or what is wrong with the FrameData r read for frame f."""

    def num(x):
        return None if x is None else x.item()

    if r.sequence_name != f.seq.name or num(r.frame_number) != f.no:
        return f"frame {r.sequence_name}/{num(r.frame_number)} instead of {f}"
    if num(r.frame_timestamp) != f.ts:
        return f"{f}: timestamp {r.frame_timestamp} not {f.ts}"
    if r.sequence_category != f.seq.cat:
        return f"{f}: category {r.sequence_category} not {f.seq.cat}"
    if r.frame_type != frame_type:
        return f"{f}: frame type {r.frame_type} not {frame_type}"
    if num(r.camera_quality_score) != f.seq.quality:
        return f"{f}: camera quality {r.camera_quality_score}"
    if root is not None:
        if r.image_path != os.path.join(root, f.path):
            return f"{f}: image path {r.image_path}"
        if r.mask_path != (os.path.join(root, f.mask_path) if f.mask_path else None):
            return f"{f}: mask path {r.mask_path}"
    if (r.image_rgb is not None) != images:
        return f"{f}: image loaded {r.image_rgb is not None}"
    if images:
        e = picture(f).astype(np.float32).transpose(2, 0, 1) / 255
        if tuple(r.image_rgb.shape) != e.shape or not np.allclose(r.image_rgb.numpy(), e, atol=1e-6):
            return f"{f}: other image"
    if images and masks and f.mask:
        e = mask_of(f).astype(np.float32)[None] / 255
        if r.fg_probability is None or tuple(r.fg_probability.shape) != e.shape or not np.allclose(r.fg_probability.numpy(), e, atol=1e-6):
            return f"{f}: other mask"
    if (r.camera is not None) != (f.vp is not None):
        return f"{f}: camera {r.camera}"
    if f.vp is not None:
        if not np.allclose(r.camera.R[0].numpy(), f.vp[0], atol=1e-6) or not np.allclose(r.camera.T[0].numpy(), f.vp[1], atol=1e-6):
            return f"{f}: camera pose"
        sc = np.array([W, H]) / min(H, W) if f.vp[4] == "ndc_norm_image_bounds" else np.ones(2)
        if not np.allclose(r.camera.focal_length[0].numpy(), np.array(f.vp[2]) * sc, atol=1e-5):
            return f"{f}: focal length"
        if not np.allclose(r.camera.principal_point[0].numpy(), np.array(f.vp[3]) * sc, atol=1e-5):
            return f"{f}: principal point"
    if f.seq.pcl is not None and num(r.point_cloud_quality_score) != f.seq.pcl[1]:
        return f"{f}: point cloud quality"
    return None


def write_subset_sql(w, path):
    c = sqlite3.connect(path)
    c.execute("CREATE TABLE set_lists (sequence_name VARCHAR, frame_number INTEGER, _image_path VARCHAR, subset VARCHAR)")
    for f in w.frames:
        if f.subset is not None:
            c.execute("INSERT INTO set_lists VALUES (?,?,?,?)", (*f.entry(), f.subset))
    c.commit()
    c.close()
