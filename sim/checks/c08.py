"""C08: a save that returns normally has saved everything."""

import gzip
import io
import os
import pathlib
import warnings

import numpy as np
import torch

from .. import disk as dk
from .. import meshfiles as mf
from .. import threads as th
from ..core import Scenario, Violation
from . import c06

th.install()

PROPERTY = "C08"
FILES = c06.FILES
T = torch.from_numpy


class Item:
    """A thing to save: doc (what the file must say) and how to save it."""


def draw_item(d):
    from pytorch3d.io import save_obj, save_ply
    from pytorch3d.renderer import TexturesAtlas, TexturesUV, TexturesVertex
    from pytorch3d.structures import Meshes, Pointclouds

    it = Item()
    rng = np.random.default_rng(d.seed32())
    kind = d.pick(["ply", "ply", "off", "obj", "glb", "cloud", "save_ply", "save_obj"])
    nv = d.integer(3, 14) if not d.chance(1, 10) else d.integer(300, 900)
    if kind == "glb" and d.chance(1, 200):
        nv = d.integer(65530, 65545)
    nf = d.integer(1, 12) if not d.chance(1, 8) or kind == "glb" else 0
    if nv > 100 and d.chance(1, 2):
        nf = d.integer(100, 700) if nv < 60000 else nf
    e = it.e = mf.Res()
    e.verts = mf.grid64(rng, (nv, 3))
    tris = rng.integers(0, nv, (nf, 3)).astype(np.int64)
    if nv > 60000:
        tris[0] = (nv - 1, nv - 2, 0)
    e.tris = tris
    it.keep = []
    it.fmt = {"cloud": "ply_le", "save_ply": "ply_le", "ply": "ply_le", "save_obj": "obj"}.get(kind, kind)
    it.name = kind
    it.ctol = it.tol = 2e-6
    kw = {}
    ascii_ = it.fmt.startswith("ply") and d.chance(1, 2)
    if ascii_:
        it.fmt = "ply_ascii"
    places = d.pick([None, None, 2, 4, 7])
    text = ascii_ or it.fmt in ("off", "obj")
    if places is not None and it.fmt != "glb" and (ascii_ or kind not in ("save_ply",)):
        kw["decimal_places"] = places
        if text:
            it.tol = it.ctol = 0.5 * 10**-places + 1e-6

    def t(a):
        x = T(a.copy())
        if a.ndim == 2 and d.chance(1, 8) and kind != "glb":
            x = T(np.ascontiguousarray(a.T).copy()).t()  # not contiguous
        if d.chance(1, 8) and x.dtype == torch.float32:
            x.requires_grad_(True) if kind != "glb" else None
        it.keep.append((x, x.detach().clone()))
        return x

    v, f = t(e.verts), t(tris)
    if kind == "save_ply":
        n = None
        if d.chance(1, 2):
            e.normals = mf.grid64(rng, (nv, 3), -1, 1)
            n = t(e.normals)
        it.obj = None
        if ascii_:
            kw["ascii"] = True
        ff = f
        if d.chance(1, 5):
            ff, e.tris = None, tris[:0]
        it.save = lambda i, p: save_ply(p, v, ff, verts_normals=n, path_manager=i.path_manager, **kw)
        return it
    if kind == "save_obj":
        uv = fuv = tm = None
        if nf and d.chance(1, 2):
            uvs = mf.grid64(rng, (d.integer(1, 9), 2), 0, 1)
            fu = rng.integers(0, len(uvs), (nf, 3)).astype(np.int64)
            e.corner_uv = uvs[fu]
            img = rng.integers(0, 256, (4, 5, 3)).astype(np.uint8)
            e.image = img / 255.0
            it.ctol = max(it.ctol, 1.01 / 255)
            uv, fuv, tm = t(uvs), t(fu), t((img / 255.0).astype(np.float32))
        no = fn = None
        if nf and d.chance(1, 3):
            no, fn = t(mf.grid64(rng, (3, 3), -1, 1)), t(rng.integers(0, 3, (nf, 3)).astype(np.int64))
        it.save = lambda i, p: save_obj(
            p, v, f, path_manager=i.path_manager, verts_uvs=uv, faces_uvs=fuv, texture_map=tm, normals=no, faces_normals_idx=fn, **kw
        )
        it.path_only = True
        return it
    if kind == "cloud":
        e.tris = tris[:0]
        feats = norms = None
        if d.chance(2, 3):
            if d.chance(1, 2):
                kw["colors_as_uint8"] = True
                c8 = rng.integers(0, 256, (nv, 3)).astype(np.uint8)
                e.colors = (c8 / 255.0).astype(np.float32)
                it.ctol = max(it.ctol, 0.51 / 255) if ascii_ else 0.51 / 255
            else:
                e.colors = mf.grid64(rng, (nv, 3), 0, 1)
            feats = [t(e.colors)]
        if d.chance(1, 2):
            e.normals = mf.grid64(rng, (nv, 3), -1, 1)
            norms = [t(e.normals)]
        it.obj = Pointclouds([v], normals=norms, features=feats)
        b = False if ascii_ else d.pick([None, True])
        it.save = lambda i, p: i.save_pointcloud(it.obj, p, binary=b, **kw)
        return it
    tex = norms = None
    if kind == "ply":
        if d.chance(1, 2):
            e.colors = mf.grid64(rng, (nv, 3), 0, 1)
            tex = TexturesVertex([t(e.colors)])
            if d.chance(1, 2):
                kw["colors_as_uint8"] = True
                it.ctol = max(it.ctol, 0.51 / 255)
        if nf and d.chance(1, 2):
            e.normals = mf.grid64(rng, (nv, 3), -1, 1)
            norms = [t(e.normals)]
    elif kind == "off":
        k = d.choice(3)
        if k == 1:
            e.colors = mf.grid64(rng, (nv, 3), 0, 1)
            tex = TexturesVertex([t(e.colors)])
        elif k == 2 and nf:
            e.fcolors = mf.grid64(rng, (nf, 3), 0, 1)
            tex = TexturesAtlas([t(e.fcolors.reshape(nf, 1, 1, 3))])
    elif kind == "obj" and nf and d.chance(1, 2):
        uvs = mf.grid64(rng, (d.integer(1, 9), 2), 0, 1)
        fu = rng.integers(0, len(uvs), (nf, 3)).astype(np.int64)
        e.corner_uv = uvs[fu]
        img = rng.integers(0, 256, (4, 5, 3)).astype(np.uint8)
        e.image = img / 255.0
        it.ctol = max(it.ctol, 1.01 / 255)
        tex = TexturesUV([t((img / 255.0).astype(np.float32))], [t(fu)], [t(uvs)])
    elif kind == "glb":
        k = d.choice(3)
        if k == 1:
            e.colors = mf.grid64(rng, (nv, 3), 0, 1)
            tex = TexturesVertex([t(e.colors)])
        elif k == 2:
            uvs = mf.grid64(rng, (nv, 2), 0, 1)
            e.corner_uv = uvs[tris]
            img = rng.integers(0, 256, (4, 5, 3)).astype(np.uint8)
            e.image = img / 255.0
            it.ctol = 1.01 / 255
            # glb has one index buffer: texture indices are the vertex indices
            tex = TexturesUV([t((img / 255.0).astype(np.float32))], [f], [t(uvs)])
    it.obj = Meshes([v], [f], textures=tex, verts_normals=norms)
    b = False if ascii_ else d.pick([None, True])
    it.save = lambda i, p: i.save_mesh(it.obj, p, binary=b, **kw)
    return it


def files_of(it, stem):
    out = [stem + mf.SUFFIX[it.fmt]]
    if it.fmt == "obj" and it.e.image is not None:
        out += [stem + ".mtl", stem + ".png"]
    return out


def verify(d, ctx, it, files, stem, where):
    """files: name -> bytes of what was saved."""
    try:
        r = mf.decode(files, it.fmt, stem)
    except Exception as e:
        raise Violation("saved-file-damaged-" + it.name, f"{e!r} {where}")
    msg = mf.differs(it.e, r, True, tol=it.tol, ctol=it.ctol)
    ctx.check(msg is None, "saved-file-wrong-" + it.name, msg, where)


def reload(d, ctx, it, i, path, where):
    if it.name == "cloud":
        r = mf.res_of_cloud(i.load_pointcloud(path))
        e = mf.Res()
        e.__dict__.update(it.e.__dict__)
        e.tris = None
    else:
        r = mf.res_of_mesh(i.load_mesh(path))
        e = mf.Res()
        e.__dict__.update(it.e.__dict__)
        if not len(e.tris):
            e.normals = None
    msg = mf.differs(e, r, True, tol=it.tol, ctol=max(it.ctol, 2e-6))
    ctx.check(msg is None, "reloaded-differs-" + it.name, msg, where)


def untouched(ctx, it, where):
    for x, c in it.keep:
        ctx.check(torch.equal(x, c), "saving-changed-the-data-" + it.name, where)


def read_dir(root, names):
    out = {}
    for n in names:
        p = os.path.join(root, n)
        if os.path.exists(p):
            with open(p, "rb") as f:
                out[n] = f.read()
    return out


def with_fault(d, ctx, D, what, fn):
    """fn() under a drawn fault -> (returned normally, fault fired)"""
    k = d.weighted([5, 2, 2, 3])
    if k == 0:
        kind = d.pick(["ENOSPC", "EIO", "short_write", "EINTR", "disk_full", "EMFILE", "EIO"])
        at = d.choice(6) if not d.chance(1, 4) else d.gap(4) - 1
        D.reset([(at, kind, d.choice(256) if kind == "short_write" else (d.choice(3) and 0))], closes=True)
        ctx.arm(kind)
        D.activate()
        err = None
        try:
            fn()
        except Exception as e:
            err = e
        finally:
            D.deactivate()
        fired = D.fired()
        for n, c in fired.items():
            ctx.fault(n, c)
        ctx.event(kind, at, sorted(fired.items()), D.S.nops, D.oplog())
        ctx.state(what, kind, at, bool(fired))
        hard = set(fired) - {"EINTR", "short_write"}
        if err is not None and not hard:
            raise Violation("save-fails-without-an-error-" + what, repr(err))
        return err is None, bool(fired)
    if k == 1:
        o = th.OpFaults(d.gap(6))
        ctx.arm("failing_operator")
        try:
            with o:
                fn()
        except th.AllocFail:
            ctx.fault("failing_operator")
            return False, True
        if o.fired:
            ctx.fault("failing_operator")
        return True, o.fired
    if k == 2:
        ctx.arm("interrupt")
        res, fired = th.interrupted(fn, FILES, d.gap(8), d.pick([KeyboardInterrupt, MemoryError]))
        if fired:
            ctx.fault("interrupt")
        if res[0] == "raise" and not fired:
            raise res[1]
        return res[0] == "ok", fired
    fn()
    return True, False


def scenario(d, ctx):
    warnings.simplefilter("ignore")
    with dk.Disk() as D:
        h, pm = mf.store()
        disk_io, store_io = c06.make_io(), c06.make_io(pm)
        items = [draw_item(d) for _ in range(d.integer(1, 3))]
        for n in range(d.integer(1, 4)):
            it = d.pick(items)
            stem = d.pick(["a", "b c", "x.y", f"s{n}"])
            main = stem + mf.SUFFIX[it.fmt]
            k = d.weighted([5, 3, 3, 3])
            what = it.name + "-" + it.fmt
            if k == 0:
                path = os.path.join(D.data, main)
                arg = path if d.chance(1, 2) else pathlib.Path(path)
                where = (what, type(arg).__name__)
                before = mf.open_fds()
                ok, fired = with_fault(d, ctx, D, it.name, lambda: it.save(disk_io, arg))
                if not fired:
                    ctx.check(not mf.leaked(before), "file-left-open-" + it.name, where)
                untouched(ctx, it, where)
                if ok:
                    verify(d, ctx, it, read_dir(D.data, os.listdir(D.data)), stem, where)
                    reload(d, ctx, it, disk_io, path, where)
                else:
                    # the next save is not disturbed by what the failed one left
                    it.save(disk_io, arg)
                    verify(d, ctx, it, read_dir(D.data, os.listdir(D.data)), stem, (where, "after a failed save"))
            elif k == 1:
                h.steps = [d.integer(1, 60) for _ in range(d.integer(1, 3))]
                h.failed = False
                url = "sim://dir/" + main
                where = (what, "object store")
                kw = d.choice(3)
                if kw == 1:
                    h.fail_write = d.gap(4)
                elif kw == 2:
                    h.fail_close = True
                for nm in files_of(it, "sim://dir/" + stem):
                    h.files.pop(nm, None)
                here = set(os.listdir("."))
                try:
                    it.save(store_io, url)
                    ok = True
                except OSError:
                    if not (h.failed or h.raw.failed):
                        raise
                    ok = False
                finally:
                    failed = h.failed or h.raw.failed
                    h.fail_write, h.fail_close = None, False
                if failed:
                    ctx.fault("object_store_error")
                ctx.check(not (ok and failed), "store-error-not-reported-" + it.name, where)
                untouched(ctx, it, where)
                ctx.check(set(os.listdir(".")) == here, "save-leaves-other-files", where)
                if ok:
                    fs = {nm.split("/")[-1]: b for nm, b in h.files.items()}
                    verify(d, ctx, it, fs, stem, where)
                    reload(d, ctx, it, store_io, url, where)
                    ctx.check(h.open_now == 0, "file-left-open-" + it.name, where)
                h.open_now = 0
            elif k == 2:
                if getattr(it, "path_only", False) or it.name not in ("save_ply",):
                    continue
                sk = d.choice(5)
                where = (what, ["BytesIO", "gzip", "pipe-like", "file", "gzip file"][sk])
                out = []
                pre = d.choice(3) * 7 if sk in (0, 2, 3) else 0
                if sk == 0:
                    s = io.BytesIO()
                elif sk == 1:
                    raw = io.BytesIO()
                    s = gzip.GzipFile(fileobj=raw, mode="wb")
                elif sk == 2:
                    s = io.BufferedWriter(mf.DripRaw(b"", [d.integer(1, 60)], out.append), d.integer(1, 64))
                elif sk == 3:
                    s = open(os.path.join(D.data, "st"), "wb")
                else:
                    s = gzip.open(os.path.join(D.data, "st"), "wb")
                s.write(b"#" * pre)

                def go():
                    it.save(disk_io, s)
                    if s.closed:
                        raise Violation("caller's-stream-closed", where)
                    if sk == 0:
                        out.append(s.getvalue())
                    s.close()

                if sk in (3, 4):
                    ok, _ = with_fault(d, ctx, D, it.name, go)
                else:
                    go()
                    ok = True
                try:
                    s.close()
                except Exception:
                    pass
                untouched(ctx, it, where)
                if ok:
                    if sk == 1:
                        out.append(gzip.decompress(raw.getvalue()))
                    elif sk == 3:
                        out.append(open(os.path.join(D.data, "st"), "rb").read())
                    elif sk == 4:
                        out.append(gzip.open(os.path.join(D.data, "st"), "rb").read())
                    ctx.check(out[0][:pre] == b"#" * pre, "stream-overwritten", where)
                    verify(d, ctx, it, {main: out[0][pre:]}, stem, where)
            else:
                nt = d.integer(2, 3)
                jobs = [(d.pick(items), f"t{j}") for j in range(nt)]
                s = th.Sched(FILES, th.draw_preemptions(d, nt, 0, 30, 8))
                res = s.run(
                    [lambda j=j: j[0].save(disk_io, os.path.join(D.data, j[1] + mf.SUFFIX[j[0].fmt])) for j in jobs]
                )
                if s.dead:
                    raise Violation("saves-never-finish", str(s.dead))
                ctx.event("threads", s.points, s.trail)
                ctx.fault("preemption", s.di) if s.di else None
                ctx.count("thread_switches", s.switches)
                ctx.state("sched", tuple(s.trail))
                ctx.sim_time += s.points * 1e-6
                for (ji, st), (ok, r) in zip(jobs, res):
                    if ok != "ok":
                        raise Violation("concurrent-save-fails-" + ji.name, repr(r))
                    untouched(ctx, ji, "threads")
                    verify(d, ctx, ji, read_dir(D.data, os.listdir(D.data)), st, "threads")
            ctx.event(what, k)
        ctx.nontrivial = True


SCENARIOS = [Scenario("saves", scenario, 8000, 400_000, max_wall=90)]
META = {
    "rule": "a run is one seed: 1-3 meshes or point clouds and 1-4 steps, each a save (ply ascii / binary, off, obj with texture, glb; functions and IO) to a "
    "path, Path, object store or stream, with a failing, short or interrupted write, a full disk, a failing close or open, a failing operator or an "
    "interruption, or 2-3 saves in threads; nontrivial = all",
    "state_measure": "distinct (kind of save, fault, operation index, fired) and distinct thread schedules",
    "real": "pytorch3d.io (IO, ply, off, obj, glb writers and readers), iopath PathManager, numpy, PIL, Python file objects, real threads, "
    "libc file calls on a scratch file system through the shim",
    "stub": "error codes and short counts from the LD_PRELOAD shim (also for data that stdio flushes on fclose), the object store behind sim://, scheduler",
    "assumptions": [
        "a close that fails reports EIO as network file systems do",
        "a save interrupted or failed promises nothing about its own file",
    ],
    "level": "exploration",
}
