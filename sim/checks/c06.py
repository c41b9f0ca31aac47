"""C06: loading a damaged or failing mesh / point cloud file."""

import gc
import io
import os
import sys
import warnings

import numpy as np
import torch

from .. import disk as dk
from .. import meshfiles as mf
from .. import threads as th
from ..core import Scenario, Violation

PROPERTY = "C06"
FILES = [os.path.join(th.REPO, "pytorch3d") + os.sep]


class NeverFinishes(BaseException):
    pass


def bounded(fn, cap):
    """fn() unless it executes more than cap lines of the code under test."""
    n = [0]
    pre = tuple(FILES)

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] > cap:
                raise NeverFinishes
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(pre) else None

    sys.settrace(glob)
    try:
        return ("ok", fn())
    except NeverFinishes:
        return ("never", None)
    except BaseException as e:  # noqa
        return ("raise", e)
    finally:
        sys.settrace(None)


def make_io(pm=None):
    from pytorch3d.io import IO
    from pytorch3d.io.experimental_gltf_io import MeshGlbFormat

    i = IO(path_manager=pm)
    i.register_meshes_format(MeshGlbFormat())
    return i


def loader(d, fmt, pointcloud):
    """-> (api name, function(io, path) -> Res)"""
    from pytorch3d.io import load_obj, load_objs_as_meshes, load_ply

    opts = [("mesh", lambda i, p: mf.res_of_mesh(i.load_mesh(p)))]
    opts.append(("notex", lambda i, p: mf.res_of_mesh(i.load_mesh(p, include_textures=False))))
    if fmt.startswith("ply"):
        opts.append(("ply", lambda i, p: mf.res_of_ply(load_ply(p, path_manager=i.path_manager))))
        opts.append(("cloud", lambda i, p: mf.res_of_cloud(i.load_pointcloud(p))))
        if pointcloud:
            opts = opts[-1:]
    if fmt == "obj":
        opts.append(("obj", lambda i, p: mf.res_of_obj(load_obj(p, path_manager=i.path_manager))))
        opts.append(("mesh", lambda i, p: mf.res_of_mesh(load_objs_as_meshes([p], path_manager=i.path_manager))))
    return d.pick(opts)


def expect(doc, fmt, api):
    e = mf.expected(doc, fmt, api)
    if api == "notex" and fmt.startswith("ply"):
        e.normals = doc.normals
    return e


def ordered(doc):
    return all(len(p) == 3 for p in doc.polys)


def compare(doc, fmt, api, r, geometry_only=False):
    return mf.differs(expect(doc, fmt, api), r, ordered(doc), geometry_only or api == "notex")


def last_token_docs(doc, fmt, data, cut):
    """The document with its last number cut short, when that is what `cut` does."""
    text = data[:cut].decode("ascii", "replace")
    full = data.decode("ascii").rstrip()
    start = len(full) - len(full.split()[-1])
    if not (start < cut <= len(full)) or not text[start:].strip():
        return None
    tok = text[start:]
    n = doc.copy()
    if n.polys and n.fcolors is None:
        try:
            v = int(tok)
        except ValueError:
            return None
        n.polys = n.polys[:-1] + [n.polys[-1][:-1] + (v,)]
        if doc.puvs is doc.polys:
            n.puvs = n.polys
        return n
    try:
        v = float(tok)
    except ValueError:
        return None
    if n.fcolors is not None and n.polys:
        n.fcolors = n.fcolors.astype(np.float64)
        n.fcolors[-1, -1] = v
        return n
    if fmt.startswith("ply"):
        groups = ["verts"] + [k for k in ("normals", "colors", "uvs") if getattr(doc, k) is not None]
        if doc.reorder:
            groups = groups[1:] + groups[:1]
        k = groups[-1]
    else:
        k = "colors" if doc.colors is not None else "verts"
    a = getattr(n, k).astype(np.float64)
    a[-1, -1] = v
    setattr(n, k, a)
    return n


def obj_prefix_ok(doc, data, cut, r):
    """The complete lines before the cut are what was loaded, the cut line may be too."""
    whole = data[:cut].rpartition(b"\n")[0].decode("ascii").split("\n")
    nv = sum(1 for x in whole if x.startswith("v "))
    polys = doc.polys[: sum(1 for x in whole if x.startswith("f "))]
    tris = [(p[0], p[i + 1], p[i + 2]) for p in polys for i in range(len(p) - 2)]
    part = data[:cut].rpartition(b"\n")[2]
    if not (nv <= len(r.verts) <= nv + (1 if part.startswith(b"v ") else 0)):
        return f"{len(r.verts)} vertices of {nv}"
    if nv and np.abs(r.verts[:nv] - doc.verts[:nv]).max() > 2e-6:
        return "verts"
    more = len(r.tris) - len(tris)
    if more < 0 or (more > 0 and not part.startswith(b"f ")) or more > 3:
        return f"{len(r.tris)} faces of {len(tris)}"
    if [tuple(int(y) for y in t) for t in r.tris[: len(tris)]] != tris:
        return "faces"
    return None


def scenario(d, ctx):
    warnings.simplefilter("ignore")
    fmt = d.pick(mf.FORMATS)
    pointcloud = fmt.startswith("ply") and d.chance(1, 4)
    with dk.Disk() as D:
        io_ = make_io()
        docs = []
        for i in range(d.integer(1, 2)):
            f = fmt if i == 0 else d.pick(mf.FORMATS)
            doc = mf.draw_doc(d, f, pointcloud and i == 0)
            files = mf.encode(doc, f, f"m{i}")
            for n, b in files.items():
                with open(os.path.join(D.data, n), "wb") as h:
                    h.write(b)
            docs.append((doc, f, files, os.path.join(D.data, next(iter(files)))))
        for step in range(d.integer(1, 4)):
            doc, f, files, path = docs[d.choice(len(docs))]
            api, fn = loader(d, f, pointcloud and f == fmt and doc is docs[0][0])
            one(d, ctx, D, io_, doc, f, files, path, api, fn)
        for doc, f, files, path in docs:
            api, fn = loader(d, f, pointcloud and doc is docs[0][0])
            r = fn(io_, path)
            msg = compare(doc, f, api, r)
            ctx.check(msg is None, "intact-file-misread-" + f, api, msg)
        ctx.nontrivial = True


def one(d, ctx, D, io_, doc, fmt, files, path, api, fn):
    main = os.path.basename(path)
    k = d.weighted([5, 3, 1, 1])
    before = mf.open_fds()
    what = (fmt, api, "truncate read interrupt operator".split()[k])
    ctx.event(*what)
    torn = None
    try:
        if k == 0:
            torn = main if not d.chance(1, 6) else d.pick(sorted(files))
            data = files[torn]
            m = d.choice(4)
            if m == 0:
                cut = d.choice(len(data))
            elif m == 1:
                cut = max(0, len(data) - d.gap(5))
            elif m == 2:
                nl = [i + 1 for i, c in enumerate(data) if c == 10] or [0]
                cut = d.pick(nl)
            else:
                cut = d.choice(min(len(data), 160))
            with open(os.path.join(D.data, torn), "wb") as h:
                h.write(data[:cut])
            ctx.fault("truncated_file")
            ctx.state("cut", fmt, api, cut * 20 // (len(data) + 1))
            src = path
            if api in ("ply", "obj") and torn == main and d.chance(1, 3):
                # the same bytes as an object in memory
                src = d.pick([io.BytesIO, mf.Minimal, mf.Lines])(data[:cut])
                if fmt in ("ply_ascii", "obj") and d.chance(1, 2):
                    src = io.StringIO(data[:cut].decode("ascii"))
                if api == "obj" and isinstance(src, mf.Minimal):
                    src = io.BytesIO(data[:cut])
            st, r = bounded(lambda: fn(io_, src), 20_000 + 60 * len(data) + 40 * sum(map(len, files.values())))
            if st == "never":
                raise Violation("load-never-finishes-" + fmt, f"{api}: {torn} cut at byte {cut} of {len(data)}")
            if st == "raise":
                if not isinstance(r, Exception):
                    raise r
                ctx.count("raised")
                return fds(ctx, before, what)
            fds(ctx, before, what)
            ctx.count("returned")
            where = f"{api} of {torn} cut at byte {cut} of {len(data)}"
            if torn != main:
                # the geometry is all there; textures may be missing, not wrong
                msg = compare(doc, fmt, api, r, geometry_only=True)
                ctx.check(msg is None, "partial-load-" + fmt, msg, where)
                if r.image is not None and torn.endswith(".png"):
                    ctx.check(compare(doc, fmt, api, r) is None, "damaged-texture-loaded-" + fmt, where)
                return
            if fmt == "obj":
                msg = obj_prefix_ok(doc, data, cut, r)
                ctx.check(msg is None, "partial-load-obj", msg, where)
                return
            # one element has no second line to contradict its missing colours
            lone = fmt == "off" and (
                (len(doc.polys) == 1 and doc.fcolors is not None)
                or (not doc.polys and len(doc.verts) == 1 and doc.colors is not None)
            )
            if lone and cut > data.rstrip().rindex(b"\n") + 1:
                # a number cut short that is now the last of its only line
                ctx.count("undecidable")
                return
            msg = compare(doc, fmt, api, r, lone)
            if msg is not None and fmt in ("ply_ascii", "off"):
                alt = last_token_docs(doc, fmt, data, cut)
                if alt is not None:
                    msg = compare(alt, fmt, api, r, lone)
            ctx.check(msg is None, "partial-load-" + fmt, msg, where)
            return
        if k == 1:
            kind = d.pick(["EIO", "EIO", "EMFILE", "EINTR", "short_write"])
            at = d.choice(4 * len(files) + 2)
            D.reset([(at, kind, d.choice(256))], reads=True)
            ctx.arm({"short_write": "short_read"}.get(kind, kind))
            D.activate()
            try:
                r = ("ok", fn(io_, path))
            except Exception as e:
                r = ("raise", e)
            finally:
                D.deactivate()
            fired = D.fired()
            for n, c in fired.items():
                ctx.fault({"short_write": "short_read"}.get(n, n), c)
            ctx.event(sorted(fired.items()), D.S.nops)
            if r[0] == "raise":
                soft = not fired or set(fired) <= {"EINTR", "short_write"}
                ctx.check(not soft, "load-fails-without-an-error-" + fmt, api, kind, repr(r[1])[:200])
                return fds(ctx, before, what)
            r = r[1]
        elif k == 2:
            at = d.gap(9)
            exc = d.pick([KeyboardInterrupt, MemoryError])
            ctx.arm("interrupt")
            res, fired = th.interrupted(lambda: fn(io_, path), FILES, at, exc)
            if fired:
                ctx.fault("interrupt")
            if res[0] == "raise":
                if not fired:
                    raise res[1]
                # between the call of open() and the entry of the with block
                # nothing but the garbage collector can close the file
                res = None
                gc.collect()
                return fds(ctx, before, what)
            r = res[1]
        else:
            at = d.gap(5)
            ctx.arm("failing_operator")
            o = th.OpFaults(at)
            try:
                with o:
                    r = fn(io_, path)
            except Exception as e:
                if not o.fired:
                    raise
                ctx.fault("failing_operator")
                return fds(ctx, before, what)
            if o.fired:
                ctx.fault("failing_operator")
        fds(ctx, before, what)
        msg = compare(doc, fmt, api, r)
        ctx.check(msg is None, "wrong-load-despite-error-" + fmt, msg, what)
    finally:
        if torn is not None:
            with open(os.path.join(D.data, torn), "wb") as h:
                h.write(files[torn])


def fds(ctx, before, what):
    new = mf.leaked(before)
    ctx.check(not new, "file-left-open", what, new)


SCENARIOS = [Scenario("damaged", scenario, 20_000, 1_000_000, max_wall=60)]
META = {
    "rule": "a run is one seed: 1-2 drawn files (ply ascii / little / big endian, off, obj with mtl and png, glb) and 1-4 loads, each of a file "
    "truncated at a drawn byte, with a failing or short read or open, an interruption or a failing operator, followed by loads of the intact files; "
    "nontrivial = all",
    "state_measure": "distinct (format, api, position of the cut in twentieths)",
    "real": "pytorch3d.io (IO, ply, off, obj, mtl, glb), iopath, numpy, PIL, Python file objects, libc file calls on a scratch file system through the shim",
    "stub": "the damage: file truncation, error codes and short counts returned by the LD_PRELOAD shim, operators that fail on request",
    "assumptions": [
        "a cut inside the last number of an ascii file cannot be told from a shorter number",
        "obj declares no counts: the complete lines before the cut are what must be loaded",
        "the steps of a load are counted in executed lines of pytorch3d (20000 + 100 per byte allowed)",
    ],
    "level": "exploration",
}
