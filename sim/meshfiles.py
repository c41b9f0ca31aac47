"""Independent encoders and decoders of mesh files, and the carriers that bring
their bytes to the code under test."""

import gzip
import io
import json
import os
import pathlib
import re
import struct
import zipfile

import numpy as np
import torch
from iopath.common.file_io import PathHandler, PathManager
from PIL import Image

FORMATS = ["ply_ascii", "ply_le", "ply_be", "off", "obj", "glb"]
SUFFIX = {"ply_ascii": ".ply", "ply_le": ".ply", "ply_be": ".ply", "off": ".off", "obj": ".obj", "glb": ".glb"}


def grid64(rng, shape, lo=-8, hi=8):
    """Numbers that every format of these files represents exactly."""
    return (rng.integers(lo * 64, hi * 64 + 1, shape) / 64).astype(np.float32)


class Doc:
    """What a file says.  verts (V,3); polys: list of index tuples; colors:
    (V,3) or None; normals; fcolors (F,3|4); uv: (V,2) per vertex or None;
    corner_uv for obj: uvs (T,2) and per polygon tuples; image (H,W,3) uint8."""

    verts = polys = colors = normals = fcolors = uvs = puvs = image = None
    color_kind = None

    def tris(self):
        out = []
        for p in self.polys:
            for i in range(len(p) - 2):
                out.append((p[0], p[i + 1], p[i + 2]))
        return out

    def tri_uvs(self):
        out = []
        for p in self.puvs:
            for i in range(len(p) - 2):
                out.append((p[0], p[i + 1], p[i + 2]))
        return out

    def copy(self):
        d = Doc()
        for k, v in self.__dict__.items():
            setattr(d, k, v.copy() if hasattr(v, "copy") else v)
        return d


def draw_doc(d, fmt, pointcloud=False):
    rng = np.random.default_rng(d.seed32())
    doc = Doc()
    nv = d.integer(1, 9) if d.chance(1, 4) else d.integer(3, 14)
    if d.chance(1, 40):
        nv = d.integer(200, 700)
    doc.verts = grid64(rng, (nv, 3))
    if fmt != "off" or d.chance(1, 2):
        pass
    nf = d.integer(1, 12) if not d.chance(1, 8) else (0 if fmt != "glb" else 1)
    if pointcloud:
        nf = 0
    mixed = fmt != "glb" and d.chance(1, 4)
    size = 3 if fmt == "glb" or not d.chance(1, 5) else d.integer(4, 5)
    doc.polys = [
        tuple(int(x) for x in rng.integers(0, nv, rng.integers(3, 6) if mixed else size))
        for _ in range(nf)
    ]
    doc.comments = d.integer(0, 2)
    if fmt.startswith("ply"):
        k = d.choice(4)
        if k == 1:
            doc.color_kind = "uchar"
            doc.colors = rng.integers(0, 256, (nv, 3)).astype(np.uint8)
        elif k == 2:
            doc.color_kind = "float"
            doc.colors = grid64(rng, (nv, 3), 0, 1)
        elif k == 3 and nf and not pointcloud:
            doc.uvs = grid64(rng, (nv, 2), 0, 1)
            doc.puvs = doc.polys
            doc.image = rng.integers(0, 256, (3, 4, 3)).astype(np.uint8)
        if d.chance(1, 3):
            doc.normals = grid64(rng, (nv, 3), -1, 1)
        doc.double = d.chance(1, 4)
        doc.index_type = d.pick(["int", "uint", "short", "int32"])
        doc.count_type = d.pick(["uchar", "uint8", "int"])
        doc.reorder = d.chance(1, 4)
    elif fmt == "off":
        k = d.choice(4)
        if k == 1:
            doc.color_kind = d.pick(["int", "float"])
            nc = 3 + d.choice(2)
            doc.colors = (
                rng.integers(0, 256, (nv, nc)) if doc.color_kind == "int" else grid64(rng, (nv, nc), 0, 1)
            )
        elif k == 2 and nf:
            doc.color_kind = d.pick(["int", "float"])
            nc = 3 + d.choice(2)
            doc.fcolors = (
                rng.integers(0, 256, (nf, nc)) if doc.color_kind == "int" else grid64(rng, (nf, nc), 0, 1)
            )
            # with mixed sizes the colours of the pieces are those of the face
        doc.header = d.choice(3)
    elif fmt == "obj":
        if d.chance(1, 2) and nf:
            nt = d.integer(1, 8)
            doc.uvs = grid64(rng, (nt, 2), 0, 1)
            doc.puvs = [tuple(int(x) for x in rng.integers(0, nt, len(p))) for p in doc.polys]
            doc.image = rng.integers(0, 256, (3, 4, 3)).astype(np.uint8)
        doc.with_normals = d.chance(1, 3)
        doc.on = grid64(rng, (3, 3), -1, 1)
    else:
        k = d.choice(3)
        if k == 1:
            doc.colors = grid64(rng, (nv, 3), 0, 1)
            doc.color_kind = "float"
        elif k == 2:
            doc.uvs = grid64(rng, (nv, 2), 0, 1)
            doc.puvs = doc.polys
            doc.image = rng.integers(0, 256, (3, 4, 3)).astype(np.uint8)
        doc.index32 = d.chance(1, 3)
        doc.shift = d.integer(0, 3)
    return doc


def png(image):
    b = io.BytesIO()
    Image.fromarray(image).save(b, format="PNG")
    return b.getvalue()


PLY_T = {"int": "i4", "uint": "u4", "short": "i2", "int32": "i4", "uchar": "u1", "uint8": "u1", "float": "f4", "double": "f8"}


def encode_ply(doc, kind, stem):
    fl = "double" if doc.double else "float"
    groups = [("xyz", [("x", fl), ("y", fl), ("z", fl)], doc.verts)]
    if doc.normals is not None:
        groups.append(("n", [(c, fl) for c in ("nx", "ny", "nz")], doc.normals))
    if doc.colors is not None:
        t = "uchar" if doc.color_kind == "uchar" else fl
        groups.append(("c", [(c, t) for c in ("red", "green", "blue")], doc.colors))
    if doc.uvs is not None:
        groups.append(("uv", [("texture_u", fl), ("texture_v", fl)], doc.uvs))
    if doc.reorder:
        groups = groups[1:] + groups[:1]
    head = ["ply"]
    head.append({"ply_ascii": "format ascii 1.0", "ply_le": "format binary_little_endian 1.0", "ply_be": "format binary_big_endian 1.0"}[kind])
    head += [f"comment hello {i}" for i in range(doc.comments)]
    if doc.uvs is not None:
        head.append(f"comment TextureFile {stem}.png")
    head.append(f"element vertex {len(doc.verts)}")
    for _, props, _ in groups:
        head += [f"property {t} {n}" for n, t in props]
    if doc.polys:
        head.append(f"element face {len(doc.polys)}")
        head.append(f"property list {doc.count_type} {doc.index_type} vertex_indices")
    head.append("end_header")
    out = ("\n".join(head) + "\n").encode()
    if kind == "ply_ascii":
        lines = []
        for i in range(len(doc.verts)):
            row = []
            for _, props, a in groups:
                row += [("%d" if props[0][1] == "uchar" else "%.6f") % x for x in a[i]]
            lines.append(" ".join(row))
        for p in doc.polys:
            lines.append(" ".join(map(str, (len(p),) + p)))
        return out + "\n".join(lines).encode() + b"\n"
    e = "<" if kind == "ply_le" else ">"
    dt = np.dtype([(n, e + PLY_T[t]) for _, props, _ in groups for n, t in props])
    arr = np.zeros(len(doc.verts), dt)
    for _, props, a in groups:
        for j, (n, _) in enumerate(props):
            arr[n] = a[:, j]
    out += arr.tobytes()
    for p in doc.polys:
        out += np.array([len(p)], e + PLY_T[doc.count_type]).tobytes()
        out += np.array(p, e + PLY_T[doc.index_type]).tobytes()
    return out


def encode_off(doc):
    lines = []
    n = f"{len(doc.verts)} {len(doc.polys)} 0"
    if doc.header == 0:
        lines += ["OFF", n]
    elif doc.header == 1:
        lines += ["# top", "", "off", "  ", "# a comment", n]
    else:
        lines += [n]
    for i, v in enumerate(doc.verts):
        row = ["%.6f" % x for x in v]
        if doc.colors is not None:
            row += [("%d" if doc.color_kind == "int" else "%.6f") % x for x in doc.colors[i]]
        lines.append(" ".join(row))
        if i == 0 and len(doc.verts) > 2:
            lines += ["# c"] * doc.comments
    for i, p in enumerate(doc.polys):
        row = [str(len(p))] + [str(x) for x in p]
        if doc.fcolors is not None:
            row += [("%d" if doc.color_kind == "int" else "%.6f") % x for x in doc.fcolors[i]]
        lines.append(" ".join(row))
    return "\n".join(lines).encode() + b"\n"


def encode_obj(doc, stem):
    lines = ["# hello"] * doc.comments
    if doc.image is not None:
        lines += [f"mtllib {stem}.mtl", "usemtl mat"]
    lines += ["v %.6f %.6f %.6f" % tuple(v) for v in doc.verts]
    if doc.uvs is not None:
        lines += ["vt %.6f %.6f" % tuple(v) for v in doc.uvs]
    if doc.with_normals:
        lines += ["vn %.6f %.6f %.6f" % tuple(v) for v in doc.on]
    for i, p in enumerate(doc.polys):
        cs = []
        for j, x in enumerate(p):
            c = str(x + 1)
            if doc.puvs is not None:
                c += f"/{doc.puvs[i][j] + 1}"
            if doc.with_normals:
                c += ("" if doc.puvs is not None else "/") + f"/{j % 3 + 1}"
            cs.append(c)
        lines.append("f " + " ".join(cs))
    return "\n".join(lines).encode() + b"\n"


def encode_glb(doc):
    bin_, views, accs = b"", [], []

    def add(a, ctype, typ):
        nonlocal bin_
        bin_ += b"\0" * (-len(bin_) % 4)
        b = a.tobytes()
        views.append({"buffer": 0, "byteOffset": len(bin_), "byteLength": len(b)})
        bin_ += b
        if typ:
            accs.append({"bufferView": len(views) - 1, "componentType": ctype, "count": len(a), "type": typ})
        return len(accs) - 1

    bin_ += b"\0" * (4 * doc.shift)
    attr = {"POSITION": add(doc.verts, 5126, "VEC3")}
    idx = np.array(doc.polys, np.uint32 if doc.index32 else np.uint16).reshape(-1)
    prim = {"attributes": attr, "indices": add(idx, 5125 if doc.index32 else 5123, "SCALAR"), "mode": 4}
    js = {"asset": {"version": "2.0"}, "scene": 0, "scenes": [{"nodes": [0]}], "nodes": [{"mesh": 0}]}
    if doc.colors is not None:
        attr["COLOR_0"] = add(doc.colors.astype(np.float32), 5126, "VEC3")
    if doc.uvs is not None:
        attr["TEXCOORD_0"] = add(doc.uvs, 5126, "VEC2")
        add(np.frombuffer(png(doc.image), np.uint8), None, None)
        prim["material"] = 0
        js["materials"] = [{"pbrMetallicRoughness": {"baseColorTexture": {"index": 0}}}]
        js["textures"] = [{"source": 0}]
        js["images"] = [{"bufferView": len(views) - 1, "mimeType": "image/png"}]
    js.update(meshes=[{"primitives": [prim]}], accessors=accs, bufferViews=views, buffers=[{"byteLength": len(bin_)}])
    j = json.dumps(js).encode()
    j += b" " * (-len(j) % 4)
    b = bin_ + b"\0" * (-len(bin_) % 4)
    total = 12 + 8 + len(j) + 8 + len(b)
    return struct.pack("<III", 0x46546C67, 2, total) + struct.pack("<II", len(j), 0x4E4F534A) + j + struct.pack("<II", len(b), 0x004E4942) + b


def encode(doc, fmt, stem):
    """-> {file name: bytes}, the main file first."""
    if fmt.startswith("ply"):
        out = {stem + ".ply": encode_ply(doc, fmt, stem)}
    elif fmt == "off":
        out = {stem + ".off": encode_off(doc)}
    elif fmt == "obj":
        out = {stem + ".obj": encode_obj(doc, stem)}
        if doc.image is not None:
            out[stem + ".mtl"] = f"newmtl mat\nKd 0.5 0.25 1.0\nmap_Kd {stem}.png\n".encode()
    else:
        return {stem + ".glb": encode_glb(doc)}
    if doc.image is not None:
        out[stem + ".png"] = png(doc.image)
    return out


# ---------------------------------------------------------------- results
class Res:
    """What a load returned, as numpy."""

    verts = tris = colors = normals = fcolors = corner_uv = image = None


def _np(x):
    return x.detach().cpu().numpy()


def res_of_mesh(m):
    from pytorch3d.renderer import TexturesAtlas, TexturesUV, TexturesVertex

    r = Res()
    assert len(m) == 1
    r.verts = _np(m.verts_list()[0])
    r.tris = _np(m.faces_list()[0])
    t = m.textures
    if isinstance(t, TexturesVertex):
        r.colors = _np(t.verts_features_list()[0])
    elif isinstance(t, TexturesAtlas):
        a = t.atlas_list()[0]
        r.fcolors = _np(a[:, 0, 0, :])
    elif isinstance(t, TexturesUV):
        r.corner_uv = _np(t.verts_uvs_list()[0])[_np(t.faces_uvs_list()[0])]
        r.image = _np(t.maps_padded()[0])
    # (normals of a mesh without faces are not kept by Meshes)
    if m.has_verts_normals() and len(r.tris):
        r.normals = _np(m.verts_normals_list()[0])
    return r


def res_of_cloud(p):
    r = Res()
    r.verts = _np(p.points_list()[0])
    r.tris = None
    if p.features_list() is not None:
        r.colors = _np(p.features_list()[0])
    if p.normals_list() is not None:
        r.normals = _np(p.normals_list()[0])
    return r


def res_of_ply(v):
    r = Res()
    r.verts, r.tris = _np(v[0]), _np(v[1])
    return r


def res_of_obj(v):
    verts, faces, aux = v
    r = Res()
    r.verts, r.tris = _np(verts), _np(faces.verts_idx)
    if aux.verts_uvs is not None:
        r.corner_uv = _np(aux.verts_uvs)[_np(faces.textures_idx)]
    if aux.texture_images:
        r.image = _np(next(iter(aux.texture_images.values())))
    return r


def expected(doc, fmt, api):
    """api: mesh | cloud | ply | obj | mesh_notex"""
    e = Res()
    e.verts = doc.verts
    e.tris = doc.tris()
    if api == "cloud":
        e.tris = None
    if api in ("mesh", "cloud"):
        if doc.colors is not None:
            scale = 255.0 if doc.color_kind in ("uchar", "int") else 1.0
            e.colors = doc.colors / scale
        if fmt.startswith("ply") and (api == "cloud" or doc.polys):
            e.normals = doc.normals
    if api == "mesh" and doc.fcolors is not None and doc.colors is None:
        c = doc.fcolors / (255.0 if doc.color_kind == "int" else 1.0)
        e.fcolors = [c[i] for i, p in enumerate(doc.polys) for _ in range(len(p) - 2)]
    if api in ("mesh", "obj") and doc.uvs is not None:
        uv = doc.uvs.copy()
        if fmt == "glb":
            uv[:, 1] = 1 - uv[:, 1]
        e.corner_uv = uv[np.array(doc.tri_uvs())]
        e.image = doc.image / 255.0
    return e


def _rows(tris, extra):
    out = []
    for i, t in enumerate(tris):
        row = tuple(int(x) for x in t)
        for ex in extra:
            row += tuple(round(float(x) * 4096) for x in np.asarray(ex[i]).reshape(-1))
        out.append(row)
    return out


def differs(e, r, ordered=True, geometry_only=False, tol=2e-6, ctol=None):
    """None, or what differs between expectation e and result r."""
    ctol = tol if ctol is None else ctol
    if r.verts.shape != np.shape(e.verts):
        return f"verts shape {r.verts.shape} not {np.shape(e.verts)}"
    if np.abs(r.verts - e.verts).max(initial=0) > tol:
        return "verts"
    if e.tris is not None:
        if len(r.tris) != len(e.tris) or (len(r.tris) and r.tris.shape[1] != 3):
            return f"faces {r.tris.shape} not {len(e.tris)}"
        a, b = _rows(e.tris, []), _rows(r.tris, [])
        if (a != b) if ordered else (sorted(a) != sorted(b)):
            return "faces"
    if geometry_only:
        return None
    for k in ("colors", "normals"):
        a, b = getattr(e, k), getattr(r, k)
        if (a is None) != (b is None):
            return f"{k} {'missing' if b is None else 'unexpected'}"
        if a is not None and (np.shape(a) != b.shape or np.abs(b - a).max(initial=0) > (ctol if k == "colors" else tol)):
            return k
    for k in ("fcolors", "corner_uv"):
        a, b = getattr(e, k), getattr(r, k)
        if (a is None) != (b is None):
            return f"{k} {'missing' if b is None else 'unexpected'}"
        if a is not None:
            if np.shape(a) != b.shape:
                return f"{k} shape"
            ra, rb = _rows(e.tris, []), _rows(r.tris, [])
            ia = sorted(range(len(ra)), key=lambda i: (ra[i], tuple(np.asarray(a[i]).reshape(-1)))) if not ordered else range(len(ra))
            ib = sorted(range(len(rb)), key=lambda i: (rb[i], tuple(np.round(np.asarray(b[i]).reshape(-1), 4)))) if not ordered else range(len(rb))
            for i, j in zip(ia, ib):
                if np.abs(np.asarray(a[i]) - b[j]).max() > max(tol, 1e-5 if ctol <= 1e-5 else ctol):
                    return k
    if (e.image is None) != (r.image is None):
        return f"image {'missing' if r.image is None else 'unexpected'}"
    if e.image is not None and (e.image.shape != r.image.shape or np.abs(e.image - r.image).max() > max(ctol, 1e-6)):
        return "image"
    return None


# ---------------------------------------------------------------- decoders
def decode_ply(b):
    """-> Res (triangles only) of a ply file written by the code under test."""
    head, body = b.split(b"end_header\n", 1)
    lines = head.decode("ascii").split("\n")
    assert lines[0] == "ply"
    kind, els = None, []
    for ln in lines[1:]:
        t = ln.split()
        if not t or t[0] == "comment":
            continue
        if t[0] == "format":
            kind = t[1]
        elif t[0] == "element":
            els.append([t[1], int(t[2]), []])
        elif t[0] == "property":
            els[-1][2].append(t[1:])
    r = Res()
    r.tris = np.zeros((0, 3), np.int64)
    toks = body.split() if kind == "ascii" else None
    e = ">" if kind == "binary_big_endian" else "<"
    pos = 0

    def num(t):
        nonlocal pos
        if toks is not None:
            v = float(toks[pos])
            pos += 1
            return v
        dt = np.dtype(e + PLY_T[t])
        v = np.frombuffer(body, dt, 1, pos)[0]
        pos += dt.itemsize
        return float(v)

    for name, n, props in els:
        if name == "vertex":
            a = np.array([[num(p[0]) for p in props] for _ in range(n)]).reshape(n, len(props))
            col = {p[1]: (i, p[0]) for i, p in enumerate(props)}
            r.verts = a[:, [col[c][0] for c in "xyz"]]
            if "nx" in col:
                r.normals = a[:, [col[c][0] for c in ("nx", "ny", "nz")]]
            if "red" in col:
                r.colors = a[:, [col[c][0] for c in ("red", "green", "blue")]]
                if col["red"][1] in ("uchar", "uint8"):
                    r.colors = r.colors / 255
        else:
            f = []
            for _ in range(n):
                k = int(num(props[0][1]))
                f.append([int(num(props[0][2])) for _ in range(k)])
            if f:
                r.tris = np.array(f)
    assert pos == (len(toks) if toks is not None else len(body)), "trailing data"
    return r


def decode_off(b):
    lines = [ln for ln in b.decode("ascii").split("\n") if ln.strip() and not ln.startswith("#")]
    if lines[0].lower() == "off":
        lines = lines[1:]
    nv, nf = (int(x) for x in lines[0].split()[:2])
    rows = [[float(x) for x in ln.split()] for ln in lines[1:]]
    assert len(rows) == nv + nf, "wrong number of lines"
    r = Res()
    v = np.array(rows[:nv]).reshape(nv, -1)
    r.verts = v[:, :3]
    if v.shape[1] > 3:
        r.colors = v[:, 3:]
    f = np.array(rows[nv:]).reshape(nf, -1) if nf else np.zeros((0, 4))
    assert (f[:, 0] == 3).all()
    r.tris = f[:, 1:4].astype(np.int64)
    if f.shape[1] > 4:
        r.fcolors = f[:, 4:]
    return r


def decode_obj(files, stem):
    r = Res()
    v, vt, vn, f, ft = [], [], [], [], []
    mtl = None
    for ln in files[stem + ".obj"].decode("ascii").split("\n"):
        t = ln.split()
        if not t:
            continue
        if t[0] == "mtllib":
            mtl = ln[7:].strip()
        elif t[0] == "v":
            v.append([float(x) for x in t[1:]])
        elif t[0] == "vt":
            vt.append([float(x) for x in t[1:]])
        elif t[0] == "vn":
            vn.append([float(x) for x in t[1:]])
        elif t[0] == "f":
            c = [x.split("/") for x in t[1:]]
            f.append([int(x[0]) - 1 for x in c])
            if len(c[0]) > 1 and c[0][1]:
                ft.append([int(x[1]) - 1 for x in c])
    r.verts = np.array(v, dtype=np.float64).reshape(-1, 3)
    r.tris = np.array(f, dtype=np.int64).reshape(-1, 3)
    if mtl is not None:
        m = re.search(r"map_Kd (.*)", files[mtl].decode("ascii"))
        r.image = np.asarray(Image.open(io.BytesIO(files[m.group(1)])).convert("RGB")) / 255.0
        r.corner_uv = np.array(vt)[np.array(ft)]
    return r


def decode_glb(b):
    magic, ver, total = struct.unpack_from("<III", b)
    assert magic == 0x46546C67 and ver == 2 and total == len(b), "glb header"
    jl, jt = struct.unpack_from("<II", b, 12)
    js = json.loads(b[20 : 20 + jl])
    bl, bt = struct.unpack_from("<II", b, 20 + jl)
    data = b[28 + jl :]
    assert len(data) == bl and bt == 0x004E4942 and jt == 0x4E4F534A, "glb chunks"

    def view(i):
        w = js["bufferViews"][i]
        o = int(w.get("byteOffset", 0))
        n = int(w["byteLength"])
        assert o + n <= len(data), "glb view"
        return data[o : o + n]

    def acc(i):
        a = js["accessors"][i]
        k = {"SCALAR": 1, "VEC2": 2, "VEC3": 3}[a["type"]]
        dt = {5126: "<f4", 5123: "<u2", 5125: "<u4"}[a["componentType"]]
        x = np.frombuffer(view(a["bufferView"]), dt, int(a["count"]) * k)
        return x.reshape(-1, k)

    p = js["meshes"][0]["primitives"][0]
    r = Res()
    at = p["attributes"]
    r.verts = acc(at["POSITION"])
    r.tris = acc(p["indices"]).reshape(-1, 3).astype(np.int64)
    if "COLOR_0" in at:
        r.colors = acc(at["COLOR_0"])
    if "TEXCOORD_0" in at:
        uv = acc(at["TEXCOORD_0"]).copy()
        uv[:, 1] = 1 - uv[:, 1]
        r.corner_uv = uv[r.tris]
        src = js["textures"][js["materials"][0]["pbrMetallicRoughness"]["baseColorTexture"]["index"]]["source"]
        r.image = np.asarray(Image.open(io.BytesIO(view(js["images"][src]["bufferView"]))).convert("RGB")) / 255.0
    return r


def decode(files, fmt, stem):
    if fmt.startswith("ply"):
        return decode_ply(files[stem + ".ply"])
    if fmt == "off":
        return decode_off(files[stem + ".off"])
    if fmt == "obj":
        return decode_obj(files, stem)
    return decode_glb(files[stem + ".glb"])


# ---------------------------------------------------------------- carriers
class DripRaw(io.RawIOBase):
    """A pipe-like raw stream delivering and accepting few bytes at a time."""

    def __init__(self, data=b"", steps=(1,), on_close=None, fail_at=None):
        self.b = bytearray(data)
        self.p = 0
        self.steps, self.i = list(steps) or [1], 0
        self.on_close, self.fail_at = on_close, fail_at
        self.ops = 0
        self.failed = False

    def _step(self):
        self.ops += 1
        if self.fail_at is not None and self.ops == self.fail_at:
            self.failed = True
            raise OSError(5, "simulated I/O error")
        n = self.steps[self.i % len(self.steps)]
        self.i += 1
        return n

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def seek(self, o, w=0):
        self.p = o if w == 0 else (self.p + o if w == 1 else len(self.b) + o)
        return self.p

    def tell(self):
        return self.p

    def readinto(self, buf):
        n = min(len(buf), self._step(), len(self.b) - self.p)
        n = max(n, 0)
        buf[:n] = self.b[self.p : self.p + n]
        self.p += n
        return n

    def write(self, buf):
        buf = bytes(buf)
        n = min(len(buf), self._step())
        self.b[self.p : self.p + n] = buf[:n]
        self.p += n
        return n

    def close(self):
        if not self.closed:
            super().close()
            if self.on_close:
                self.on_close(bytes(self.b))


class Minimal:
    """Exactly the documented methods of a file-like object to read."""

    def __init__(self, data):
        self._f = io.BytesIO(data)
        self.closed = False

    def read(self, n=-1):
        return self._f.read(n)

    def readline(self):
        return self._f.readline()

    def tell(self):
        return self._f.tell()

    def seek(self, o, w=0):
        return self._f.seek(o, w)


def Lines(data):
    """A buffered stream over a pipe-like source."""
    return io.BufferedReader(DripRaw(data, (7, 1, 30)), 16)


class MinimalText(Minimal):
    def __init__(self, data):
        self._f = io.StringIO(data.decode("ascii"))
        self.closed = False


class StoreHandler(PathHandler):
    """An object store behind a PathManager: an object appears on close."""

    def __init__(self, steps=(1 << 20,)):
        self.files = {}
        self.steps = steps
        self.open_now = 0
        self.fail_open = None
        self.fail_write = None
        self.fail_close = False
        self.failed = False

    def _get_supported_prefixes(self):
        return ["sim://"]

    def _open(self, path, mode="r", buffering=-1, **kw):
        assert path.startswith("sim://")
        h = self
        if "r" in mode:
            if path not in self.files:
                raise FileNotFoundError(2, "no such object", path)
            raw = DripRaw(self.files[path], self.steps, lambda b: h._closed(None, b))
            f = io.BufferedReader(raw, 64)
        else:
            raw = DripRaw(b"", self.steps, lambda b: h._closed(path, b), self.fail_write)
            h.raw = raw
            f = io.BufferedWriter(raw, 64)
        self.open_now += 1
        if "b" not in mode:
            f = io.TextIOWrapper(f, encoding="utf-8")
        return f

    def _closed(self, path, b):
        self.open_now -= 1
        if path is not None:
            if self.fail_close:
                self.failed = True
                raise OSError(5, "simulated error while storing the object")
            self.files[path] = b

    def _exists(self, path, **kw):
        return path in self.files

    def _isfile(self, path, **kw):
        return path in self.files


def store(steps=(1 << 20,)):
    h = StoreHandler(steps)
    pm = PathManager()
    pm.register_handler(h)
    return h, pm


def open_fds():
    return sorted(int(x) for x in os.listdir("/proc/self/fd"))


def leaked(before):
    return sorted(set(open_fds()) - set(before))
