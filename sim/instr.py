"""Instrumented build of the multi-threaded C++ files (compiled with
-fsanitize=thread against our own runtime, native/tsched.c) and the Python side
of the native-thread scheduler."""

import ctypes
import glob
import hashlib
import importlib.util
import os
import subprocess
import sys

from .native_build import BUILD, HERE

REPO = os.environ.get("VERIF_REPO", "/repo")
CSRC = os.path.join(REPO, "pytorch3d", "csrc")
NDEC = 4096
MAXT = 40


def _hash_tree(bind="instr_bind.cpp"):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(CSRC):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".cpp", ".h", ".hpp")):
                h.update(os.path.relpath(os.path.join(d, f), CSRC).encode())
                with open(os.path.join(d, f), "rb") as x:
                    h.update(x.read())
    for f in (bind,):
        with open(os.path.join(HERE, "native", f), "rb") as x:
            h.update(x.read())
    return h.hexdigest()[:16]


def _compile(src, obj, name, instrument):
    import torch
    from torch.utils.cpp_extension import include_paths
    import sysconfig

    cmd = ["g++", "-std=c++17", "-O1", "-g0", "-fPIC", "-w", "-c", src, "-o", obj]
    if instrument:
        cmd.append("-fsanitize=thread")
    cmd += [f"-D_GLIBCXX_USE_CXX11_ABI={int(torch._C._GLIBCXX_USE_CXX11_ABI)}"]
    cmd += ["-DTORCH_API_INCLUDE_EXTENSION_H", f"-DTORCH_EXTENSION_NAME={name}"]
    for i in [CSRC] + include_paths() + [sysconfig.get_paths()["include"]]:
        cmd += ["-isystem" if i != CSRC else "-I", i]
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def build(subs=("rasterize_meshes", "sample_pdf"), bind="instr_bind.cpp", tag="pt3d_instr_", instrument=True):
    """Path of the instrumented extension; raises RuntimeError with the
    compiler's output when the code does not compile."""
    import torch

    h = _hash_tree(bind)
    name = tag + h
    out = os.path.join(BUILD, name + ".so")
    if os.path.exists(out):
        return name, out
    os.makedirs(BUILD, exist_ok=True)
    for old in glob.glob(os.path.join(BUILD, tag + "*")):
        if old.endswith(".o"):
            os.unlink(old)
    work = os.path.join(BUILD, f"{name}.{os.getpid()}")

    def compile_all(srcs):
        procs = []
        for i, (s, ins) in enumerate(srcs):
            o = f"{work}.{i}.o"
            procs.append((o, s, _compile(s, o, name, ins)))
        msgs = []
        for o, s, p in procs:
            t = p.communicate()[0].decode(errors="replace")
            if p.returncode:
                msgs.append(s + ":\n" + t[-4000:])
        if msgs:
            raise RuntimeError("\n".join(msgs))
        return [o for o, _, _ in procs]

    def link(objs, strict):
        lib = os.path.join(os.path.dirname(torch.__file__), "lib")
        cmd = ["g++", "-shared", "-o", out + ".tmp"] + objs
        cmd += ["-L" + lib, "-ltorch", "-ltorch_cpu", "-lc10", "-ltorch_python", "-pthread"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError(r.stdout.decode()[-4000:])

    def undefined(path):
        r = subprocess.run(["nm", "-DC", "--undefined-only", path], stdout=subprocess.PIPE)
        bad = []
        for line in r.stdout.decode().splitlines():
            n = line.split(None, 1)[-1].strip()
            n = n[2:] if n[:2] in ("U ", "w ") else n
            if "::" not in n and "(" in n and not n.startswith(("operator", "std", "typeinfo", "vtable")):
                bad.append(n)
        return bad

    first = [(os.path.join(HERE, "native", bind), False)]
    for sub in subs:
        first += [(s, instrument) for s in sorted(glob.glob(os.path.join(CSRC, sub, "*.cpp")))]
    objs = compile_all(first)
    link(objs, True)
    if undefined(out + ".tmp"):
        # code moved to other files: take all of them
        have = {s for s, _ in first}
        rest = [
            s
            for s in sorted(glob.glob(os.path.join(CSRC, "**", "*.cpp"), recursive=True))
            if s not in have and "pulsar" not in s and os.path.basename(s) != "ext.cpp"
        ]
        for i in range(0, len(rest), 8):
            got = compile_all([(s, instrument) for s in rest[i : i + 8]])
            for o in got:
                n = o.replace(work, f"{work}.x{i}")
                os.rename(o, n)
                objs.append(n)
        link(objs, True)
    for o in objs:
        os.unlink(o)
    os.replace(out + ".tmp", out)
    # one build is enough; older ones only take space
    for old in glob.glob(os.path.join(BUILD, tag + "*.so")):
        if old != out and os.environ.get("VERIF_KEEP_BUILDS") is None:
            try:
                os.unlink(old)
            except OSError:
                pass
    return name, out


_mods = {}
PLAIN = dict(
    subs=("sample_farthest_points", "face_areas_normals", "packed_to_padded_tensor", "sample_pdf"),
    bind="fps_bind.cpp",
    tag="pt3d_plain_",
    instrument=False,
)

# what meshes, point clouds and volumes are rendered with
RENDER = dict(
    subs=PLAIN["subs"] + ("rasterize_meshes", "rasterize_points", "blending", "compositing"),
    bind="render_bind.cpp",
    tag="pt3d_render_",
    instrument=False,
)

OPS = dict(
    subs=("ball_query", "face_areas_normals", "gather_scatter", "iou_box3d", "knn", "marching_cubes", "mesh_normal_consistency", "packed_to_padded_tensor", "point_mesh",
          "points_to_volumes", "sample_farthest_points"),
    bind="ops_bind.cpp",
    tag="pt3d_ops_",
    instrument=False,
)


def module(**kw):
    """The extension (instrumented by default), loaded once."""
    tag = kw.get("tag", "")
    if tag not in _mods:
        import torch  # noqa

        name, path = build(**kw)
        spec = importlib.util.spec_from_file_location(name, path)
        _mods[tag] = importlib.util.module_from_spec(spec)
        sys.modules[name] = _mods[tag]
        spec.loader.exec_module(_mods[tag])
    return _mods[tag]


def plain(which=PLAIN):
    """The uninstrumented extension, in place of the functions of pytorch3d._C."""
    from pytorch3d import _C

    m = module(**which)
    for f in dir(m):
        if not f.startswith("_"):
            setattr(_C, f, getattr(m, f))
    return m


class _State(ctypes.Structure):
    _fields_ = [
        ("active", ctypes.c_int32), ("free_mode", ctypes.c_int32), ("nthr", ctypes.c_int32), ("deadlock", ctypes.c_int32),
        ("steps", ctypes.c_int64), ("switches", ctypes.c_int64), ("created", ctypes.c_int64), ("create_failed", ctypes.c_int64),
        ("nd", ctypes.c_int32), ("di", ctypes.c_int32), ("npick", ctypes.c_int32), ("pi", ctypes.c_int32),
        ("gap", ctypes.c_int32 * NDEC), ("tgt", ctypes.c_int32 * NDEC), ("pick", ctypes.c_int32 * NDEC),
        ("fail_mask", ctypes.c_uint64),
        ("races", ctypes.c_int32), ("oob", ctypes.c_int32), ("race_kind", ctypes.c_int32), ("oob_write", ctypes.c_int32),
        ("race_addr", ctypes.c_uint64), ("oob_addr", ctypes.c_uint64), ("race_t1", ctypes.c_int32), ("race_t2", ctypes.c_int32),
        ("sched_hash", ctypes.c_uint64),
        ("overflow", ctypes.c_int64), ("accesses", ctypes.c_int64), ("max_live", ctypes.c_int64),
    ]


class NativeSched:
    def __init__(self):
        path = next(p for p in os.environ.get("LD_PRELOAD", "").split(":") if "tsched" in p)
        self.lib = ctypes.CDLL(path)
        self.lib.tsched_state.restype = ctypes.POINTER(_State)
        self.lib.tsched_guard.argtypes = [ctypes.c_uint64, ctypes.c_uint64]
        self.S = self.lib.tsched_state().contents

    def plan(self, preemptions, picks, fail_mask=0):
        S = self.S
        S.nd = len(preemptions)
        for i, (g, t) in enumerate(preemptions):
            S.gap[i], S.tgt[i] = g, t
        S.npick = len(picks)
        for i, p in enumerate(picks):
            S.pick[i] = p
        S.fail_mask = fail_mask

    def call(self, fn, *args, guards=()):
        """Run fn(*args) with its native threads under the scheduler."""
        self.lib.tsched_begin()
        for a, n in guards:
            self.lib.tsched_guard(a, n)
        self.lib.tsched_go()
        try:
            r = fn(*args)
            snap = self._snap(r, args)
        finally:
            left = self.lib.tsched_end()
        return r, snap, left

    @staticmethod
    def _snap(r, args):
        import torch

        out = []
        for x in (r if isinstance(r, tuple) else (r,)):
            if isinstance(x, torch.Tensor):
                out.append(x.numpy().tobytes())
        return out


def draw_plan(d, nthreads):
    """Preemptions, picks at blocking points, failing thread creations."""
    n = d.weighted([2, 3, 3, 2])
    n = [0, d.integer(1, 4), d.integer(4, 24), d.integer(24, 120)][n]
    lg = d.integer(2, 13)
    pre = [(d.gap(lg), d.choice(nthreads + 1)) for _ in range(n)]
    picks = [d.choice(nthreads + 1) for _ in range(min(2 * nthreads + 2, 40))]
    return pre, picks
