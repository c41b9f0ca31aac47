"""C07: the same bytes load as the same data however they are delivered."""

import gzip
import io
import os
import pathlib
import warnings
import zipfile

from .. import disk as dk
from .. import meshfiles as mf
from .. import threads as th
from ..core import Scenario, Violation
from . import c06

th.install()

PROPERTY = "C07"
FILES = c06.FILES
STREAM_API = {"ply_ascii": "ply", "ply_le": "ply", "ply_be": "ply", "obj": "obj"}


class Source:
    """One way to hand over a file; open() gives what the loader is called with."""

    def __init__(self, name, make, stream=False, text=False):
        self.name, self.make, self.stream, self.text = name, make, stream, text


def drip(d):
    return [d.integer(1, 40) for _ in range(d.integer(1, 4))]


def draw_source(d, ctx, D, fmt, files, path, api, st):
    """-> (name, io object, argument maker, is_stream)"""
    main = os.path.basename(path)
    data = files[main]
    with_stream = api in ("ply", "obj")
    opts = ["str", "Path", "store", "store"]
    if with_stream:
        opts += ["rb", "raw", "bytesio", "buffered", "gzip", "zip", "offset"]
        if api == "ply":
            opts += ["minimal"]
        if fmt in ("ply_ascii", "obj"):
            opts += ["text", "stringio", "textwrapper"] + (["minimaltext"] if api == "ply" else [])
    k = d.pick(opts)
    if k == "str":
        return k, None, lambda: path
    if k == "Path":
        return k, None, lambda: pathlib.Path(path)
    if k == "store":
        h, pm = st
        h.steps = drip(d)
        for n, b in files.items():
            h.files["sim://dir/" + n] = b
        return k, pm, lambda: "sim://dir/" + main
    if k == "rb":
        size = d.pick([-1, 16, 100])
        return k, None, lambda: open(path, "rb", buffering=size)
    if k == "raw":
        return k, None, lambda: open(path, "rb", buffering=0)
    if k == "bytesio":
        return k, None, lambda: io.BytesIO(data)
    if k == "buffered":
        steps, size = drip(d), d.integer(1, 64)
        return k, None, lambda: io.BufferedReader(mf.DripRaw(data, steps), size)
    if k == "gzip":
        b = gzip.compress(data, mtime=0)
        if d.chance(1, 2):
            p = path + ".gz"
            with open(p, "wb") as f:
                f.write(b)
            return k, None, lambda: gzip.open(p, "rb")
        return k, None, lambda: gzip.GzipFile(fileobj=io.BytesIO(b))
    if k == "zip":
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
            z.writestr(main, data)
        return k, None, lambda: zipfile.ZipFile(io.BytesIO(b.getvalue())).open(main)
    if k == "offset":
        # a file that is stored behind something else in the same stream
        n = d.integer(1, 50)

        def make():
            f = io.BytesIO(b"x" * n + data) if d is None or n % 2 else io.BufferedReader(mf.DripRaw(b"x" * n + data, (9, 2)), 8)
            f.seek(n)
            return f

        return k, None, make
    if k == "minimal":
        return k, None, lambda: mf.Minimal(data)
    if k == "minimaltext":
        return k, None, lambda: mf.MinimalText(data)
    if k == "text":
        return k, None, lambda: open(path, "r")
    if k == "stringio":
        return k, None, lambda: io.StringIO(data.decode("ascii"))
    steps = drip(d)
    return k, None, lambda: io.TextIOWrapper(io.BufferedReader(mf.DripRaw(data, steps)), encoding="ascii")


def scenario(d, ctx):
    warnings.simplefilter("ignore")
    with dk.Disk() as D:
        st = mf.store()
        io_ = c06.make_io()
        store_io = c06.make_io(st[1])
        n = d.integer(1, 3)
        docs = []
        for i in range(n):
            fmt = d.pick(mf.FORMATS)
            pc = fmt.startswith("ply") and d.chance(1, 4)
            doc = mf.draw_doc(d, fmt, pc)
            files = mf.encode(doc, fmt, f"m{i}")
            for nm, b in files.items():
                with open(os.path.join(D.data, nm), "wb") as h:
                    h.write(b)
            docs.append((doc, fmt, pc, files, os.path.join(D.data, next(iter(files)))))

        def draw_load():
            doc, fmt, pc, files, path = docs[d.choice(n)]
            api, fn = c06.loader(d, fmt, pc)
            name, pm, make = draw_source(d, ctx, D, fmt, files, path, api, st)
            ctx.count("via_" + name)
            ctx.state(fmt, api, name)

            def go():
                x = make()
                try:
                    r = fn(store_io if pm is not None else io_, x)
                    if hasattr(x, "close") and x.closed:
                        raise Violation("caller's-stream-closed", f"{fmt} {api} {name}")
                    return r
                finally:
                    if hasattr(x, "close"):
                        x.close()

            def check(r):
                e = c06.expect(doc, fmt, api)
                if name not in ("str", "Path", "store", "rb", "raw", "text") or api == "obj" and name in ("rb", "raw", "text"):
                    # a bare stream has no directory to find the textures in
                    if fmt == "obj":
                        e.image = None
                return mf.differs(e, r, c06.ordered(doc), api == "notex")

            return (fmt, api, name), go, check

        for _ in range(d.integer(1, 4)):
            before = mf.open_fds()
            if d.chance(1, 3):
                nt = d.integer(2, 3)
                jobs = [draw_load() for _ in range(nt)]
                s = th.Sched(FILES, th.draw_preemptions(d, nt, 0, 30, 8), opcodes=d.chance(1, 8))
                res = s.run([j[1] for j in jobs])
                if s.dead:
                    raise Violation("loads-never-finish", str(s.dead))
                ctx.event("threads", s.points, s.trail)
                ctx.fault("preemption", s.di) if s.di else None
                ctx.count("thread_switches", s.switches)
                ctx.state("sched", tuple(s.trail))
                ctx.sim_time += s.points * 1e-6
                for (what, _, check), (ok, r) in zip(jobs, res):
                    if ok != "ok":
                        if isinstance(r, Violation):
                            raise r
                        raise Violation("concurrent-load-fails-" + what[0], f"{what} beside {[j[0] for j in jobs]}: {r!r}")
                    msg = check(r)
                    ctx.check(msg is None, "concurrent-load-wrong-" + what[0], msg, what, [j[0] for j in jobs])
            else:
                what, go, check = draw_load()
                short = d.chance(1, 3)
                if short:
                    D.reset([(d.choice(6), d.pick(["short_write", "EINTR"]), d.choice(256))], reads=True)
                    ctx.arm("short_read")
                    if what[2] == "raw":
                        short = False  # unbuffered streams show short reads to the caller
                if short:
                    D.activate()
                try:
                    r = go()
                except Violation:
                    raise
                except Exception as e:
                    raise Violation("load-fails-" + what[0] + "-via-" + what[2], f"{what}: {e!r}")
                finally:
                    D.deactivate()
                if short:
                    for k, c in D.fired().items():
                        ctx.fault({"short_write": "short_read"}.get(k, k), c)
                ctx.event(*what)
                msg = check(r)
                ctx.check(msg is None, "load-differs-" + what[0] + "-via-" + what[2], msg, what)
            new = mf.leaked(before)
            ctx.check(not new and st[0].open_now == 0, "file-left-open", new, st[0].open_now)
        ctx.nontrivial = True


SCENARIOS = [Scenario("carriers", scenario, 12_000, 600_000, max_wall=60)]
META = {
    "rule": "a run is one seed: 1-3 drawn files and 1-4 steps, each one load through a drawn carrier (path, Path, object-store path handler, plain, "
    "unbuffered, buffered, text, in-memory, gzip, zip, offset and minimal streams, with short and interrupted reads) or 2-3 loads in threads; nontrivial = all",
    "state_measure": "distinct (format, api, carrier) and distinct thread schedules",
    "real": "pytorch3d.io (IO, ply, off, obj, mtl, glb), iopath PathManager, numpy, PIL, Python file objects, real threads",
    "stub": "scheduler (one thread at a time, switched at pytorch3d lines by the seed), the object store behind sim://, pipe-like raw streams, "
    "short reads and EINTR from the LD_PRELOAD shim",
    "assumptions": [
        "unbuffered raw streams are not given short reads: the documentation asks for file-like objects whose read(n) returns n bytes",
        "threads switch at Python lines or bytecodes of pytorch3d only",
    ],
    "level": "exploration",
}
