"""Python side of the simulated disk (native/simfs.c) and of simulated processes."""

import ctypes
import os
import select
import shutil
import signal
import sys
import tempfile
import time

KINDS = {
    "crash_before": 1,
    "crash_after": 2,
    "torn_write_crash": 3,
    "EIO": 4,
    "ENOSPC": 5,
    "short_write": 6,
    "EXDEV": 7,
    "disk_full": 8,
    "EINTR": 9,
    "EOF": 10,
    "EMFILE": 11,
}
NAMES = {v: k for k, v in KINDS.items()}
OPN = {
    1: "open-w",
    2: "write",
    3: "rename",
    4: "unlink",
    5: "mkdir",
    6: "rmdir",
    7: "truncate",
    8: "link",
    9: "copy",
    10: "open-r",
    11: "read",
    12: "fsync",
    13: "close-w",
}
MAXF, MAXLOG = 64, 65536


class _Shm(ctypes.Structure):
    _fields_ = [
        ("active", ctypes.c_int32),
        ("count_reads", ctypes.c_int32),
        ("nops", ctypes.c_int32),
        ("nfaults", ctypes.c_int32),
        ("fired", ctypes.c_int32 * 16),
        ("full", ctypes.c_int32),
        ("bytes", ctypes.c_int64),
        ("logn", ctypes.c_int32),
        ("ops", ctypes.c_uint8 * MAXLOG),
        ("f_idx", ctypes.c_int32 * MAXF),
        ("f_kind", ctypes.c_int32 * MAXF),
        ("f_arg", ctypes.c_int32 * MAXF),
        ("sep_tmp", ctypes.c_int32),
        ("user", ctypes.c_int32 * 256),
        ("count_close", ctypes.c_int32),
    ]


_lib = None
_owner = None


def lib():
    """The preloaded shim; every OS process that drives runs owns a state block."""
    global _lib, _owner
    if _lib is None:
        path = next(
            (p for p in os.environ.get("LD_PRELOAD", "").split(":") if "simfs" in p),
            None,
        )
        if path is None:
            raise RuntimeError("simfs is not preloaded")
        _lib = ctypes.CDLL(path)
        _lib.simfs_state.restype = ctypes.POINTER(_Shm)
    if _owner != os.getpid():
        _lib.simfs_private()
        _owner = os.getpid()
    return _lib


SCRATCH_BASE = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"


class Disk:
    """A scratch directory tree whose every operation goes through the shim.

    `data` is the durable file system of the simulated machine, `tmp` its
    temporary directory (possibly another file system)."""

    def __init__(self):
        self.lib = lib()
        # fixed-length name: path lengths must not vary between executions
        self.root = tempfile.mkdtemp(prefix="dst_", dir=SCRATCH_BASE)
        self.data = os.path.join(self.root, "data")
        self.tmp = os.path.join(self.root, "tmp")
        os.mkdir(self.data)
        os.mkdir(self.tmp)
        self.S = self.lib.simfs_state().contents
        self.S.active = 0
        self.lib.simfs_roots(self.data.encode(), self.tmp.encode())

    def close(self):
        self.S.active = 0
        shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def reset(self, faults=(), sep_tmp=False, reads=False, closes=False):
        S = self.S
        S.active = 0
        S.count_reads = int(reads)
        S.count_close = int(closes)
        S.nops = 0
        S.logn = 0
        S.full = 0
        S.bytes = 0
        S.sep_tmp = int(sep_tmp)
        ctypes.memset(S.fired, 0, 64)
        for i in range(256):
            S.user[i] = 0
        S.nfaults = len(faults)
        for i, (idx, kind, arg) in enumerate(faults):
            S.f_idx[i], S.f_kind[i], S.f_arg[i] = idx, KINDS[kind], arg

    def activate(self):
        self.S.active = 1

    def deactivate(self):
        self.S.active = 0

    def fired(self):
        return {NAMES[i]: self.S.fired[i] for i in range(1, 12) if self.S.fired[i]}

    def oplog(self):
        return [OPN.get(self.S.ops[i], "?") for i in range(min(self.S.logn, MAXLOG))]

    def tree(self, root=None):
        """Sorted relative paths with sizes (directory names of random temp
        entries are canonicalised)."""
        out = []
        root = root or self.data
        for d, _, fs in os.walk(root):
            for f in fs:
                p = os.path.join(d, f)
                out.append((os.path.relpath(p, root), os.path.getsize(p)))
        return sorted(out)


def run_process(disk, fn, faults=(), sep_tmp=False, reads=False, max_wall=120.0):
    """Run fn() as a simulated process (forked, killed by faults at will).

    Returns (kind, payload): ("exit", bytes) | ("crash", None) |
    ("error", traceback text) | ("hang", None)."""
    import pickle
    import traceback

    disk.reset(faults, sep_tmp, reads)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            tempfile.tempdir = disk.tmp
            os.environ["TMPDIR"] = disk.tmp
            os.chdir(disk.data)
            disk.activate()
            try:
                val = fn()
                out = pickle.dumps(("exit", val))
            except BaseException as e:
                out = pickle.dumps(
                    ("error", (type(e).__name__, str(e)[:500], traceback.format_exc()[-4000:]))
                )
            disk.deactivate()
            mv = memoryview(out)
            while mv:
                n = os.write(w, mv)
                mv = mv[n:]
        except BaseException:
            code = 99
        os._exit(code)
    os.close(w)
    buf = b""
    t_end = time.monotonic() + max_wall
    hang = False
    while True:
        left = t_end - time.monotonic()
        if left <= 0:
            hang = True
            os.kill(pid, signal.SIGKILL)
            break
        rl, _, _ = select.select([r], [], [], left)
        if rl:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    disk.deactivate()
    if hang:
        return "hang", None
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 137:
        return "crash", None
    if st != 0 or not buf:
        return "died", st
    return pickle.loads(buf)


import multiprocessing.process  # noqa: E402,F401  (imported before any fork)
