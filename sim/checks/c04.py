"""C04: the NeRF trainer.  Checkpoints are never torn, no finished epoch is
trained twice after its checkpoint, the learning-rate schedule and the
statistics continue exactly; failed downloads are never taken for data."""

import io
import math
import os
import struct
import sys
import types
from unittest import mock

import numpy as np
import torch

for _m in ("visdom",):
    try:
        __import__(_m)
    except Exception:  # pragma: no cover
        sys.modules[_m] = mock.MagicMock()
import hydra
import requests
from omegaconf import OmegaConf
from PIL import Image

from .. import disk as dk
from ..core import Scenario, Violation

import train_nerf  # projects/nerf
from nerf import dataset as nerf_dataset

PROPERTY = "C04"
BASE_LR = 0.01


def prepare(tier):
    b = io.BytesIO()
    torch.save({"a": torch.zeros(2)}, b)
    b.seek(0)
    torch.load(b, weights_only=True)


def make_files(root, name="lego", n=3, seed=0):
    """A real data set on disk, as the training script expects it."""
    g = torch.Generator().manual_seed(seed)
    R = torch.eye(3)[None].repeat(n, 1, 1)
    T = torch.tensor([[0.0, 0.0, 3.0 + 0.1 * i] for i in range(n)])
    cams = dict(
        R=R,
        T=T,
        focal_length=torch.ones(n, 2),
        principal_point=torch.zeros(n, 2),
    )
    split = [list(range(n - 1)), [n - 1], [n - 1]]
    b = io.BytesIO()
    torch.save({"cameras": cams, "split": split}, b)
    img = (torch.rand(n * 4, 4, 3, generator=g) * 255).to(torch.uint8).numpy()
    p = io.BytesIO()
    Image.fromarray(img).save(p, "PNG")
    return {name + ".pth": b.getvalue(), name + ".png": p.getvalue(), name + "_license.txt": b"free"}


def config(d):
    return OmegaConf.create(
        dict(
            seed=d.choice(100),
            resume=True,
            stats_print_interval=1000,
            validation_epoch_interval=d.integer(1, 3),
            checkpoint_epoch_interval=d.integer(1, 3),
            checkpoint_path=d.pick(["ck/nerf.pth", "a/b/n.pth"]),
            data=dict(dataset_name="lego", image_size=[4, 4], precache_rays=d.chance(1, 2)),
            optimizer=dict(
                max_epochs=d.integer(2, 8),
                lr=BASE_LR,
                lr_scheduler_step_size=d.integer(1, 5),
                lr_scheduler_gamma=0.5,
            ),
            visualization=dict(
                history_size=2, visdom=False, visdom_server="x", visdom_port=1, visdom_env="x"
            ),
            raysampler=dict(
                n_pts_per_ray=4,
                n_pts_per_ray_fine=4,
                n_rays_per_image=3,
                min_depth=1.0,
                max_depth=4.0,
                stratified=True,
                stratified_test=False,
                chunk_size_test=16,
            ),
            implicit_function=dict(
                n_harmonic_functions_xyz=1,
                n_harmonic_functions_dir=1,
                n_hidden_neurons_xyz=4,
                n_hidden_neurons_dir=4,
                density_noise_std=0.0,
                n_layers_xyz=2,
            ),
        )
    )


class Kill(BaseException):
    pass


def process(cfg, data_root, obs, interrupt=None):
    """One simulated run of the training script."""
    log = open(obs, "ab", buffering=0)  # outside the simulated disk: the observer
    real_adam = torch.optim.Adam
    n = [0]

    class Adam(real_adam):
        def step(self, *a, **k):
            n[0] += 1
            log.write(struct.pack("d", self.param_groups[0]["lr"]))
            if interrupt and n[0] == interrupt[0]:
                if interrupt[1] is Kill:
                    os._exit(137)
                raise interrupt[1]("simulated interruption")
            return super().step(*a, **k)

    real_get = nerf_dataset.get_nerf_datasets
    clock = [1.7e9]

    def now():
        clock[0] += 0.01
        return clock[0]

    with mock.patch.object(hydra.utils, "get_original_cwd", os.getcwd), mock.patch.object(
        torch.optim, "Adam", Adam
    ), mock.patch("time.time", now), mock.patch.object(
        train_nerf,
        "get_nerf_datasets",
        lambda **k: real_get(data_root=data_root, **k),
    ), mock.patch("builtins.print", lambda *a, **k: None):
        train_nerf.main.__wrapped__(cfg)
    return n[0]


def read_obs(path):
    try:
        b = open(path, "rb").read()
    except FileNotFoundError:
        return []
    return list(struct.unpack(f"{len(b) // 8}d", b))


def epoch_of(cfg, lr):
    o = cfg.optimizer
    e = math.log(lr / BASE_LR) / math.log(o.lr_scheduler_gamma) * o.lr_scheduler_step_size
    return int(round(e)), abs(e - round(e))


def look(cfg, D):
    """What a second process can read back."""
    import pickle

    def body():
        if not os.path.isfile(cfg.checkpoint_path):
            return None
        ck = torch.load(cfg.checkpoint_path, weights_only=False)
        data = ck["stats"]
        if isinstance(data, torch.Tensor):
            data = data.numpy().tobytes()
        st = pickle.loads(data) if isinstance(data, (bytes, bytearray)) else data
        hist = {
            k: [len(h) for h in m.history] for k, m in st.stats.get("train", {}).items()
        }
        steps = {int(s["step"]) for s in ck["optimizer"]["state"].values()}
        return st.epoch, hist, sorted(steps), ck["optimizer"]["param_groups"][0]["lr"], len(ck["model"])

    return dk.run_process(D, body)


def scenario(d, ctx):
    cfg = config(d)
    o = cfg.optimizer
    per = 2  # training images
    with dk.Disk() as D:
        files = make_files(D.root)
        droot = os.path.join(D.root, "nerfdata")
        os.mkdir(droot)
        for k, v in files.items():
            with open(os.path.join(droot, k), "wb") as f:
                f.write(v)
        saved = [e for e in range(o.max_epochs) if e > 0 and e % cfg.checkpoint_epoch_interval == 0]
        durable = -1
        n_proc = d.integer(0, 4)
        nops_guess = 14 * max(1, len(saved)) + 4
        for k in range(n_proc + 1):
            last = k == n_proc
            faults, intr, sep = [], None, False
            if not last:
                mode = d.weighted([6, 2, 2])
                if mode == 0:
                    for _ in range(1 + d.choice(2)):
                        kind = d.pick(["crash_before", "crash_after", "torn_write_crash", "EIO",
                                       "ENOSPC", "short_write", "disk_full", "EINTR"])
                        ctx.arm(kind)
                        faults.append((d.choice(nops_guess), kind, d.choice(256)))
                elif mode == 1:
                    intr = (1 + d.choice(per * o.max_epochs), d.pick([RuntimeError, KeyboardInterrupt]))
                    ctx.arm(intr[1].__name__)
                else:
                    intr = (1 + d.choice(per * o.max_epochs), Kill)
                    ctx.arm("kill_in_step")
                sep = d.chance(1, 4)
            obs = os.path.join(D.root, f"obs{k}")
            kind, val = dk.run_process(
                D, lambda: process(cfg, droot, obs, intr), faults, sep_tmp=sep
            )
            fired = D.fired()
            for f, c in fired.items():
                ctx.fault(f, c)
            lrs = read_obs(obs)
            if intr and len(lrs) >= intr[0]:
                ctx.fault("kill_in_step" if intr[1] is Kill else intr[1].__name__)
            where = f"process {k}: {kind} {val if kind == 'error' else ''} fired {fired} interrupt {intr}; {cfg.optimizer} every {cfg.checkpoint_epoch_interval}"
            if kind in ("hang", "died"):
                raise Violation("trainer-" + kind, where)
            benign = not set(fired) - {"short_write", "EINTR", "EXDEV"} and not (intr and len(lrs) >= intr[0])
            if kind == "error" and benign:
                raise Violation("cannot-resume", where)
            ctx.event("process", kind, len(lrs), sorted(fired.items()), D.S.nops)
            ctx.state(kind, sorted(fired), D.S.nops, len(lrs))
            ctx.sim_time += 0.1 * len(lrs)
            # the learning rates tell which epochs the process trained
            eps = []
            for i, lr in enumerate(lrs):
                e, err = epoch_of(cfg, lr)
                ctx.check(err < 1e-6, "learning-rate-off-schedule", lr, where)
                eps.append(e)
            start = durable + 1
            want = [start + i // per for i in range(len(lrs))]
            ctx.check(
                eps == want,
                "wrong-epochs-trained",
                f"newest checkpoint is of epoch {durable}; trained epochs {eps}, expected {want}; {where}",
            )
            if kind == "exit":
                ctx.check(
                    len(lrs) == per * max(0, o.max_epochs - start),
                    "wrong-number-of-steps",
                    f"{len(lrs)} steps from epoch {start}; {where}",
                )
            # what is acknowledged, and what must be readable
            done = start + (len(lrs) - 1) // per if lrs else start
            if kind == "exit":
                done = o.max_epochs
            acked = max([durable] + [e for e in saved if start <= e < done])
            k2, got = look(cfg, D)
            if k2 != "exit":
                raise Violation("checkpoint-unreadable", f"{got} after {where}")
            now = -1 if got is None else got[0]
            ctx.check(
                now >= acked,
                "acknowledged-progress-lost",
                f"checkpoint of epoch {now}, expected at least {acked}; {where}",
            )
            if got is not None:
                ctx.check(now in saved, "unexpected-checkpoint-epoch", now, saved, where)
                for s, h in got[1].items():
                    if s == "sec/it":
                        continue
                    ctx.check(
                        h == [per] * (now + 1),
                        "statistics-lost-or-repeated",
                        f"{s}: samples per epoch {h} at epoch {now}; {where}",
                    )
                ctx.check(
                    got[2] == [per * (now + 1)],
                    "optimizer-steps-differ",
                    f"optimizer steps {got[2]} at epoch {now}; {where}",
                )
            ctx.event("durable", now)
            durable = now


# ------------------------------------------------------------- downloads
class Resp:
    def __init__(self, status, content, reason="x"):
        self.status_code, self.content, self.reason, self.url = status, content, reason, "u"
        self.ok = status < 400
        self.headers = {}

    def raise_for_status(self):
        if self.status_code >= 400:
            raise requests.HTTPError(f"{self.status_code}")

    def iter_content(self, chunk_size=1 << 16, **k):
        for i in range(0, len(self.content), chunk_size or 1 << 16):
            yield self.content[i : i + (chunk_size or 1 << 16)]

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def scenario_download(d, ctx):
    """Downloads over a faulty network onto a faulty disk, with retries."""
    files = make_files(None, seed=d.choice(50))
    net = [d.weighted([5, 2, 2, 1]) for _ in range(12)]
    tries = d.integer(1, 4)
    with dk.Disk() as D:
        want = None
        ok = False
        for t in range(tries + 1):
            last = t == tries
            plan = iter([]) if last else iter(net[3 * t : 3 * t + 3])
            hit = D.S.user

            def get(url, *a, **k):
                name = os.path.basename(url)
                m = next(plan, 0)
                if m:
                    hit[10 + m] += 1
                if m == 1:
                    return Resp(d_status, b"<html>error</html>", "err")
                if m == 2:
                    raise requests.ConnectionError("connection lost")
                if m == 3:
                    raise requests.Timeout("timed out")
                return Resp(200, files[name])

            d_status = d.pick([404, 500, 503, 403])
            faults = []
            if not last and d.chance(1, 2):
                kind = d.pick(["crash_before", "crash_after", "torn_write_crash", "EIO", "ENOSPC", "disk_full", "short_write"])
                faults.append((d.choice(14), kind, d.choice(256)))
                ctx.arm(kind)

            def body():
                with mock.patch.object(requests, "get", get), mock.patch(
                    "builtins.print", lambda *a, **k: None
                ):
                    tr, va, te = nerf_dataset.get_nerf_datasets(
                        dataset_name="lego", image_size=[4, 4], data_root="nd"
                    )
                return [float(e["image"].double().sum()) for e in list(tr) + list(va)], [
                    e["camera"].T.tolist() for e in tr
                ]

            kind, val = dk.run_process(D, body, faults)
            fired = D.fired()
            for f, c in fired.items():
                ctx.fault(f, c)
            netf = [int(D.S.user[11]), int(D.S.user[12]), int(D.S.user[13])]
            for nm, c in zip(["http_error", "connection_lost", "timeout"], netf):
                if c:
                    ctx.fault(nm, c)
            where = f"attempt {t}: {kind} {val if kind == 'error' else ''} disk {fired} network {netf}"
            ctx.event(where.split("Traceback")[0][:200] if kind != "error" else f"attempt {t} error {val[0]}", D.S.nops)
            ctx.state(kind, netf, sorted(fired), D.S.nops)
            if kind in ("hang", "died"):
                raise Violation("download-" + kind, where)
            if want is None:
                img = np.array(Image.open(io.BytesIO(files["lego.png"])))
                ims = torch.stack(torch.chunk(torch.FloatTensor(img) / 255.0, 3, dim=0))
                want = [float(x.double().sum()) for x in ims]
            if kind == "exit":
                ok = True
                ctx.check(val[0] == want, "wrong-data-loaded", where)
            elif kind == "error":
                ctx.check(
                    bool(fired) or any(netf),
                    "failed-earlier-download-not-recovered",
                    where,
                )
        ctx.check(ok, "never-recovered", where)


SCENARIOS = [
    Scenario("nerf_resume", scenario, quick=240, thorough=12000, max_wall=180),
    Scenario("nerf_download", scenario_download, quick=240, thorough=12000, max_wall=120),
]

META = {
    "rule": "a run is one seed: a NeRF training configuration and 0-4 interrupted processes plus a final one, or 1-4 failing download "
    "attempts plus a final one; nontrivial = a fault really fired",
    "state_measure": "distinct (way a process ended, faults fired, number of file operations, training steps)",
    "real": "projects/nerf/train_nerf.main (model, renderer, stats, optimiser, scheduler, loaders, dataset and download code), libc file calls through the shim",
    "stub": "network (requests.get), visdom (disabled by configuration), wall clock, tiny generated data set; optimizer.step is observed",
    "assumptions": [
        "process-kill crash model: accepted writes survive",
        "bitwise equality with uninterrupted training is not claimed for this script (its random engines are not re-seeded per epoch); epochs, "
        "learning rates, optimizer step counts and statistics bookkeeping are",
    ],
    "level": "exploration",
}
