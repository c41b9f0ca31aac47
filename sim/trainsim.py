"""
The implicitron trainer as a simulated machine.

Real code: Experiment, ImplicitronModelFactory, ImplicitronOptimizerFactory,
ImplicitronTrainingLoop, model_io, Stats, DataLoaderMap providers and samplers,
FrameData collation, torch optimisers/schedulers/serialisation, accelerate.
Stubs: a two-layer model and a tiny in-memory dataset (workload), the clock,
matplotlib drawing (the plot file is still written through the simulated disk)
and visdom (no server).
"""

import dataclasses
import hashlib
import logging
import os
import random
import time
import warnings
from typing import Any, Dict, List
from unittest import mock

import numpy as np
import torch
import torch.distributed._tensor  # noqa: F401  (lazily imported by optimisers)
import torch.distributed.fsdp  # noqa: F401  (lazily imported by accelerate)
from omegaconf import OmegaConf

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")

from pytorch3d.implicitron.dataset.data_loader_map_provider import (  # noqa: E402
    SequenceDataLoaderMapProvider,
    SimpleDataLoaderMapProvider,
)
from pytorch3d.implicitron.dataset.data_source import DataSourceBase  # noqa: E402
from pytorch3d.implicitron.dataset.dataset_base import DatasetBase  # noqa: E402
from pytorch3d.implicitron.dataset.dataset_map_provider import DatasetMap  # noqa: E402
from pytorch3d.implicitron.dataset.frame_data import FrameData  # noqa: E402
from pytorch3d.implicitron.models.base_model import ImplicitronModelBase  # noqa: E402
from pytorch3d.implicitron.tools import model_io  # noqa: E402
from pytorch3d.implicitron.tools import stats as stats_mod  # noqa: E402
from pytorch3d.implicitron.tools import vis_utils  # noqa: E402
from pytorch3d.implicitron.tools.config import expand_args_fields, registry  # noqa: E402

# ------------------------------------------------------------------ workload
HOOK = {"forward": None}


class SimDataset(DatasetBase):
    def __init__(self, n_seq, n_frames, tag):
        self.frames = []
        self._seq_to_idx = {}
        for s in range(n_seq):
            name = f"{tag}seq{s}"
            self._seq_to_idx[name] = []
            for f in range(n_frames):
                self._seq_to_idx[name].append(len(self.frames))
                g = np.random.RandomState(1000 * s + f)
                self.frames.append(
                    (
                        name,
                        f"cat{s % 2}",
                        f,
                        torch.from_numpy(g.rand(3, 2, 2).astype("float32")),
                    )
                )

    def __len__(self):
        return len(self.frames)

    def __getitem__(self, i):
        i = int(i)
        name, cat, f, img = self.frames[i]
        return FrameData(
            frame_number=torch.tensor(f),
            sequence_name=name,
            sequence_category=cat,
            frame_timestamp=torch.tensor(0.02 * f),
            image_rgb=img.clone(),
            frame_type="train_known" if f % 2 else "train_unseen",
        )

    def get_frame_numbers_and_timestamps(self, idxs, subset_filter=None):
        return [(self.frames[i][2], 0.02 * self.frames[i][2]) for i in idxs]


@registry.register
class SimDataSource(DataSourceBase):
    loader_kind: str = "simple"
    batch_size: int = 2
    length_train: int = 0
    n_seq: int = 2
    n_frames: int = 3
    with_val: bool = True

    def get_datasets_and_dataloaders(self):
        tr = SimDataset(self.n_seq, self.n_frames, "t")
        va = SimDataset(1, 2, "v") if self.with_val else None
        maps = DatasetMap(train=tr, val=va, test=None)
        from pytorch3d.implicitron.dataset.data_loader_map_provider import (
            BatchConditioningType as B,
        )

        kinds = {
            "simple": (SimpleDataLoaderMapProvider, {}),
            "sequence": (SequenceDataLoaderMapProvider, {}),
            "known": (
                SequenceDataLoaderMapProvider,
                dict(train_conditioning_type=B.KNOWN, val_conditioning_type=B.KNOWN),
            ),
            "traincond": (
                SequenceDataLoaderMapProvider,
                dict(val_conditioning_type=B.TRAIN),
            ),
            "scene": (
                SequenceDataLoaderMapProvider,
                dict(images_per_seq_options=(1, 2), test_conditioning_type=B.SAME),
            ),
        }
        cls, kw = kinds[self.loader_kind]
        expand_args_fields(cls)
        prov = cls(
            batch_size=self.batch_size,
            dataset_length_train=self.length_train,
            dataset_length_val=1,
            **kw,
        )
        return maps, prov.get_data_loader_map(maps)

    @property
    def all_train_cameras(self):
        return None


@registry.register
class SimModel(ImplicitronModelBase):
    log_vars: List[str] = dataclasses.field(
        default_factory=lambda: ["objective", "loss_a", "sec/it"]
    )
    use_groups: bool = False
    noise: float = 0.1

    def __post_init__(self):
        self.enc = torch.nn.Linear(12, 4)
        self.dec = torch.nn.Linear(4, 3)
        self.register_buffer("seen", torch.zeros((), dtype=torch.int64))
        if self.use_groups:
            self.dec.param_groups = {"self": "fast"}

    def forward(self, *, image_rgb=None, evaluation_mode=None, **kwargs) -> Dict[str, Any]:
        if HOOK["forward"] is not None:
            HOOK["forward"](self)
        x = image_rgb.reshape(len(image_rgb), -1)
        y = self.dec(torch.tanh(self.enc(x)))
        noise = self.noise * (
            torch.rand(()) + float(np.random.rand()) + float(random.random())
        )
        tgt = image_rgb.mean((2, 3))
        loss = ((y - tgt) ** 2).mean() * (1 + noise)
        if self.training:
            self.seen += 1
        return {"objective": loss, "loss_a": loss.detach() * 2}


# The configuration classes read the registry when they are expanded, which
# happens when this module is imported: the simulated parts come first.
from projects.implicitron_trainer import experiment  # noqa: E402

def warm_up():
    """One-time lazy initialisation, done before any simulated process forks."""
    import io

    b = io.BytesIO()
    torch.save({"a": torch.zeros(2)}, b)
    b.seek(0)
    torch.load(b, weights_only=True)


# ------------------------------------------------------------------ process
def patch_environment(clock):
    """Inside a simulated process: simulated clock, no visdom, cheap plots."""
    real_plt = stats_mod.plt
    plt = mock.MagicMock()
    plt.cm.tab10 = real_plt.cm.tab10

    def savefig(path, *a, **k):
        with open(path, "wb") as f:
            f.write(b"%PDF-simulated " + b"x" * 200)

    plt.figure.return_value.savefig = savefig
    stats_mod.plt = plt
    viz = mock.MagicMock()
    viz.check_connection.return_value = False
    vis_utils.get_visdom_connection = lambda *a, **k: viz
    stats_mod.get_visdom_connection = lambda *a, **k: viz
    time.time = clock


class Clock:
    """Deterministic clock: advances per reading, may jump."""

    def __init__(self, t0=1_700_000_000.0, step=0.01, jumps=()):
        self.t, self.step, self.n = t0, step, 0
        self.jumps = dict(jumps)

    def __call__(self):
        self.n += 1
        self.t += self.step + self.jumps.get(self.n, 0.0)
        return self.t


def make_experiment(cfg, exp_dir):
    from projects.implicitron_trainer.impl.model_factory import ImplicitronModelFactory
    from projects.implicitron_trainer.impl.optimizer_factory import (
        ImplicitronOptimizerFactory,
    )
    from projects.implicitron_trainer.impl.training_loop import (
        ImplicitronTrainingLoop,
    )

    for c in (ImplicitronModelFactory, ImplicitronOptimizerFactory, ImplicitronTrainingLoop):
        expand_args_fields(c)
    return experiment.Experiment(
        exp_dir=exp_dir,
        seed=cfg["seed"],
        data_source_class_type="SimDataSource",
        data_source_SimDataSource_args=cfg["data"],
        model_factory_ImplicitronModelFactory_args={
            "model_class_type": "SimModel",
            "model_SimModel_args": cfg["model"],
            "resume": cfg.get("resume", True),
            "resume_epoch": cfg.get("resume_epoch", -1),
        },
        optimizer_factory_ImplicitronOptimizerFactory_args=cfg["opt"],
        training_loop_ImplicitronTrainingLoop_args=cfg["loop"],
    )


def digest_state(x):
    """Canonical text of nested state (tensors by exact bytes)."""
    h = hashlib.sha256()

    def rec(v):
        if isinstance(v, torch.Tensor):
            h.update(b"T" + str(v.dtype).encode() + str(tuple(v.shape)).encode())
            h.update(v.detach().contiguous().numpy().tobytes())
        elif isinstance(v, dict):
            for k in sorted(v, key=str):
                h.update(b"K" + str(k).encode())
                rec(v[k])
        elif isinstance(v, (list, tuple)):
            h.update(b"[")
            for e in v:
                rec(e)
            h.update(b"]")
        else:
            h.update(repr(v).encode())

    rec(x)
    return h.hexdigest()[:16]


def stats_view(stats):
    """What a user reads from the statistics, without wall-clock speed."""
    out = {"epoch": stats.epoch}
    for s in sorted(stats.stats):
        for k in sorted(stats.stats[s]):
            if k == "sec/it":
                continue
            av = stats.stats[s][k].get_epoch_averages()
            vals = [None if a != a else a for a in (av or [])]
            while vals and vals[-1] is None:  # "no value yet" has two spellings
                vals.pop()
            out[f"{s}/{k}"] = vals
    return out


def train_process(ex, exp_dir, shm_user, max_epochs, clock=None, interrupt=None):
    """Body of one simulated trainer process.  `ex` is the freshly constructed
    Experiment: construction reads no files and depends only on the
    configuration, so it is done once and inherited through fork."""
    patch_environment(clock or Clock())
    box = {}
    orig_run = None

    def hook(model):
        if model.training:
            shm_user[0] += 1
            if interrupt is not None and shm_user[0] == interrupt[0]:
                raise interrupt[1]("simulated interruption")

    HOOK["forward"] = hook
    ex.exp_dir = exp_dir
    ex.training_loop.max_epochs = max_epochs

    # observe the objects the experiment builds, without changing them
    opt_f = type(ex.optimizer_factory)
    orig_call = opt_f.__call__

    def call(self, *a, **k):
        o, s = orig_call(self, *a, **k)
        box["optimizer"], box["scheduler"] = o, s
        box["model"] = k.get("model")
        return o, s

    loop_cls = type(ex.training_loop)
    orig_run = loop_cls.run

    def run(self, *a, **k):
        box["stats"] = k["stats"]
        box["start_epoch"] = k["stats"].epoch + 1
        shm_user[1] = k["stats"].epoch + 1 + 1  # +1: distinguish from unset
        return orig_run(self, *a, **k)

    opt_f.__call__ = call
    loop_cls.run = run
    try:
        ex.run()
    finally:
        opt_f.__call__ = orig_call
        loop_cls.run = orig_run
        HOOK["forward"] = None
    model = box["model"]
    sd = {k: v for k, v in model.state_dict().items()}
    return {
        "start_epoch": box["start_epoch"],
        "model": digest_state(sd),
        "optimizer": digest_state(box["optimizer"].state_dict()),
        "lr": [g["lr"] for g in box["optimizer"].param_groups],
        "last_lr": [float(x) for x in box["scheduler"].get_last_lr()],
        "stats": stats_view(box["stats"]),
        "forwards": shm_user[0],
    }


def read_checkpoint(exp_dir):
    """What the public checkpoint API says about the directory."""
    fl = model_io.find_last_checkpoint(exp_dir)
    if fl is None:
        return None
    sd, stats, opt = model_io.load_model(fl, map_location=None)
    return {
        "file": os.path.basename(fl),
        "epoch": model_io.parse_epoch_from_model_path(fl),
        "model": digest_state(sd),
        "optimizer": None if opt is None else digest_state(opt),
        "stats": None if stats is None else stats_view(stats),
    }


def list_checkpoints(exp_dir):
    fls = model_io.find_last_checkpoint(exp_dir, all_checkpoints=True)
    return [model_io.parse_epoch_from_model_path(f) for f in (fls or [])]
