"""The random draws of the code under test, decided by the simulation: numpy's and
torch's global generators replaced by an adversary which stays inside what the
functions promise (values from the range, permutations, no repeats unless allowed)."""

import contextlib
from unittest import mock

import numpy as np
import torch


class Adversary:
    """style: 0 uniform, 1 the ends of the range, 2 always the same, 3 ascending"""

    def __init__(self, d, ctx, style=None, limit=3000):
        self.d, self.ctx = d, ctx
        self.style = d.choice(4) if style is None else style
        self.last = 0
        self.n = 0
        self.g = np.random.RandomState(d.seed32())
        self.draws = 0
        self.limit = limit

    def below(self, n):
        """an integer in [0, n)"""
        self.draws += 1
        self.ctx.faults["adversarial_draw"] = self.ctx.faults.get("adversarial_draw", 0) + 1
        if n <= 1:
            return 0
        s = self.style
        if s == 1:
            r = (0, n - 1)[self.d.choice(2)] if self.draws < self.limit else int(self.g.randint(2)) * (n - 1)
        elif s == 2:
            r = self.last % n
        elif s == 3:
            self.n += 1
            r = self.n % n
        else:
            r = self.d.choice(n) if self.draws < self.limit else int(self.g.randint(n))
        self.last = r
        return r

    def perm(self, n, k=None):
        k = n if k is None else k
        pool = list(range(n))
        out = []
        for _ in range(k):
            out.append(pool.pop(self.below(len(pool))))
        return out

    # numpy

    def np_choice(self, a, size=None, replace=True, p=None):
        pool = np.arange(a) if np.isscalar(a) or (isinstance(a, np.ndarray) and a.ndim == 0) else np.asarray(a)
        if len(pool) == 0 and (size is None or np.prod(size) > 0):
            raise ValueError("'a' cannot be empty unless no samples are taken")
        if size is None:
            return pool[self.below(len(pool))]
        k = int(np.prod(size))
        if not replace:
            if k > len(pool):
                raise ValueError("Cannot take a larger sample than population when replace is False")
            i = self.perm(len(pool), k)
        else:
            i = [self.below(len(pool)) for _ in range(k)]
        return pool[np.array(i, dtype=np.int64)].reshape(size)

    def np_randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if high <= low:
            raise ValueError("low >= high")
        if size is None:
            return int(low + self.below(int(high - low)))
        k = int(np.prod(size))
        return np.array([low + self.below(int(high - low)) for _ in range(k)], dtype=dtype).reshape(size)

    def np_permutation(self, x):
        pool = np.arange(x) if np.isscalar(x) else np.asarray(x)
        return pool[np.array(self.perm(len(pool)), dtype=np.int64)]

    # torch

    def t_randperm(self, n, **k):
        kw = {a: b for a, b in k.items() if a in ("dtype", "device")}
        return torch.tensor(self.perm(n), **{"dtype": torch.int64, **kw})

    def t_randint(self, *a, low=0, high=None, size=None, **k):
        if size is None:
            *a, size = a
        if len(a) == 2:
            low, high = a
        elif len(a) == 1:
            (high,) = a
        if high <= low:
            raise RuntimeError("random_ expects 'from' to be less than 'to'")
        kw = {x: y for x, y in k.items() if x in ("dtype", "device")}
        n = int(np.prod(tuple(size)))
        v = [low + self.below(int(high - low)) for _ in range(n)]
        return torch.tensor(v, **{"dtype": torch.int64, **kw}).reshape(tuple(size))

    def unit(self, shape, dtype=None, device=None):
        """values in [0, 1): often the ends"""
        dtype = dtype or torch.get_default_dtype()
        n = int(np.prod(shape)) if len(shape) else 1
        top = 1 - 2.0**-24 if dtype == torch.float32 else 1 - 2.0**-53
        self._fired()
        if self.style == 3:
            v = self.g.rand(n)
        elif self.style == 2:
            v = np.full(n, [0.0, top, 0.5][self.d.choice(3)])
        else:
            v = self.g.rand(n)
            pick = self.g.randint(0, 4, n)
            v = np.where(pick == 0, 0.0, np.where(pick == 1, top, v))
        return torch.from_numpy(np.minimum(v, top)).to(dtype).reshape(tuple(shape))

    def normal(self, shape, dtype=None, device=None):
        dtype = dtype or torch.get_default_dtype()
        n = int(np.prod(shape)) if len(shape) else 1
        self._fired()
        v = self.g.randn(n)
        if self.style == 1:
            v = v * np.where(self.g.randint(0, 3, n) == 0, 5.0, 1.0)
        elif self.style == 2:
            v = np.where(self.g.randint(0, 3, n) == 0, 1e-4, v)
        return torch.from_numpy(v).to(dtype).reshape(tuple(shape))

    def _fired(self):
        self.ctx.faults["adversarial_draw"] = self.ctx.faults.get("adversarial_draw", 0) + 1

    @staticmethod
    def _size(a, size):
        if size is not None:
            return tuple(size)
        if len(a) == 1 and not isinstance(a[0], int):
            return tuple(a[0])
        return tuple(int(x) for x in a)

    def t_rand(self, *a, size=None, dtype=None, device=None, generator=None, requires_grad=False, **k):
        return self.unit(self._size(a, size), dtype)

    def t_rand_like(self, x, dtype=None, **k):
        return self.unit(x.shape, dtype or x.dtype)

    def t_randn(self, *a, size=None, dtype=None, device=None, generator=None, requires_grad=False, **k):
        return self.normal(self._size(a, size), dtype)

    def t_randn_like(self, x, dtype=None, **k):
        return self.normal(x.shape, dtype or x.dtype)

    def t_multinomial(self, input, num_samples, replacement=False, generator=None):
        w = input if input.dim() == 2 else input[None]
        num_samples = int(num_samples)
        out = torch.empty((w.shape[0], num_samples), dtype=torch.int64)
        if not replacement and num_samples > w.shape[1]:
            raise RuntimeError("cannot sample n_sample > prob_dist.size(-1) samples without replacement")
        if not bool(torch.isfinite(w).all()) or bool((w < 0).any()):
            raise RuntimeError("probability tensor contains either `inf`, `nan` or element < 0")
        for r in range(w.shape[0]):
            pool = torch.nonzero(w[r] > 0)[:, 0].tolist()
            if not pool:
                raise RuntimeError("invalid multinomial distribution (sum of probabilities <= 0)")
            if not replacement and len(pool) < num_samples:
                raise RuntimeError("invalid multinomial distribution (with replacement=False, not enough non-negative category to sample)")
            if replacement:
                v = [pool[self.below(len(pool))] for _ in range(num_samples)]
            else:
                v = [pool[i] for i in self.perm(len(pool), num_samples)]
            out[r] = torch.tensor(v, dtype=torch.int64)
        return out if input.dim() == 2 else out[0]

    def py_randint(self, a, b):
        return int(a) + self.below(int(b) - int(a) + 1)

    @contextlib.contextmanager
    def __call__(self):
        import random

        real_random_ = torch.Tensor.random_

        def random_(t, *a, generator=None):
            lo, hi = (0, None)
            if len(a) == 1:
                hi = a[0]
            elif len(a) == 2:
                lo, hi = a
            if hi is None or t.numel() > 5000:
                return real_random_(t, *a)
            v = [lo + self.below(hi - lo) for _ in range(t.numel())]
            return t.copy_(torch.tensor(v, dtype=t.dtype).reshape(t.shape))

        with mock.patch("numpy.random.choice", self.np_choice), mock.patch("numpy.random.randint", self.np_randint), mock.patch(
            "numpy.random.permutation", self.np_permutation
        ), mock.patch("torch.randperm", self.t_randperm), mock.patch("torch.randint", self.t_randint), mock.patch("torch.rand", self.t_rand), mock.patch("torch.rand_like", self.t_rand_like), mock.patch(
            "torch.randn", self.t_randn
        ), mock.patch("torch.randn_like", self.t_randn_like), mock.patch("torch.multinomial", self.t_multinomial), mock.patch(
            "torch.Tensor.multinomial", self.t_multinomial_method
        ), mock.patch("torch.Tensor.random_", random_), mock.patch("random.randint", self.py_randint):
            yield self

    @property
    def t_multinomial_method(self):
        def multinomial(t, *a, **k):
            return self.t_multinomial(t, *a, **k)

        return multinomial


def seed_all(seed):
    import random

    random.seed(seed)
    np.random.seed(seed % 2**32)
    torch.manual_seed(seed)


@contextlib.contextmanager
def draws(d, ctx, adversarial):
    """Everything random in the block comes from the seed of the run."""
    seed_all(d.seed32())
    if adversarial:
        with Adversary(d, ctx)() as a:
            yield a
    else:
        yield None
