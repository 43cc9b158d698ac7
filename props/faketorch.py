"""Stand-in for the small part of torch that pycomlink uses, over symbolic arrays (symbolic mode only)."""
import contextlib
import types

import numpy as np

from symx import arr
from symx.core import Unsupported


def raw(x):
    return x.a if isinstance(x, Tensor) else x


class Tensor:
    def __init__(self, a):
        self.a = a if isinstance(a, arr.SymArray) else arr.wrap(np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a)

    shape = property(lambda s: s.a.shape)
    ndim = property(lambda s: s.a.ndim)
    T = property(lambda s: Tensor(s.a.T))

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def dim(self):
        return self.ndim

    def numel(self):
        return self.a.size

    def permute(self, *d):
        if len(d) == 1 and not isinstance(d[0], int):
            d = tuple(d[0])
        return Tensor(self.a.transpose(*d))

    def transpose(self, i, j):
        return Tensor(np.swapaxes(self.a, i, j))

    swapaxes = transpose

    def to(self, *a, **k):
        return self

    def _same(self, *a, **k):
        return self

    cpu = cuda = detach = float = double = contiguous = clone = _same

    def numpy(self, **k):
        return self.a

    def __array__(self, dtype=None, copy=None):
        return self.a.__array__(dtype)

    def __len__(self):
        return self.a.shape[0]

    def __getitem__(self, ix):
        r = self.a[ix]
        return Tensor(r) if isinstance(r, arr.SymArray) else r

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def unsqueeze(self, d):
        return Tensor(np.expand_dims(self.a, d))

    def nan_to_num(self, *a, **k):
        return nan_to_num(self, *a, **k)

    def isnan(self):
        return Tensor(np.isnan(self.a))

    def squeeze(self, *d):
        return Tensor(np.squeeze(self.a, *d))

    def reshape(self, *s):
        return Tensor(self.a.reshape(*s))

    view = reshape

    def split(self, n, dim=0):
        if dim:
            raise Unsupported("Tensor.split along dim %r" % dim)
        return tuple(self[i : i + n] for i in range(0, len(self), n))

    def __getattr__(self, n):
        raise Unsupported("torch.Tensor.%s" % n)


def nan_to_num(x, nan=0.0, **k):
    if k:
        raise Unsupported("nan_to_num options")
    a = raw(x)
    return Tensor(np.where(np.isnan(a), nan, a))


class DataLoader:
    def __init__(self, dataset, batch_size=1, shuffle=False, drop_last=False, num_workers=0, pin_memory=False, **k):
        if k:
            raise Unsupported("DataLoader(%s)" % ", ".join(k))
        self.d, self.n, self.shuffle, self.drop_last = dataset, batch_size, shuffle, drop_last

    @property
    def dataset(self):
        return self.d

    batch_size = property(lambda s: s.n)

    def __iter__(self):
        d = self.d
        tup = isinstance(d, TensorDataset)
        ts = d.ts if tup else [d if isinstance(d, Tensor) else Tensor(d)]
        n = len(ts[0])
        if self.shuffle:  # some other order
            ts = [t[np.arange(n)[::-1]] for t in ts]
        for i in range(0, n, self.n):
            if self.drop_last and i + self.n > n:
                return
            b = [t[i : i + self.n] for t in ts]
            yield b if tup else b[0]

    def __len__(self):
        n = len(self.d)
        return n // self.n if self.drop_last else -(-n // self.n)


class TensorDataset:
    def __init__(self, *ts):
        self.ts = list(ts)

    def __len__(self):
        return len(self.ts[0])


class _Mod(types.SimpleNamespace):
    def __getattr__(self, n):
        raise Unsupported("torch." + n)


def make(load=None):
    nothing = contextlib.nullcontext
    t = lambda x, dtype=None, device=None: Tensor(raw(x))
    return _Mod(
        tensor=t, as_tensor=t, from_numpy=t, Tensor=Tensor, FloatTensor=t, float32="float32", float64="float64", float="float32",
        device=lambda x: x, cuda=_Mod(is_available=lambda: False), no_grad=nothing, inference_mode=nothing,
        cat=lambda xs, dim=0, **k: Tensor(np.concatenate([raw(x) for x in xs], axis=k.get("axis", dim))),
        nan_to_num=nan_to_num, isnan=lambda x: Tensor(np.isnan(raw(x))), where=lambda c, a, b: Tensor(np.where(raw(c), raw(a), raw(b))),
        abs=lambda x: Tensor(np.abs(raw(x))), squeeze=lambda x, *d: x.squeeze(*d), unsqueeze=lambda x, d: x.unsqueeze(d),
        permute=lambda x, d: x.permute(d), transpose=lambda x, a, b: x.transpose(a, b), clamp=lambda x, min=None, max=None: Tensor(np.clip(raw(x), min, max)),
        stack=lambda xs, dim=0: Tensor(np.stack([raw(x) for x in xs], axis=dim)),
        utils=_Mod(data=_Mod(DataLoader=DataLoader, TensorDataset=TensorDataset)),
        jit=_Mod(load=load) if load else _Mod(),
    )
