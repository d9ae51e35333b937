"""h5py for symbolic values: real files, with the symbolic datasets kept beside them.

Everything concrete goes to the real file through the real h5py.  A dataset that
received symbolic values keeps its elements in an overlay; which elements a key
selects is asked from h5py itself, by indexing an in-memory dataset of positions
of the same shape, so h5py's selection rules and errors are its own.
"""
import os

import h5py
import numpy as np

from . import arr as A
from . import core as C
from .core import Sym

OVER = {}  # (file, dataset name) -> SymArray
_POS = {}


def _positions(shape):
    if shape not in _POS:
        if "file" not in _POS:
            _POS["file"] = h5py.File(f"symx-positions-{os.getpid()}", "w", driver="core", backing_store=False)
        _POS[shape] = _POS["file"].create_dataset(f"p{len(_POS)}", data=np.arange(int(np.prod(shape))).reshape(shape))
    return _POS[shape]


def _plain(x):
    if isinstance(x, A.SymArray):
        return A.concretize_index(x)
    if isinstance(x, Sym):
        return A.concretize_index(x)
    if isinstance(x, (tuple, list)):
        return type(x)(_plain(i) for i in x)
    if isinstance(x, slice):
        return slice(*[_plain(i) for i in (x.start, x.stop, x.step)])
    return x


def _wrap(obj):
    if isinstance(obj, h5py.Dataset):
        return H5Dataset(obj)
    if isinstance(obj, h5py.File):
        return H5File(_real=obj)
    if isinstance(obj, h5py.Group):
        return H5Group(obj)
    return obj


class _Node:
    __sx_aware__ = True
    _cls = None

    def __init__(self, real):
        self._real = real

    @property
    def __class__(self):
        return self._cls

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._real, name)

    @property
    def file(self):
        return H5File(_real=self._real.file)

    @property
    def parent(self):
        return _wrap(self._real.parent)

    def __bool__(self):
        return bool(self._real)

    def __eq__(self, other):
        return self._real == getattr(other, "_real", other)

    def __hash__(self):
        return hash(self._real)


class H5Dataset(_Node):
    _cls = h5py.Dataset

    def _key(self):
        return os.path.realpath(self._real.file.filename), self._real.name

    def __len__(self):
        return len(self._real)

    def __array__(self, *a, **k):
        if self._key() in OVER:
            raise C.Unsupported("symbolic dataset passed to concrete code")
        return self._real.__array__(*a, **k)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __getitem__(self, key):
        key = _plain(key)
        o = OVER.get(self._key())
        if o is None:
            return A.promote_deep(self._real[key])
        if isinstance(key, tuple) and len(key) == 0 or key is Ellipsis or self._real.ndim == 0:
            return o.copy() if o.ndim else A.base(o)[()]
        pos = _positions(self._real.shape)[key]
        r = A.base(o).reshape(-1)[pos]
        return A.wrap(r, o.dtype) if isinstance(r, np.ndarray) else r

    def __setitem__(self, key, value):
        key = _plain(key)
        k = self._key()
        if k not in OVER:
            if not A.has_sym(value):
                self._real[key] = A.demote_deep(value)
                return
            OVER[k] = A.as_sym(A.promote(np.asarray(self._real[()])))
        o = OVER[k]
        v = value if isinstance(value, A.SymArray) else A.as_sym(value)
        v = A.castarr(v, o.dtype)
        if o.ndim == 0:
            o[()] = v
            return
        pos = np.asarray(_positions(self._real.shape)[key])
        # h5py itself judges the shapes
        _positions(self._real.shape)[key] = np.broadcast_to(pos, pos.shape) if v.shape == pos.shape else _probe(
            self._real.shape, key, v.shape, pos)
        if pos.ndim == 0:
            A.base(o).reshape(-1)[int(pos)] = A.base(v).reshape(-1)[0]
            return
        A.base(o).reshape(-1)[pos] = np.broadcast_to(A.base(v).reshape(_fit(v.shape, pos.shape)), pos.shape)


def _probe(shape, key, vshape, pos):
    """let h5py refuse values that do not fit the selection"""
    d = _POS["file"].create_dataset("probe", data=np.zeros(shape))
    try:
        d[key] = np.zeros(vshape)
    finally:
        del _POS["file"]["probe"]
    return pos


def _fit(vs, ps):
    if int(np.prod(vs)) == int(np.prod(ps)):
        return ps
    return vs


class H5Group(_Node):
    _cls = h5py.Group

    def __getitem__(self, k):
        return _wrap(self._real[k])

    def get(self, k, default=None):
        return self[k] if k in self._real else default

    def __setitem__(self, k, v):
        if A.has_sym(v):
            self.create_dataset(k, data=v)
        else:
            self._real[k] = A.demote_deep(v)

    def __delitem__(self, k):
        base = os.path.realpath(self._real.file.filename)
        name = self._real[k].name
        del self._real[k]
        for key in list(OVER):
            if key[0] == base and (key[1] == name or key[1].startswith(name + "/")):
                del OVER[key]

    def __contains__(self, k):
        return k in self._real

    def __len__(self):
        return len(self._real)

    def __iter__(self):
        return iter(self._real)

    def keys(self):
        return self._real.keys()

    def items(self):
        return [(k, self[k]) for k in self._real]

    def values(self):
        return [self[k] for k in self._real]

    def create_group(self, *a, **k):
        return H5Group(self._real.create_group(*a, **k))

    def require_group(self, *a, **k):
        return H5Group(self._real.require_group(*a, **k))

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        if data is None or not A.has_sym(data):
            return H5Dataset(self._real.create_dataset(name, shape=_plain(shape), dtype=dtype, data=A.demote_deep(data), **kw))
        v = data if isinstance(data, A.SymArray) else A.as_sym(data)
        if dtype is not None:
            v = A.castarr(v, np.dtype(dtype))
        d = H5Dataset(self._real.create_dataset(name, data=np.zeros(v.shape, dtype=v.dtype), **kw))
        OVER[d._key()] = v.copy()
        return d


class H5File(H5Group):
    _cls = h5py.File

    def __init__(self, name=None, mode="r", *a, _real=None, **k):
        if _real is None:
            _real = h5py.File(name, mode, *a, **k)
            if mode in ("w", "x", "w-"):
                base = os.path.realpath(_real.filename)
                for key in list(OVER):
                    if key[0] == base:
                        del OVER[key]
        self._real = _real

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._real.close()

    def close(self):
        self._real.close()
