"""astropy.io.fits for symbolic values: real files that hold tokens.

An array with symbolic elements given to an HDU or a column is written with a
token (an integer that single precision represents exactly and that is used for
nothing else) in place of each symbolic element; astropy writes and reads a real
file; in what is read back the tokens are replaced by the elements they stand
for.  astropy moves, reshapes and byte-swaps the values but computes nothing with
them (scales are 1 and offsets 0), so this is what the file holds.
"""
import numpy as np
from astropy.io import fits

from . import arr as A
from . import core as C

BASE = 1 << 23  # tokens: BASE + n < 2**24, exact in float32
TOK = []
_LIM = (1 << 24) - 2


def reset():
    TOK.clear()


def tokens(x):
    """x with tokens for its symbolic elements"""
    if not isinstance(x, A.SymArray):
        if isinstance(x, (list, tuple)) and A.has_sym(x):
            x = A.as_sym(x)
        else:
            return A.demote_deep(x)
    if not A.has_sym(x):
        return A.demote_deep(x)
    dt = np.dtype(x.dtype)
    if dt.kind == "c":
        raise TypeError("complex arrays cannot be written to FITS files")
    flat = A.base(x).reshape(-1)
    out = np.empty(flat.size, dtype="f8" if dt.kind in "bf" else dt)
    for i, e in enumerate(flat):
        if isinstance(e, C.Sym):
            if BASE + len(TOK) > _LIM:
                raise C.Unsupported("too many values for one FITS file")
            out[i] = BASE + len(TOK)
            TOK.append(e)
        else:
            out[i] = e
    return out.reshape(x.shape).astype(dt if dt.kind != "b" else "f8")


def values(a):
    """what was read, with the elements the tokens stand for"""
    if not isinstance(a, np.ndarray):
        if isinstance(a, (float, np.floating)) and BASE <= a < BASE + len(TOK) and a == int(a):
            return TOK[int(a) - BASE]
        return a
    a = np.asarray(a)
    if a.dtype.kind not in "fiu" or a.dtype.itemsize < 4 or not TOK:
        return A.promote_deep(np.array(a)) if a.dtype.kind in "fiucb" else a
    m = (a >= BASE) & (a < BASE + len(TOK)) & (a == np.floor(a))
    if not m.any():
        return A.promote_deep(np.array(a))
    o = np.empty(a.shape, dtype=object)
    src, dst, mm = a.reshape(-1), o.reshape(-1), m.reshape(-1)
    native = a.dtype.newbyteorder("=")
    sc = native.type
    for i in range(src.size):
        dst[i] = TOK[int(src[i]) - BASE] if mm[i] else sc(src[i])
    r = A.wrap(dst.reshape(a.shape), native)
    return A.castarr(r, native)


class _Node:
    __sx_aware__ = True

    def __init__(self, real):
        object.__setattr__(self, "_real", real)

    @property
    def __class__(self):
        return type(self._real)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._real, name)

    def __len__(self):
        return len(self._real)

    def __eq__(self, other):
        return self._real == getattr(other, "_real", other)

    def __hash__(self):
        return id(self._real)


class Rec(_Node):
    """table or random-groups data"""

    def __getitem__(self, k):
        k = A.concretize_index(k) if isinstance(k, (A.SymArray, C.Sym)) else k
        r = self._real[k]
        if isinstance(k, str) or isinstance(r, np.ndarray) and r.dtype.names is None:
            return values(r)
        return Rec(r) if hasattr(r, "dtype") or hasattr(r, "array") else r

    def field(self, k):
        return values(self._real.field(k))

    def par(self, k):
        return values(self._real.par(k))

    @property
    def data(self):
        return values(self._real.data)

    @property
    def dtype(self):
        return self._real.dtype


class Hdu(_Node):
    @property
    def data(self):
        d = self._real.data
        if d is None:
            return None
        return Rec(d) if d.dtype.names else values(d)

    def __setattr__(self, k, v):
        setattr(self._real, k, tokens(v))


class Hdus(_Node):
    def __getitem__(self, k):
        r = self._real[k]
        return Hdus(r) if isinstance(r, fits.HDUList) else Hdu(r)

    def __iter__(self):
        for i in range(len(self._real)):
            yield Hdu(self._real[i])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._real.close()


def fopen(*a, **k):
    return Hdus(fits.open(*a, **k))


def getdata(*a, **k):
    r = fits.getdata(*a, **k)
    return Rec(r) if r.dtype.names else values(r)


def _made(cls, arrays):
    def make(*a, **k):
        a = [tokens(x) if isinstance(x, A.SymArray) else x for x in a]
        k = {n: (tokens(v) if isinstance(v, (A.SymArray, list)) and A.has_sym(v) else v) for n, v in k.items()}
        if cls is fits.GroupData and "pardata" in k:
            k["pardata"] = [tokens(p) for p in k["pardata"]]
        a = [A.demote_deep(x) if not isinstance(x, (fits.Header,)) else x for x in a]
        k = {n: A.demote_deep(v) if not isinstance(v, fits.Header) else v for n, v in k.items()}
        return cls(*a, **k)

    return make


def models():
    m = {fits.open: fopen, fits.getdata: getdata}
    for c in (fits.GroupData, fits.PrimaryHDU, fits.ImageHDU, fits.Column):
        m[c] = _made(c, None)
    return m
