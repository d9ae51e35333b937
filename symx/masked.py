"""Model of the numpy masked-array operations pyuvdata uses (numpy 1.26 semantics)."""
import numpy as np

from . import arr as A
from . import core as C
from .core import Unsupported


def _bool_fill(shape, v):
    return A.wrap(np.full(shape, v).astype(object), bool)


class SymMasked:
    __sx_aware__ = True
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, data, mask=None, dtype=None):
        if isinstance(data, SymMasked):
            if mask is None:
                mask = data.mask
            data = data.data
        data = A.as_sym(data)
        self.data = data.astype(dtype) if dtype is not None else data
        if mask is None or mask is np.ma.nomask:
            self.mask = _bool_fill(data.shape, False)
        else:
            m = A.as_sym(mask).astype(bool)
            if m.shape != data.shape:
                if m.ndim == 0:
                    m = A.wrap(np.broadcast_to(A.base(m), data.shape).copy(), bool)
                else:
                    raise np.ma.MaskError("Mask and data not compatible")
            self.mask = m

    dtype = property(lambda s: s.data.dtype)
    shape = property(lambda s: s.data.shape)
    ndim = property(lambda s: s.data.ndim)
    size = property(lambda s: s.data.size)

    def filled(self, v=None):
        if v is None:
            raise Unsupported("filled() default")
        return A.f_where(self.mask, v, self.data)

    def astype(self, dt):
        return SymMasked(self.data.astype(dt), self.mask)

    def __getitem__(self, k):
        d = self.data[k]
        if not isinstance(d, np.ndarray):
            raise Unsupported("masked scalar")
        return SymMasked(d, self.mask[k])

    def __setitem__(self, k, v):
        raise Unsupported("masked setitem")

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        raise Unsupported("iterate masked")

    def _zip(self, other, fn, swap=False):
        if isinstance(other, SymMasked):
            db, mb = other.data, other.mask
        else:
            db = A.as_sym(other)
            mb = _bool_fill(db.shape, False)
        da, ma = (db, mb) if swap else (self.data, self.mask)
        if swap:
            db, mb = self.data, self.mask
        dt = A.ufunc_dtype(fn, (da, db))
        oa, pa, ob, pb = np.broadcast_arrays(*[A.base(x) for x in (da, ma, db, mb)])
        rd = np.empty(oa.shape, dtype=object)
        rm = np.empty(oa.shape, dtype=object)
        return da, dt, rd, rm, zip(np.ndindex(*oa.shape), oa.flat, pa.flat, ob.flat, pb.flat)

    def _op(self, other, uf, swap=False):
        fn = A.UF[uf]
        _, dt, rd, rm, it = self._zip(other, uf, swap)
        for i, a, p, b, q in it:
            m = C.or_(p, q)
            rm[i] = m
            rd[i] = C.ite(m, C.cast(a, dt), C.cast(fn(a, b), dt))
        return SymMasked(A.wrap(rd, dt), A.wrap(rm, bool))

    def _div(self, other, swap=False):
        da, dt, rd, rm, it = self._zip(other, np.true_divide, swap)
        keep = np.can_cast(np.result_type(bool, da.dtype), dt)
        for i, a, p, b, q in it:
            m = C.or_(C.or_(p, q), C.eq(b, 0))
            m = bool(m)
            r = None
            if not m:
                r = C.cast(C.div(a, b), dt)
                if not bool(C.isfinite_(r)):
                    m = True
            rm[i] = m
            rd[i] = (C.cast(a, dt) if keep else C.cast(0, dt)) if m else r
        return SymMasked(A.wrap(rd, dt), A.wrap(rm, bool))

    def __mul__(self, o):
        return self._op(o, np.multiply)

    def __rmul__(self, o):
        return self._op(o, np.multiply, True)

    def __add__(self, o):
        return self._op(o, np.add)

    def __radd__(self, o):
        return self._op(o, np.add, True)

    def __sub__(self, o):
        return self._op(o, np.subtract)

    def __rsub__(self, o):
        return self._op(o, np.subtract, True)

    def __truediv__(self, o):
        return self._div(o)

    def __rtruediv__(self, o):
        return self._div(o, True)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        if out is not None:
            raise Unsupported("masked sum out")
        nm = A.f_all(self.mask, axis=axis, keepdims=keepdims)
        r = A.f_sum(self.filled(C.cast(0, self.dtype)), axis=axis, dtype=dtype, keepdims=keepdims)
        if not isinstance(nm, np.ndarray):
            if bool(nm):
                raise Unsupported("fully masked scalar")
            return r
        return SymMasked(r, nm)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        cnt = A.f_sum(A.wrap(np.frompyfunc(C.not_, 1, 1)(A.base(self.mask)), bool), axis=axis,
                      keepdims=keepdims)
        return self.sum(axis=axis, keepdims=keepdims) / cnt

    def __getattr__(self, name):
        raise Unsupported(f"masked array attribute {name}")


def call(f, args, kw):
    if f in (np.ma.masked_array, np.ma.array, np.ma.MaskedArray):
        kw = dict(kw)
        kw.pop("copy", None)
        return SymMasked(*args, **kw)
    if f is np.ma.masked_where:
        return SymMasked(args[1], args[0])
    if f is np.ma.getdata:
        return args[0].data if isinstance(args[0], SymMasked) else args[0]
    if f is np.ma.average and not kw.get("returned"):
        a = args[0] if isinstance(args[0], SymMasked) else SymMasked(args[0])
        w = kw.get("weights", args[2] if len(args) > 2 else None)
        ax = kw.get("axis", args[1] if len(args) > 1 else None)
        if w is None:
            return a.mean(axis=ax)
        w = SymMasked(w, a.mask)
        return (a * w).sum(axis=ax) / w.sum(axis=ax)
    if f is np.ma.sum:
        return args[0].sum(*args[1:], **kw)
    raise Unsupported(f"numpy.ma {getattr(f, '__name__', f)}")


def function(func, args, kw):
    """a plain numpy function applied to masked arrays"""
    if func in (np.sum, np.mean) and isinstance(args[0], SymMasked):
        return getattr(args[0], func.__name__)(*args[1:], **kw)
    if func in (np.multiply, np.add, np.subtract, np.true_divide) and not kw:
        a, b = args
        a = a if isinstance(a, SymMasked) else SymMasked(a)
        return a._div(b) if func is np.true_divide else a._op(b, func)
    if func in (np.conjugate, np.negative) and not kw:
        return SymMasked(func(args[0].data), args[0].mask)
    if func in (np.asarray, np.array):
        return A.ALWAYS[func](args[0].data, *args[1:], **kw)
    if func in (np.shape, np.ndim, np.size):
        return func(args[0].data)
    raise Unsupported(f"numpy {getattr(func, '__name__', func)} on masked array")
