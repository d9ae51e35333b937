"""SymArray: ndarray subclass (object storage) with a nominal numeric dtype.

Concrete elements are python scalars, symbolic elements are core.Sym.  When all
operands of an operation are concrete the real numpy routine is used.
"""
import functools
import math

import numpy as np

from . import core as C
from .core import E, Sym, SymC, SymNum, Unsupported

_ND = np.ndarray
_real_dtype = _ND.dtype.__get__


def base(a):
    return _ND.view(a, _ND)


def _has_sym(objs):
    for x in objs.flat:
        if isinstance(x, Sym):
            return True
    return False


def wrap(obj, dt):
    """object ndarray -> SymArray with nominal dtype dt."""
    if not isinstance(obj, _ND) or obj.dtype != object:
        o = np.empty(np.shape(obj), dtype=object)
        o[...] = obj
        obj = o
    r = _ND.view(obj, SymArray)
    r._sdt = np.dtype(dt)
    return r


def promote(x):
    """plain numeric ndarray -> SymArray (copy); others unchanged."""
    if isinstance(x, SymArray):
        return x
    if type(x) is _ND and x.dtype.kind in "biufc":
        return wrap(x.astype(object), x.dtype)
    if type(x) is _ND and cstruct(x.dtype):
        return wrap((x["r"].astype(float) + 1j * x["i"].astype(float)).astype(object), x.dtype)
    return x


def cstruct(dt):
    """the compound type of complex numbers in UVH5 files"""
    return dt.names == ("r", "i") and dt["r"].kind in "fiu" and dt["r"] == dt["i"]


def promote_deep(x):
    if type(x) is _ND:
        return promote(x)
    if type(x) is tuple:
        return tuple(promote_deep(i) for i in x)
    if type(x) is list and x and isinstance(x[0], _ND):
        return [promote_deep(i) for i in x]
    return x


def is_conc(a):
    return not (isinstance(a, SymArray) and a.is_symbolic())


def demote(a):
    """SymArray -> plain ndarray if fully concrete, else raise Unsupported."""
    if not isinstance(a, SymArray):
        return a
    if _real_dtype(a) != object:
        return base(a)
    if a.is_symbolic():
        raise Unsupported("symbolic array passed to concrete code")
    if a._sdt is not None and cstruct(a._sdt):
        c = base(a).astype(complex)
        r = np.empty(c.shape, dtype=a._sdt)
        r["r"], r["i"] = c.real, c.imag
        return r
    return base(a).astype(a._sdt)


def has_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if isinstance(x, SymArray):
        return x.is_symbolic()
    if depth and type(x) in (list, tuple, set, frozenset):
        return any(has_sym(i, depth - 1) for i in x)
    if depth and type(x) is dict:
        return any(has_sym(i, depth - 1) for i in x.values())
    return False


def demote_deep(x, depth=4):
    if isinstance(x, SymArray):
        return demote(x)
    if isinstance(x, Sym):
        raise Unsupported("symbolic scalar passed to concrete code")
    if depth:
        t = type(x)
        if t is list:
            return [demote_deep(i, depth - 1) for i in x]
        if t is tuple:
            return tuple(demote_deep(i, depth - 1) for i in x)
        if t is dict:
            return {k: demote_deep(v, depth - 1) for k, v in x.items()}
        if t is slice:
            return slice(*[demote_deep(i) for i in (x.start, x.stop, x.step)])
    return x


def objarr(x):
    """object ndarray of elements of x (array, scalar, nested list)."""
    if isinstance(x, SymArray):
        return base(x)
    if isinstance(x, _ND):
        return x.astype(object)
    if type(x).__name__ == "SymMasked":
        return base(x.data)
    if isinstance(x, Sym) or not isinstance(x, (list, tuple)):
        o = np.empty((), dtype=object)
        o[()] = x.item() if isinstance(x, np.generic) else x
        return o
    return base(as_sym(x))


def scalar_array(x):
    o = np.empty((), dtype=object)
    o[()] = x
    return wrap(o, dtype_of(x))


def dtype_of(x):
    if isinstance(x, (_ND, Sym, np.generic)):
        return x.dtype
    k = C.kind_of(x)
    if k is None:
        return np.asarray(x).dtype
    return np.dtype({"b": bool, "i": np.int64, "f": np.float64, "c": np.complex128}[k])


def _nested(x):
    """shape + flat element list of nested lists containing Sym/arrays."""
    if isinstance(x, _ND):
        return x.shape, list(objarr(x).flat), [x.dtype]
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return (0,), [], []
        parts = [_nested(i) for i in x]
        sh = parts[0][0]
        if any(p[0] != sh for p in parts):
            raise ValueError("setting an array element with a sequence (inhomogeneous)")
        return (len(x),) + sh, [e for p in parts for e in p[1]], [d for p in parts for d in p[2]]
    return (), [x.item() if isinstance(x, np.generic) else x], [dtype_of(x)]


def as_sym(x, dtype=None):
    """like np.array(x) producing SymArray (copy)."""
    if isinstance(x, SymArray):
        r = wrap(base(x).copy(), x.dtype)
    elif isinstance(x, Sym):
        r = scalar_array(x)
    elif not has_sym(x) and not (
            isinstance(x, (list, tuple)) and any(isinstance(i, SymArray) for i in x)):
        a = np.array(x) if dtype is None else np.array(x, dtype=dtype)
        return promote(a)
    else:
        sh, el, dts = _nested(x)
        o = np.empty(len(el), dtype=object)
        for i, v in enumerate(el):
            o[i] = v
        dt = np.result_type(*set(dts)) if dts else np.dtype(float)
        r = castarr(wrap(o.reshape(sh), dt), dt)
    if dtype is not None:
        r = r.astype(dtype)
    return r


def castarr(a, dt):
    dt = np.dtype(dt)
    if dt.kind in "SU" or (dt.names and not (cstruct(dt) and (a.dtype.kind in "cfiu" or cstruct(a.dtype)))):
        return demote(a).astype(dt)
    o = base(a)
    res = np.empty(o.shape, dtype=object)
    rf = res.reshape(-1)
    for i, v in enumerate(o.flat):
        rf[i] = C.cast(v, dt)
    return wrap(res, dt)


def concretize_index(key, shape_hint=None):
    """make every symbolic part of an index concrete, by forking."""
    if isinstance(key, tuple):
        return tuple(concretize_index(k) for k in key)
    if isinstance(key, SymArray):
        dt = key.dtype
        o = base(key)
        if dt.kind == "b":
            res = np.empty(o.shape, dtype=bool)
            rf = res.reshape(-1)
            for i, v in enumerate(o.flat):
                rf[i] = bool(v)
            return res
        if dt.kind in "iu":
            res = np.empty(o.shape, dtype=np.int64)
            rf = res.reshape(-1)
            for i, v in enumerate(o.flat):
                rf[i] = int(v)
            return res
        if o.size == 0:
            return np.zeros(o.shape, dtype=dt)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(key, SymNum):
        if key.k == "b":
            return bool(key)
        return key.__index__()
    if isinstance(key, list):
        if any(isinstance(k, (Sym, SymArray)) for k in key):
            return concretize_index(as_sym(key))
        return key
    if isinstance(key, slice):
        return slice(*[concretize_index(k) if isinstance(k, Sym) else k
                       for k in (key.start, key.stop, key.step)])
    return key


class SymArray(np.ndarray):
    _sdt = None

    def __array_finalize__(self, obj):
        if obj is not None:
            self._sdt = getattr(obj, "_sdt", None)

    @property
    def dtype(self):
        rd = _real_dtype(self)
        if rd != object or self._sdt is None:
            return rd
        return self._sdt

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.dtype.itemsize * self.size

    def is_symbolic(self):
        return _real_dtype(self) == object and _has_sym(base(self))

    # ---------------------------------------------------------------- access
    def _out(self, v):
        """scalar element -> numpy-like scalar"""
        if isinstance(v, Sym) or self._sdt is None or self._sdt.kind in "OV":
            return v
        return self._sdt.type(v)

    def __getitem__(self, key):
        key = concretize_index(key)
        r = base(self)[key]
        if isinstance(r, _ND):
            if r is base(self):
                return self
            return wrap(r, self.dtype) if r.dtype == object else r
        return self._out(r)

    def __setitem__(self, key, value):
        dt = self.dtype
        b = base(self)
        if isinstance(key, SymArray) and key.dtype.kind == "b" and key.is_symbolic():
            vs = np.shape(value)
            if int(np.prod(vs)) == 1 if vs else True:
                v = objarr(value).reshape(-1)[0] if vs else value
                if isinstance(v, np.generic):
                    v = v.item()
                v = C.cast(v, dt) if dt.kind != "O" else v
                kb = base(key)
                if kb.shape == b.shape:
                    for idx in np.ndindex(*b.shape):
                        b[idx] = C.ite(kb[idx], v, b[idx])
                    return
                if kb.ndim < b.ndim and kb.shape == b.shape[: kb.ndim]:
                    for idx in np.ndindex(*b.shape):
                        b[idx] = C.ite(kb[idx[: kb.ndim]], v, b[idx])
                    return
        key = concretize_index(key)
        v = objarr(value)
        if dt.kind != "O":
            v = _cast_obj(v, dt)
        if v.ndim == 0:
            # object-dtype assignment of a scalar
            tgt = b[key]
            if isinstance(tgt, _ND):
                b[key] = np.broadcast_to(v, tgt.shape) if tgt.ndim else v
            else:
                b[key] = v[()]
            return
        tgt = b[key]
        if not isinstance(tgt, _ND):
            if v.size != 1:
                raise ValueError("setting an array element with a sequence.")
            b[key] = v.reshape(-1)[0]
            return
        b[key] = v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def item(self, *args):
        b = base(self)
        if not args:
            if b.size != 1:
                raise ValueError("can only convert an array of size 1 to a Python scalar")
            return b.reshape(-1)[0]
        if len(args) == 1 and not isinstance(args[0], tuple):
            return b.reshape(-1)[int(args[0])]
        return b[args if len(args) > 1 else args[0]]

    def tolist(self):
        return base(self).tolist()

    def __bool__(self):
        if self.size == 0:
            return False
        if self.size != 1:
            raise ValueError(
                "The truth value of an array with more than one element is ambiguous. "
                "Use a.any() or a.all()")
        return bool(base(self).reshape(-1)[0])

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.ndim != 0:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self.item().__index__()

    def __float__(self):
        return float(self.item())

    def __complex__(self):
        return complex(self.item())

    def __contains__(self, v):
        return bool((self == v).any())

    def __deepcopy__(self, memo):
        return wrap(base(self).copy(), self.dtype)

    def __copy__(self):
        return wrap(base(self).copy(), self.dtype)

    def __reduce__(self):
        return demote(self).__reduce__()

    def __format__(self, spec):
        return str(self) if not spec else format(self.item(), spec)

    def __str__(self):
        return str(base(self)) if self.is_symbolic() else str(demote(self))

    def __repr__(self):
        return "SymArray(%s, %s)" % (base(self), self.dtype)

    def copy(self, order="C"):
        return wrap(base(self).copy(), self.dtype)

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        return castarr(self, dtype)

    def view(self, *a, **k):
        if not a and not k:
            return _ND.view(self)
        t = a[0] if a else k.get("dtype", k.get("type"))
        if isinstance(t, type) and issubclass(t, _ND):
            if t is _ND:
                return self
            return demote(self).view(t)
        dt = np.dtype(t)
        if self.dtype.kind == "c" and cstruct(dt) and dt.itemsize == self.dtype.itemsize:
            return wrap(base(self), dt)  # shares the elements
        r = promote(demote(self).view(*a, **k))
        if isinstance(r, SymArray) and C._CUR[0] is not None:
            r.flags.writeable = False  # a copy: a write through it would be lost
        return r

    @property
    def real(self):
        if self.dtype.kind != "c":
            return self
        return _part(self, "real")

    @real.setter
    def real(self, val):
        b = base(self)
        vb = np.broadcast_to(objarr(val), b.shape)
        for i in np.ndindex(*b.shape):
            x = b[i]
            b[i] = C.mkc(vb[i], x.imag)

    @property
    def imag(self):
        if self.dtype.kind != "c":
            return wrap(np.zeros(self.shape).astype(object), self.dtype)
        return _part(self, "imag")

    @imag.setter
    def imag(self, val):
        b = base(self)
        vb = np.broadcast_to(objarr(val), b.shape)
        for i in np.ndindex(*b.shape):
            x = b[i]
            b[i] = C.mkc(x.real, vb[i])

    def conj(self, *a, **k):
        return np.conjugate(self)

    conjugate = conj

    # --------------------------------------------------------- reductions etc
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return f_sum(self, axis=axis, dtype=dtype, out=out, keepdims=keepdims, **k)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _reduce_api(np.multiply, self, axis, keepdims, dtype, k)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return f_any(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return f_all(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _reduce_api(np.minimum, self, axis, keepdims, None, k)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _reduce_api(np.maximum, self, axis, keepdims, None, k)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return f_mean(self, axis=axis, keepdims=keepdims)

    def argmin(self, axis=None, out=None, **k):
        return f_argext(self, axis, np.less)

    def argmax(self, axis=None, out=None, **k):
        return f_argext(self, axis, np.greater)

    def argsort(self, axis=-1, kind=None, order=None):
        return f_argsort(self, axis=axis, kind=kind)

    def sort(self, axis=-1, kind=None, order=None):
        base(self)[...] = base(f_sort(self, axis=axis))

    def nonzero(self):
        return f_nonzero(self)

    def cumsum(self, axis=None, dtype=None, out=None):
        return f_cumsum(self, axis)

    def dot(self, b, out=None):
        return f_matmul(self, b)

    def round(self, decimals=0, out=None):
        return f_round(self, decimals)

    def tobytes(self, *a):
        return demote(self).tobytes(*a)

    def fill(self, v):
        self[...] = v

    def searchsorted(self, v, side="left", sorter=None):
        return f_searchsorted(self, v, side)

    def repeat(self, repeats, axis=None):
        return wrap(base(self).repeat(demote_deep(repeats), axis=axis), self.dtype)

    def take(self, indices, axis=None, out=None, mode="raise"):
        ind = concretize_index(indices) if not isinstance(indices, (list, tuple)) else [
            i.__index__() if isinstance(i, Sym) else i for i in indices]
        if isinstance(ind, (list, tuple)) and len(ind) == 0:
            ind = np.zeros(0, dtype=int)
        r = base(self).take(ind, axis=axis, mode=mode)
        return wrap(r, self.dtype) if isinstance(r, _ND) else self._out(r)

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = np.maximum(r, lo)
        if hi is not None:
            r = np.minimum(r, hi)
        return r

    def compress(self, cond, axis=None, out=None):
        return wrap(base(self).compress(concretize_index(as_sym(cond)), axis=axis), self.dtype)

    # ----------------------------------------------------------------- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        out = kwargs.pop("out", None)
        where = kwargs.pop("where", True)
        if not any(has_sym(i, 1) for i in inputs) and not has_sym(where):
            ins = [demote_deep(i) for i in inputs]
            w = demote(where)
            outs = None
            if out is not None:
                outs = tuple(demote(o) if isinstance(o, SymArray) and not o.is_symbolic()
                             else (o if not isinstance(o, SymArray) else None) for o in out)
                if method == "__call__" and w is not True:
                    if any(o is None for o in outs):
                        return _symbolic_ufunc(ufunc, method, inputs, kwargs, out, where)
                    kw = dict(kwargs, out=outs if len(outs) > 1 else outs[0])
                else:
                    # dtype of out matters for casting rules
                    kw = dict(kwargs)
                    if outs[0] is not None:
                        kw["out"] = outs if len(outs) > 1 else outs[0]
            else:
                kw = dict(kwargs)
            if w is not True:
                kw["where"] = w
                if out is None and method == "__call__":
                    return _symbolic_ufunc(ufunc, method, inputs, kwargs, out, where)
            if method == "at":
                raise Unsupported("ufunc.at")
            with np.errstate(all="ignore"):
                r = getattr(ufunc, method)(*ins, **kw)
            if out is not None:
                rs = r if isinstance(r, tuple) else (r,)
                for o, v in zip(out, rs):
                    if isinstance(o, SymArray):
                        base(o)[...] = _cast_obj(np.asarray(v).astype(object), o.dtype)
                return out[0] if len(out) == 1 else out
            return promote_deep(r)
        return _symbolic_ufunc(ufunc, method, inputs, kwargs, out, where)

    def _ip(name, ufunc):
        def f(self, other):
            if isinstance(other, Sym):  # numpy refuses operands without ufuncs
                other = scalar_array(other)
            return ufunc(self, other, out=self)
        f.__name__ = name
        return f

    __iadd__, __isub__ = _ip("__iadd__", np.add), _ip("__isub__", np.subtract)
    __imul__, __itruediv__ = _ip("__imul__", np.multiply), _ip("__itruediv__", np.true_divide)
    del _ip

    # -------------------------------------------------------------- functions
    def __array_function__(self, func, types, args, kwargs):
        return np_call(func, args, kwargs, from_numpy=True)


class PartView(SymArray):
    """real or imaginary part: writes go through to the parent"""

    _parent = None

    def __setitem__(self, key, value):
        SymArray.__setitem__(self, key, value)
        if self._parent is not None:
            p, which = self._parent
            setattr(p, which, wrap(base(self).copy(), self.dtype))

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        def plain(x):
            return wrap(base(x), x.dtype) if isinstance(x, PartView) else x

        inputs = [plain(i) for i in inputs]
        if out is None:
            return getattr(ufunc, method)(*inputs, **kw)
        getattr(ufunc, method)(*inputs, out=tuple(plain(o) for o in out), **kw)
        for o in out:
            if isinstance(o, PartView) and o._parent is not None:
                setattr(o._parent[0], o._parent[1], wrap(base(o).copy(), o.dtype))
        return out[0] if len(out) == 1 else out


def _part(a, which):
    r = _map1(lambda v: getattr(v, which), a, _part_dt(a.dtype))
    v = _ND.view(base(r), PartView)
    v._sdt = r._sdt
    v._parent = (a, which)
    return v


def _part_dt(dt):
    return np.dtype(np.float32) if dt == np.complex64 else np.dtype(np.float64)


def _map1(fn, a, dt):
    o = base(a)
    res = np.empty(o.shape, dtype=object)
    rf = res.reshape(-1)
    for i, v in enumerate(o.flat):
        rf[i] = fn(v)
    return wrap(res, dt)


def _cast_obj(v, dt):
    res = np.empty(v.shape, dtype=object)
    rf = res.reshape(-1)
    for i, x in enumerate(v.flat):
        rf[i] = C.cast(x, dt)
    return res


UF = {
    np.add: C.add, np.subtract: C.sub, np.multiply: C.mul, np.true_divide: C.div,
    np.floor_divide: C.floordiv, np.remainder: C.mod, np.power: C.power,
    np.float_power: C.power,
    np.negative: C.neg, np.positive: lambda a: a, np.absolute: C._abs, np.fabs: C._abs,
    np.conjugate: C.conj_, np.logical_and: C.and_, np.logical_or: C.or_,
    np.logical_xor: C.xor_, np.logical_not: C.not_, np.bitwise_and: C.SCALAR["and"],
    np.bitwise_or: C.SCALAR["or"], np.bitwise_xor: C.SCALAR["xor"],
    np.invert: C.invert_, np.equal: C.eq, np.not_equal: C.ne,
    np.less: C.SCALAR["lt"], np.less_equal: C.SCALAR["le"],
    np.greater: C.SCALAR["gt"], np.greater_equal: C.SCALAR["ge"],
    np.isnan: C.isnan_, np.isinf: C.isinf_, np.isfinite: C.isfinite_,
    np.sqrt: C.sqrt_, np.square: lambda a: C.mul(a, a), np.cos: C.cos_, np.sin: C.sin_,
    np.tan: C.tan_, np.exp: C.exp_, np.log: C._ufun("log", np.log),
    np.log10: C._ufun("log10", np.log10), np.log2: C._ufun("log2", np.log2),
    np.arcsin: C._ufun("asin", np.arcsin), np.arccos: C._ufun("acos", np.arccos),
    np.arctan: C._ufun("atan", np.arctan), np.arctan2: C.arctan2_,
    np.hypot: lambda a, b: C.sqrt_(C.add(C.mul(a, a), C.mul(b, b))),
    np.maximum: C.maximum, np.minimum: C.minimum, np.fmax: C.maximum, np.fmin: C.minimum,
    np.sign: C.sign_, np.rint: C.rint_, np.floor: C.floor_, np.ceil: C.ceil_,
    np.trunc: lambda a: C.cast(C.trunc(a), np.dtype(float)),
    np.reciprocal: lambda a: C.div(1.0, a), np.deg2rad: C._rad, np.rad2deg: C._deg,
    np.radians: C._rad, np.degrees: C._deg,
}


def _dummy(x):
    if isinstance(x, _ND):
        return np.ones((1,) * max(x.ndim, 0), dtype=x.dtype)
    if isinstance(x, SymNum):
        return {"b": True, "i": 1, "f": 1.0}[x.k]
    if isinstance(x, SymC):
        return 1j
    if isinstance(x, (list, tuple)):
        return np.ones(1, dtype=as_sym(x).dtype)
    return x


def ufunc_dtype(ufunc, inputs):
    with np.errstate(all="ignore"):
        r = ufunc(*[_dummy(i) for i in inputs])
    return r.dtype if hasattr(r, "dtype") else np.asarray(r).dtype


def _symbolic_ufunc(ufunc, method, inputs, kwargs, out, where):
    if ufunc is np.matmul and method == "__call__":
        r = f_matmul(*inputs)
        if out is not None:
            out[0][...] = r
            return out[0]
        return r
    fn = UF.get(ufunc)
    if fn is None:
        raise Unsupported(f"ufunc {ufunc.__name__}")
    if method == "reduce":
        return _reduce_api(ufunc, inputs[0], kwargs.get("axis", 0),
                           kwargs.get("keepdims", False), kwargs.get("dtype"),
                           dict(kwargs, where=where))
    if method == "outer":
        a, b = (as_sym(i) for i in inputs)
        return ufunc(a.reshape(a.shape + (1,) * b.ndim), b)
    if method == "accumulate":
        a = as_sym(inputs[0])
        ax = kwargs.get("axis", 0)
        o = np.moveaxis(base(a), ax, 0).copy()
        for i in range(1, o.shape[0]):
            o[i] = np.frompyfunc(fn, 2, 1)(o[i - 1], o[i])
        return wrap(np.moveaxis(o, 0, ax), a.dtype)
    if method != "__call__":
        raise Unsupported(f"ufunc method {method}")
    dt = ufunc_dtype(ufunc, inputs)
    if kwargs.get("dtype") is not None:
        dt = np.dtype(kwargs["dtype"])
    objs = [objarr(i) for i in inputs]
    if where is not True:
        w = objarr(where)
        bc = np.broadcast_arrays(*objs, w)
        objs, w = bc[:-1], bc[-1]
        res = np.empty(w.shape, dtype=object)
        rf = res.reshape(-1)
        ob = None
        if out is not None and out[0] is not None:
            ob = objarr(out[0])
        for n, idx in enumerate(np.ndindex(*w.shape)):
            dflt = ob[idx] if ob is not None else _uninit(dt)
            wv = w[idx]
            if isinstance(wv, Sym):
                wv = bool(wv)
            rf[n] = fn(*[o[idx] for o in objs]) if wv else dflt
    else:
        res = np.frompyfunc(fn, ufunc.nin, 1)(*objs)
    if not isinstance(res, _ND):
        o = np.empty((), dtype=object)
        o[()] = res
        res = o
    if out is not None and out[0] is not None:
        o = out[0]
        if not np.can_cast(dt, o.dtype, "same_kind"):
            raise TypeError(f"Cannot cast ufunc '{ufunc.__name__}' output from {dt} to {o.dtype}")
        if isinstance(o, SymArray):
            if res.shape != o.shape:
                res = np.broadcast_to(res, o.shape) if res.size <= o.size else res
                if res.shape != o.shape:
                    raise ValueError("non-broadcastable output operand")
            base(o)[...] = _cast_obj(res, o.dtype)
            return o
        raise Unsupported("symbolic result into plain array")
    r = wrap(res, dt)
    if r.ndim == 0 and not any(isinstance(i, _ND) and i.ndim for i in inputs):
        return r._out(r.item())
    return r


def _uninit(dt):
    return E().fresh("uninit", _k(dt)) if C._CUR[0] is not None else C.cast(0, dt)


def _k(dt):
    return {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c"}[dt.kind]


def _norm_axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if not isinstance(axis, (tuple, list)):
        axis = (axis,)
    r = []
    for a in axis:
        a = int(a)
        if a < -nd or a >= nd:
            raise np.AxisError(a, nd)
        r.append(a % nd)
    return tuple(r)


def _reduce_api(ufunc, a, axis, keepdims, dtype, kw):
    a = as_sym(a) if not isinstance(a, SymArray) else a
    if keepdims is np._NoValue:
        keepdims = False
    where = kw.get("where", True)
    initial = kw.get("initial", None)
    if initial is np._NoValue:
        initial = None
    if where is np._NoValue:
        where = True
    dt = a.dtype
    if ufunc in (np.logical_and, np.logical_or):
        rdt = np.dtype(bool)
    elif ufunc in (np.add, np.multiply):
        rdt = ufunc.reduce(np.ones((1,), dtype=dt)).dtype
    else:
        rdt = dt
    if dtype is not None:
        rdt = np.dtype(dtype)
    o = base(a)
    if ufunc in (np.add, np.multiply) and dt.kind == "b":
        o = _cast_obj(o, rdt)
    axes = _norm_axes(axis, o.ndim)
    keep = [i for i in range(o.ndim) if i not in axes]
    oshape = tuple(o.shape[i] for i in keep)
    fn = UF[ufunc]
    t = o.transpose(keep + list(axes)).reshape(oshape + (-1,)) if o.size else np.empty(
        oshape + (int(np.prod([o.shape[i] for i in axes])),), dtype=object)
    if where is not True:
        w = np.broadcast_to(objarr(where), o.shape)
        wt = w.transpose(keep + list(axes)).reshape(oshape + (-1,))
    ident = {np.add: C.cast(0, rdt), np.multiply: C.cast(1, rdt),
             np.logical_or: False, np.logical_and: True}.get(ufunc)
    res = np.empty(oshape, dtype=object)
    for idx in np.ndindex(*oshape):
        acc = initial if initial is not None else ident
        for j in range(t.shape[-1]):
            v = t[idx + (j,)]
            if where is not True and not bool(wt[idx + (j,)]):
                continue
            acc = v if acc is None else fn(acc, v)
        if acc is None:
            raise ValueError("zero-size array to reduction operation which has no identity")
        res[idx] = acc
    if keepdims:
        res = res.reshape(tuple(1 if i in axes else o.shape[i] for i in range(o.ndim)))
    r = wrap(_cast_obj(res, rdt), rdt)
    out = kw.get("out")
    if out is not None and not isinstance(out, type(np._NoValue)):
        oo = out[0] if isinstance(out, tuple) else out
        if oo is not None:
            oo[...] = r
            return oo
    if r.ndim == 0:
        return r._out(r.item())
    return r


# ------------------------------------------------------------ numpy functions

IMPL = {}
STRUCT = set()


def impl(*fs):
    def deco(fn):
        for f in fs:
            IMPL[f] = fn
        return fn

    return deco


def anysym(args, kwargs):
    return any(has_sym(a) for a in args) or any(has_sym(a) for a in kwargs.values())


def np_call(func, args, kwargs, from_numpy=False):
    """Call a numpy function; args may contain SymArrays/Syms."""
    if args and any(type(a).__name__ == "SymMasked" for a in args):
        from . import masked

        return masked.function(func, args, kwargs)
    if func in ALWAYS:
        return ALWAYS[func](*args, **kwargs)
    if func in STRUCT and any(isinstance(a, SymArray) for a in args):
        return _structural(func, args, kwargs)
    if not anysym(args, kwargs):
        out = kwargs.get("out")
        if isinstance(out, SymArray):
            kwargs = {k: v for k, v in kwargs.items() if k != "out"}
        a = [demote_deep(x) for x in args]
        k = {x: demote_deep(y) for x, y in kwargs.items()}
        with np.errstate(all="ignore"):
            r = promote_deep(func(*a, **k))
        if isinstance(out, SymArray):
            out[...] = r
            return out
        return r
    fn = IMPL.get(func)
    if fn is not None:
        return fn(*args, **kwargs)
    if func in STRUCT:
        return _structural(func, args, kwargs)
    im = getattr(func, "_implementation", None)
    if im is None:
        raise Unsupported(f"numpy function {getattr(func, '__name__', func)}")
    args = [as_sym(a) if isinstance(a, list) and has_sym(a) else a for a in args]
    try:
        r = im(*args, **kwargs)
    except (TypeError, np.core._exceptions.UFuncTypeError) as err:
        raise Unsupported(f"numpy {func.__name__}: {err}") from err
    return promote_deep(r)


def _collect(x, dts):
    if isinstance(x, SymArray):
        dts.append(x.dtype)
        return base(x)
    if isinstance(x, _ND):
        dts.append(x.dtype)
        return x.astype(object)
    if isinstance(x, (list, tuple)) and has_sym(x):
        if any(isinstance(i, (_ND, list, tuple)) for i in x):
            return type(x)(_collect(i, dts) for i in x) if type(x) in (list, tuple) else x
        a = as_sym(x)
        dts.append(a.dtype)
        return base(a)
    if isinstance(x, (list, tuple)) and any(isinstance(i, _ND) for i in x):
        return type(x)(_collect(i, dts) for i in x)
    if isinstance(x, Sym):
        dts.append(x.dtype)
        return objarr(x)
    return x


def _structural(func, args, kwargs, value_args=None):
    dts = []
    a = [_collect(x, dts) for x in args]
    k = {x: (_collect(y, dts) if x not in ("axis", "shape") else demote_deep(y))
         for x, y in kwargs.items()}
    dt = np.result_type(*dts) if dts else np.dtype(float)
    r = func(*a, **k)

    def w(x):
        if isinstance(x, _ND) and x.dtype == object:
            return castarr(wrap(x, dt), dt) if len(set(dts)) > 1 else wrap(x, dt)
        if isinstance(x, (list, tuple)):
            return type(x)(w(i) for i in x)
        return x

    return w(r)


for _f in (np.concatenate, np.stack, np.vstack, np.hstack, np.dstack, np.column_stack,
           np.reshape, np.ravel, np.transpose, np.swapaxes, np.moveaxis, np.rollaxis,
           np.squeeze, np.expand_dims, np.tile, np.flip, np.fliplr, np.flipud,
           np.roll, np.broadcast_to, np.broadcast_arrays, np.atleast_1d, np.atleast_2d,
           np.atleast_3d, np.split, np.array_split, np.copy, np.diagonal, np.meshgrid,
           np.append, np.rot90, np.diag, np.block, np.hsplit, np.vsplit):
    STRUCT.add(_f)


@impl(np.repeat)
def f_repeat(a, repeats, axis=None):
    return as_sym(a).repeat(concretize_index(repeats) if isinstance(repeats, SymArray)
                            else repeats, axis)


@impl(np.take)
def f_take(a, indices, axis=None, out=None, mode="raise"):
    return as_sym(a).take(indices, axis=axis, mode=mode)


@impl(np.compress)
def f_compress(condition, a, axis=None, out=None):
    return as_sym(a).compress(condition, axis)


@impl(np.delete)
def f_delete(arr, obj, axis=None):
    return wrap(np.delete(base(as_sym(arr)), concretize_index(obj), axis), arr.dtype)


@impl(np.insert)
def f_insert(arr, obj, values, axis=None):
    a = as_sym(arr)
    return castarr(wrap(np.insert(base(a), concretize_index(obj), objarr(values), axis), a.dtype), a.dtype)


@impl(np.take_along_axis)
def f_taa(arr, indices, axis):
    return wrap(np.take_along_axis(base(as_sym(arr)), concretize_index(as_sym(indices)), axis), arr.dtype)


@impl(np.sum)
def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return _reduce_api(np.add, a, axis, keepdims, dtype, dict(k, out=out))


@impl(np.nansum)
def f_nansum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = as_sym(a)
    return f_sum(_map1(lambda v: 0.0 if C._isnanf(v) else v, a, a.dtype), axis, dtype, out, keepdims)


@impl(np.prod)
def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return _reduce_api(np.multiply, a, axis, keepdims, dtype, k)


@impl(np.any)
def f_any(a, axis=None, out=None, keepdims=False, **k):
    a = as_sym(a)
    return _reduce_api(np.logical_or, _tobool(a), axis, keepdims, None, k)


@impl(np.all)
def f_all(a, axis=None, out=None, keepdims=False, **k):
    a = as_sym(a)
    return _reduce_api(np.logical_and, _tobool(a), axis, keepdims, None, k)


def _tobool(a):
    return castarr(a, bool) if a.dtype.kind != "b" else a


@impl(np.count_nonzero)
def f_cnz(a, axis=None, keepdims=False):
    return f_sum(_tobool(as_sym(a)), axis=axis, keepdims=keepdims)


@impl(np.min, np.amin)
def f_min(a, axis=None, out=None, keepdims=False, **k):
    return _reduce_api(np.minimum, a, axis, keepdims, None, k)


@impl(np.max, np.amax)
def f_max(a, axis=None, out=None, keepdims=False, **k):
    return _reduce_api(np.maximum, a, axis, keepdims, None, k)


@impl(np.mean)
def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = as_sym(a)
    if keepdims is np._NoValue:
        keepdims = False
    n = int(np.prod([a.shape[i] for i in _norm_axes(axis, a.ndim)]))
    if a.dtype.kind in "biu":
        a = a.astype(float)
    s = _reduce_api(np.add, a, axis, keepdims, None, k)
    return s / n if n else s * float("nan")


@impl(np.median)
def f_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = as_sym(a)
    if axis is not None and a.ndim > 1 or keepdims:
        raise Unsupported("median along axis")
    s = f_sort(a.reshape(-1))
    n = s.size
    if n % 2:
        return s[n // 2] * 1.0
    return (s[n // 2 - 1] + s[n // 2]) / 2.0


@impl(np.average)
def f_average(a, axis=None, weights=None, returned=False, *, keepdims=False):
    a = as_sym(a)
    if keepdims is np._NoValue:
        keepdims = False
    if weights is None:
        r = f_mean(a, axis=axis, keepdims=keepdims)
        if not returned:
            return r
        n = a.size / (r.size if hasattr(r, "size") else 1)
        return r, np_call(np.full, (np.shape(r), float(n)), {})
    w = as_sym(weights)
    if w.shape != a.shape:
        if w.ndim != 1 or axis is None:
            raise TypeError("1D weights expected when shapes of a and weights differ.")
        ax = _norm_axes(axis, a.ndim)[0]
        w = w.reshape(tuple(-1 if i == ax else 1 for i in range(a.ndim)))
        w = wrap(np.broadcast_to(base(w), a.shape).copy(), w.dtype)
    scl = f_sum(w, axis=axis, keepdims=keepdims)
    if bool(f_any(as_sym(scl) == 0)):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = f_sum(a * w, axis=axis, keepdims=keepdims) / scl
    return (r, scl) if returned else r


@impl(np.where)
def f_where(cond, x=None, y=None):
    if x is None and y is None:
        return f_nonzero(cond)
    dt = np.result_type(*[_dummy(v) if not isinstance(v, _ND) else v.dtype for v in (x, y)])
    c, a, b = np.broadcast_arrays(objarr(cond), objarr(x), objarr(y))
    res = np.empty(c.shape, dtype=object)
    rf = res.reshape(-1)
    for i, (cc, aa, bb) in enumerate(zip(c.flat, a.flat, b.flat)):
        rf[i] = C.ite(cc, C.cast(aa, dt), C.cast(bb, dt))
    return wrap(res, dt)


@impl(np.nonzero)
def f_nonzero(a):
    a = as_sym(a)
    return promote_deep(np.nonzero(concretize_index(_tobool(a))))


@impl(np.flatnonzero)
def f_fnz(a):
    return f_nonzero(as_sym(a).reshape(-1))[0]


@impl(np.argwhere)
def f_argwhere(a):
    return promote(np.argwhere(concretize_index(_tobool(as_sym(a)))))


def _order1(vals):
    return sorted(range(len(vals)), key=functools.cmp_to_key(
        lambda i, j: -1 if bool(_lt(vals[i], vals[j])) else (
            1 if bool(_lt(vals[j], vals[i])) else 0)))


def _lt(a, b):
    if isinstance(a, (complex, SymC)) or isinstance(b, (complex, SymC)):
        raise Unsupported("sort complex")
    if C.is_special(a) and a != a:
        return False
    if C.is_special(b) and b != b:
        return True
    return C.SCALAR["lt"](a, b)


@impl(np.argsort)
def f_argsort(a, axis=-1, kind=None, order=None):
    a = as_sym(a)
    if not a.is_symbolic():
        return promote(np.argsort(demote(a), axis=axis, kind=kind))
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    o = np.moveaxis(base(a), axis, -1)
    res = np.empty(o.shape, dtype=object)
    for idx in np.ndindex(*o.shape[:-1]):
        for j, v in enumerate(_order1(list(o[idx]))):
            res[idx + (j,)] = v
    return wrap(np.moveaxis(res, -1, axis), np.int64)


@impl(np.sort)
def f_sort(a, axis=-1, kind=None, order=None):
    a = as_sym(a)
    if not a.is_symbolic():
        return promote(np.sort(demote(a), axis=axis, kind=kind))
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    o = np.moveaxis(base(a), axis, -1)
    res = np.empty(o.shape, dtype=object)
    for idx in np.ndindex(*o.shape[:-1]):
        vals = list(o[idx])
        for j, v in enumerate(_order1(vals)):
            res[idx + (j,)] = vals[v]
    return wrap(np.moveaxis(res, -1, axis), a.dtype)


@impl(np.lexsort)
def f_lexsort(keys, axis=-1):
    ks = [list(objarr(k)) for k in keys]
    n = len(ks[0])
    order = list(range(n))
    for k in ks:  # last key is primary; stable sorts in turn
        order = [order[i] for i in _order1([k[j] for j in order])]
    return promote(np.array(order, dtype=np.int64))


@impl(np.unique)
def f_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None,
             *, equal_nan=True):
    a = as_sym(ar)
    if axis is not None and a.ndim > 1:
        o = np.moveaxis(base(a), axis, 0)
        rows = [list(o[i].reshape(-1)) for i in range(o.shape[0])]

        def lt(p, q):
            for x, y in zip(p, q):
                if bool(_lt(x, y)):
                    return -1
                if bool(_lt(y, x)):
                    return 1
            return 0

        order = sorted(range(len(rows)), key=functools.cmp_to_key(lambda i, j: lt(rows[i], rows[j])))
        same = lambda i, j: lt(rows[i], rows[j]) == 0
        take = lambda ii: wrap(np.moveaxis(o[ii], 0, axis), a.dtype)
    else:
        vals = list(base(a).reshape(-1))
        order = _order1(vals)
        same = lambda i, j: bool(C.eq(vals[i], vals[j]))
        flat = base(a).reshape(-1)
        take = lambda ii: wrap(flat[ii], a.dtype)
    groups = []
    for i in order:
        if groups and same(groups[-1][0], i):
            groups[-1].append(i)
        else:
            groups.append([i])
    first = [min(g) for g in groups]
    out = [take(np.array(first, dtype=int))]
    if return_index:
        out.append(promote(np.array(first, dtype=np.int64)))
    if return_inverse:
        inv = np.zeros(len(order), dtype=np.int64)
        for gi, g in enumerate(groups):
            inv[g] = gi
        out.append(promote(inv))
    if return_counts:
        out.append(promote(np.array([len(g) for g in groups], dtype=np.int64)))
    return out[0] if len(out) == 1 else tuple(out)


@impl(np.isin, np.in1d)
def f_isin(element, test_elements, assume_unique=False, invert=False, *, kind=None):
    a = as_sym(element)
    t = list(objarr(test_elements).reshape(-1))
    o = base(a)
    res = np.empty(o.shape, dtype=object)
    rf = res.reshape(-1)
    for i, v in enumerate(o.flat):
        r = False
        for w in t:
            r = C.or_(r, C.eq(v, w))
        rf[i] = C.not_(r) if invert else r
    return wrap(res, bool)


@impl(np.intersect1d)
def f_intersect1d(ar1, ar2, assume_unique=False, return_indices=False):
    a, b = as_sym(ar1).reshape(-1), as_sym(ar2).reshape(-1)
    ua, ia = f_unique(a, return_index=True)
    ub, ib = f_unique(b, return_index=True)
    m1, m2, keep = [], [], []
    for i, v in enumerate(list(base(ua))):
        for j, w in enumerate(list(base(ub))):
            if bool(C.eq(v, w)):
                keep.append(i)
                m1.append(ia[i])
                m2.append(ib[j])
                break
    r = ua[np.array(keep, dtype=int)]
    if return_indices:
        return r, promote(np.array(m1, dtype=np.int64)), promote(np.array(m2, dtype=np.int64))
    return r


@impl(np.setdiff1d)
def f_setdiff1d(ar1, ar2, assume_unique=False):
    u = f_unique(ar1)
    return u[f_isin(u, ar2, invert=True)]


@impl(np.union1d)
def f_union1d(a, b):
    return f_unique(np_call(np.concatenate, ((as_sym(a).reshape(-1), as_sym(b).reshape(-1)),), {}))


@impl(np.setxor1d)
def f_setxor1d(a, b, assume_unique=False):
    return f_union1d(f_setdiff1d(a, b), f_setdiff1d(b, a))


def f_argext(a, axis, op):
    a = as_sym(a)
    if axis is not None and a.ndim > 1:
        o = np.moveaxis(base(a), axis, -1)
        res = np.empty(o.shape[:-1], dtype=object)
        for idx in np.ndindex(*o.shape[:-1]):
            res[idx] = int(f_argext(wrap(o[idx].copy(), a.dtype), None, op))
        return wrap(res, np.int64)
    vals = list(base(a).reshape(-1))
    if not vals:
        raise ValueError("attempt to get argmin of an empty sequence")
    best = 0
    fn = UF[op]
    for i in range(1, len(vals)):
        if bool(fn(vals[i], vals[best])):
            best = i
    return np.int64(best)


@impl(np.argmin)
def f_argmin(a, axis=None, out=None, **k):
    return f_argext(a, axis, np.less)


@impl(np.argmax)
def f_argmax(a, axis=None, out=None, **k):
    return f_argext(a, axis, np.greater)


def _isclose1(x, y, rtol, atol, equal_nan):
    nx, ny = C.isnan_(x), C.isnan_(y)
    if nx or ny:
        return bool(nx and ny and equal_nan)
    if C.isinf_(x) or C.isinf_(y):
        return bool(not C._issym(x, y) and x == y)
    if not C._issym(x, y, rtol, atol):
        return bool(np.isclose(x, y, rtol=rtol, atol=atol))
    kx = C._kmax(x, y)
    if kx == "b":
        x, y = C.cast(x, np.dtype(float)), C.cast(y, np.dtype(float))
    if kx == "c":
        d = C.sub(x, y)
        if isinstance(d, SymC) and not C._issym(rtol, atol) and rtol == 0 and atol == 0:
            return C.eq(x, y)
        lhs = C._abs(d)
        rhs = C.add(atol, C.mul(rtol, C._abs(y)))
        return C.SCALAR["le"](lhs, rhs)
    return C.SCALAR["le"](C._abs(C.sub(x, y)), C.add(atol, C.mul(rtol, C._abs(y))))


@impl(np.isclose)
def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    oa, ob = objarr(a), objarr(b)
    bc = np.broadcast_arrays(oa, ob, objarr(rtol), objarr(atol))
    res = np.empty(bc[0].shape, dtype=object)
    rf = res.reshape(-1)
    for i, (x, y, r, t) in enumerate(zip(*[q.flat for q in bc])):
        rf[i] = _isclose1(x, y, r, t, equal_nan)
    r = wrap(res, bool)
    return r if r.ndim else r._out(r.item())


@impl(np.allclose)
def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = f_all(as_sym(f_isclose(a, b, rtol, atol, equal_nan)))
    return bool(r)


@impl(np.array_equal)
def f_array_equal(a1, a2, equal_nan=False):
    a, b = as_sym(a1), as_sym(a2)
    if a.shape != b.shape:
        return False
    r = f_all(as_sym(np.equal(a, b)))
    return bool(r)


@impl(np.diff)
def f_diff(a, n=1, axis=-1, **k):
    a = as_sym(a)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis], s2[axis] = slice(1, None), slice(None, -1)
        f = np.not_equal if a.dtype == bool else np.subtract
        a = f(a[tuple(s1)], a[tuple(s2)])
    return a


@impl(np.ediff1d)
def f_ediff1d(ary, to_end=None, to_begin=None):
    return f_diff(as_sym(ary).reshape(-1))


@impl(np.cumsum)
def f_cumsum(a, axis=None, dtype=None, out=None):
    a = as_sym(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    if not a.is_symbolic():
        return promote_deep(np.add.accumulate(demote(a), axis=axis))
    dt = np.dtype(int) if a.dtype.kind in "bi" else a.dtype
    o = np.moveaxis(base(a), axis, 0)
    res = np.empty(o.shape, dtype=object)
    for idx in np.ndindex(*o.shape[1:]):
        acc = None
        for i in range(o.shape[0]):
            v = o[(i,) + idx]
            v = C.cast(v, dt) if a.dtype.kind == "b" else v
            acc = v if acc is None else C.add(acc, v)
            res[(i,) + idx] = acc
    return wrap(np.moveaxis(res, 0, axis), dt)


@impl(np.matmul, np.dot)
def f_matmul(a, b, out=None, **k):
    a, b = as_sym(a), as_sym(b)
    dt = np.result_type(a.dtype, b.dtype)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    va, vb = a.ndim == 1, b.ndim == 1
    oa = base(a)[None, :] if va else base(a)
    ob = base(b)[:, None] if vb else base(b)
    bs = np.broadcast_shapes(oa.shape[:-2], ob.shape[:-2])
    if oa.shape[-1] != ob.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    n, m, p = oa.shape[-2], oa.shape[-1], ob.shape[-1]
    oa = np.broadcast_to(oa, bs + (n, m))
    ob = np.broadcast_to(ob, bs + (m, p))
    res = np.empty(bs + (n, p), dtype=object)
    for idx in np.ndindex(*res.shape):
        bi, i, j = idx[:-2], idx[-2], idx[-1]
        acc = C.cast(0, dt)
        for q in range(m):
            acc = C.add(acc, C.mul(oa[bi + (i, q)], ob[bi + (q, j)]))
        res[idx] = acc
    if va:
        res = res[..., 0, :]
    if vb:
        res = res[..., 0]
    r = wrap(res, dt)
    if out is not None:
        out[...] = r
        return out
    return r if r.ndim else r._out(r.item())


@impl(np.einsum)
def f_einsum(subs, *ops, out=None, **k):
    ops = [as_sym(o) for o in ops]
    dt = np.result_type(*[o.dtype for o in ops])
    subs = subs.replace(" ", "")
    lhs, _, rhs = subs.partition("->")
    ins = lhs.split(",")
    if "->" not in subs:
        from collections import Counter
        cnt = Counter("".join(ins).replace(".", ""))
        rhs = "".join(sorted(c for c in cnt if cnt[c] == 1))
        if "..." in lhs:
            rhs = "..." + rhs
    if "..." in lhs:
        nb = max(o.ndim - len(i.replace("...", "")) for i, o in zip(ins, ops))
        ell = "ZYXWVU"[:nb]
        ins2 = []
        for i, o in zip(ins, ops):
            if "..." in i:
                ne = o.ndim - len(i.replace("...", ""))
                i = i.replace("...", ell[nb - ne:])
            ins2.append(i)
        ins = ins2
        rhs = rhs.replace("...", ell)
    dims = {}
    for i, o in zip(ins, ops):
        for ch, n in zip(i, o.shape):
            dims[ch] = max(dims.get(ch, 1), n)
    summed = [c for c in dims if c not in rhs]
    res = np.empty(tuple(dims[c] for c in rhs), dtype=object)
    for idx in np.ndindex(*res.shape):
        env = dict(zip(rhs, idx))
        acc = C.cast(0, dt)
        for sidx in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, sidx))
            t = None
            for i, o in zip(ins, ops):
                v = base(o)[tuple(env[c] if o.shape[n] > 1 else 0 for n, c in enumerate(i))]
                t = v if t is None else C.mul(t, v)
            acc = C.add(acc, t)
        res[idx] = acc
    r = wrap(_cast_obj(res, dt), dt)
    return r if r.ndim else r._out(r.item())


@impl(np.outer)
def f_outer(a, b, out=None):
    a, b = as_sym(a).reshape(-1), as_sym(b).reshape(-1)
    return a[:, None] * b[None, :]


@impl(np.inner)
def f_inner(a, b):
    a, b = as_sym(a), as_sym(b)
    return f_sum(a * b) if a.ndim == 1 and b.ndim == 1 else f_matmul(a, np_call(np.swapaxes, (b, -1, -2), {}))


@impl(np.linalg.norm)
def f_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported("norm ord")
    x = as_sym(x)
    return np.sqrt(as_sym(f_sum((x * np.conjugate(x)).real, axis=axis, keepdims=keepdims)))[()]


@impl(np.linalg.inv)
def f_inv(a):
    a = as_sym(a)
    if a.shape[-2:] != (2, 2):
        raise Unsupported("inv of other than 2x2")
    o = base(a)
    res = np.empty(o.shape, dtype=object)
    for idx in np.ndindex(*o.shape[:-2]):
        p, q, r, s = o[idx + (0, 0)], o[idx + (0, 1)], o[idx + (1, 0)], o[idx + (1, 1)]
        d = C.sub(C.mul(p, s), C.mul(q, r))
        if bool(C.eq(d, 0)):
            raise np.linalg.LinAlgError("Singular matrix")
        for ij, v in (((0, 0), s), ((0, 1), C.neg(q)), ((1, 0), C.neg(r)), ((1, 1), p)):
            res[idx + ij] = C.div(v, d)
    return wrap(res, np.result_type(a.dtype, float))


@impl(np.searchsorted)
def f_searchsorted(a, v, side="left", sorter=None):
    vals = list(objarr(a))
    vv = objarr(v)
    op = C.SCALAR["lt"] if side == "left" else C.SCALAR["le"]
    res = np.empty(vv.shape, dtype=object)
    rf = res.reshape(-1)
    for i, x in enumerate(vv.flat):
        n = 0
        for y in vals:
            n = C.add(n, C.cast(op(y, x), np.dtype(int)))
        rf[i] = n
    r = wrap(res, np.int64)
    return r if r.ndim else r._out(r.item())


@impl(np.interp)
def f_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None or left is not None or right is not None:
        raise Unsupported("interp options")
    X, P, F = objarr(x), list(objarr(xp)), list(objarr(fp))
    res = np.empty(X.shape, dtype=object)
    rf = res.reshape(-1)
    for i, v in enumerate(X.flat):
        r = F[-1]
        for j in range(len(P) - 2, -1, -1):
            t = C.div(C.sub(v, P[j]), C.sub(P[j + 1], P[j]))
            lin = C.add(F[j], C.mul(t, C.sub(F[j + 1], F[j])))
            r = C.ite(C.SCALAR["lt"](v, P[j + 1]), lin, r)
        rf[i] = C.ite(C.SCALAR["le"](v, P[0]), F[0], r)
    r = wrap(res, np.float64)
    return r if r.ndim else r._out(r.item())


@impl(np.round, np.around, np.round_)
def f_round(a, decimals=0, out=None):
    a = as_sym(a)
    if a.dtype.kind in "iub":
        return a
    if decimals == 0:
        return np.rint(a)
    p = 10.0 ** decimals
    return np.rint(a * p) / p


@impl(np.real)
def f_real(v):
    return v.real if isinstance(v, (Sym, SymArray)) else as_sym(v).real


@impl(np.imag)
def f_imag(v):
    return v.imag if isinstance(v, (Sym, SymArray)) else as_sym(v).imag


@impl(np.angle)
def f_angle(z, deg=False):
    a = as_sym(z)
    return _map1(C.angle_, a, np.float64)


@impl(np.iscomplexobj)
def f_iscomplexobj(x):
    return dtype_of(x).kind == "c" if isinstance(x, (Sym, _ND)) else as_sym(x).dtype.kind == "c"


@impl(np.isrealobj)
def f_isrealobj(x):
    return not f_iscomplexobj(x)


@impl(np.iscomplex)
def f_iscomplex(x):
    a = as_sym(x)
    r = np.not_equal(a.imag, 0) if a.dtype.kind == "c" else wrap(np.full(a.shape, False).astype(object), bool)
    return r if r.ndim else r.item()


@impl(np.isreal)
def f_isreal(x):
    return np.logical_not(as_sym(f_iscomplex(x)))


@impl(np.nan_to_num)
def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = as_sym(x)
    r = _map1(lambda v: nan if C._isnanf(v) else v, a, a.dtype)
    if not copy and isinstance(x, SymArray):
        base(x)[...] = base(r)
        return x
    return r


@impl(np.clip)
def f_clip(a, lo=None, hi=None, **k):
    return as_sym(a).clip(lo, hi)


@impl(np.shape)
def f_shape(a):
    return a.shape if hasattr(a, "shape") else as_sym(a).shape


@impl(np.ndim)
def f_ndim(a):
    return a.ndim if hasattr(a, "ndim") else as_sym(a).ndim


@impl(np.size)
def f_size(a, axis=None):
    a = a if hasattr(a, "size") else as_sym(a)
    return a.size if axis is None else a.shape[axis]


@impl(np.isscalar)
def f_isscalar(x):
    return isinstance(x, Sym)


@impl(np.result_type)
def f_result_type(*a):
    return np.result_type(*[x.dtype if isinstance(x, (SymArray, Sym)) else x for x in a])


@impl(np.can_cast)
def f_can_cast(a, b, casting="safe"):
    return np.can_cast(a.dtype if isinstance(a, (SymArray, Sym)) else a, b, casting)


@impl(np.trapz)
def f_trapz(y, x=None, dx=1.0, axis=-1):
    raise Unsupported("trapz")


@impl(np.cross)
def f_cross(a, b, **k):
    a, b = as_sym(a), as_sym(b)
    f = lambda i, j: a[..., i] * b[..., j] - a[..., j] * b[..., i]
    return np_call(np.stack, ([f(1, 2), f(2, 0), f(0, 1)],), {"axis": -1})


@impl(np.putmask)
def f_putmask(a, mask, values):
    a[mask] = values


@impl(np.copyto)
def f_copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = f_where(where, src, dst)


# functions intercepted whether or not the arguments are symbolic -----------


def a_array(obj, dtype=None, *, copy=True, order="K", subok=False, ndmin=0, like=None):
    if not isinstance(obj, (SymArray, Sym)) and not has_sym(obj) and not (
            isinstance(obj, (list, tuple)) and _contains_arr(obj)):
        r = promote(np.array(obj, dtype=dtype, ndmin=ndmin, subok=subok))
    else:
        r = as_sym(obj, dtype)
        while r.ndim < ndmin:
            r = r[None]
    return r


def _contains_arr(x):
    return any(isinstance(i, SymArray) or (isinstance(i, (list, tuple)) and _contains_arr(i))
               for i in x)


def a_asarray(a, dtype=None, order=None, **k):
    if isinstance(a, SymArray):
        return a if dtype is None or np.dtype(dtype) == a.dtype else a.astype(dtype)
    if isinstance(a, _ND) and a.dtype.kind not in "biufc":
        return np.asarray(a, dtype=dtype)
    return a_array(a, dtype)


def a_ascontig(a, dtype=None, **k):
    r = a_asarray(a, dtype)
    return r.reshape(1) if isinstance(r, _ND) and r.ndim == 0 else r


def _like(fill):
    def f(a, *args, **kw):
        fv = fill
        args = list(args)
        if fill == "full":
            fv = args.pop(0) if args else kw.pop("fill_value")
        dtype = args.pop(0) if args else kw.get("dtype")
        shape = kw.get("shape")
        a = a if isinstance(a, _ND) else as_sym(a)
        dt = np.dtype(dtype) if dtype is not None else a.dtype
        sh = a.shape if shape is None else shape
        return _filled(sh, fv, dt)

    return f


def _filled(shape, fv, dt):
    dt = np.dtype(dt)
    if isinstance(shape, SymNum):
        shape = shape.__index__()
    elif isinstance(shape, (tuple, list)):
        shape = tuple(s.__index__() for s in shape)
    if cstruct(dt):
        return wrap(base(_filled(shape, fv, np.complex128)), dt)
    if dt.kind not in "biufc":
        return np.full(shape, demote_deep(fv) if fv != "empty" else 0, dtype=dt) if not (
            dt.kind in "SUV" or dt.names) else np.zeros(shape, dtype=dt)
    o = np.empty(shape, dtype=object)
    if isinstance(fv, str) and fv == "empty":
        try:
            eng = E()
        except RuntimeError:
            return promote(np.zeros(shape, dtype=dt))
        rf = o.reshape(-1)
        for i in range(o.size):
            rf[i] = eng.fresh("uninit", _k(dt))
        return wrap(o, dt)
    r = wrap(o, dt)
    r[...] = fv
    return r


def a_full(shape, fill_value, dtype=None, order="C", **k):
    if dtype is None:
        fa = a_asarray(fill_value)
        dtype = fa.dtype
    return _filled(shape, fill_value, dtype)


ALWAYS = {
    np.array: a_array, np.asarray: a_asarray, np.asanyarray: a_asarray,
    np.ascontiguousarray: a_ascontig, np.asfortranarray: a_asarray,
    np.zeros: lambda shape, dtype=float, order="C", **k: _filled(shape, 0, dtype),
    np.ones: lambda shape, dtype=float, order="C", **k: _filled(shape, 1, dtype),
    np.empty: lambda shape, dtype=float, order="C", **k: _filled(shape, "empty", dtype),
    np.full: a_full,
    np.zeros_like: _like(0), np.ones_like: _like(1), np.empty_like: _like("empty"),
    np.full_like: _like("full"),
    np.iscomplexobj: f_iscomplexobj, np.isrealobj: f_isrealobj,
    np.result_type: f_result_type, np.can_cast: f_can_cast, np.shape: f_shape,
    np.ndim: f_ndim,
}
