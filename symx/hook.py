"""Loads pyuvdata from /repo/src with its AST instrumented for symbolic execution.

Every call, subscript load/store and ``%``-format in pyuvdata's own source goes
through the ``_sx_*`` helpers below; everything else runs as written.  The
encoding is therefore regenerated from the current source on each run.
"""
import ast
import builtins
import copy
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import itertools
import operator
import os
import sys
import types

import numpy as np

from . import arr as A
from . import core as C
from .core import Sym, SymC, SymNum, Unsupported

REPO_SRC = os.environ.get("SYMX_REPO_SRC", "/repo/src")

CALLED = {}  # qualname -> count, the functions executed symbolically

_NOHOOK = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "__import__"}
_AUG = {
    ast.Add: "iadd", ast.Sub: "isub", ast.Mult: "imul", ast.Div: "itruediv",
    ast.FloorDiv: "ifloordiv", ast.Mod: "imod", ast.Pow: "ipow", ast.BitAnd: "iand",
    ast.BitOr: "ior", ast.BitXor: "ixor", ast.LShift: "ilshift", ast.RShift: "irshift",
    ast.MatMult: "imatmul",
}


class Tr(ast.NodeTransformer):
    def _n(self, name):
        return ast.Name(id=name, ctx=ast.Load())

    def _call(self, name, args):
        return ast.Call(func=self._n(name), args=args, keywords=[])

    def _visit_func(self, node):
        # decorators, defaults and annotations stay as written
        node.body = [self.visit(s) for s in node.body]
        return node

    visit_FunctionDef = _visit_func
    visit_AsyncFunctionDef = _visit_func

    def visit_AnnAssign(self, node):
        node.value = self.visit(node.value) if node.value else None
        if isinstance(node.target, ast.Subscript):
            node.target.value = self.visit(node.target.value)
        return node

    def visit_ClassDef(self, node):
        node.body = [self.visit(s) for s in node.body]
        return node

    def visit_Call(self, node):
        node.args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        if isinstance(node.func, ast.Name) and node.func.id in _NOHOOK:
            return node
        f = self.visit(node.func)
        new = ast.Call(func=self._n("_sx_call"), args=[f] + node.args, keywords=node.keywords)
        return ast.copy_location(new, node)

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = lambda x: self.visit(x) if x is not None else ast.Constant(value=None)
            return self._call("_sx_slice", [none(s.lower), none(s.upper), none(s.step)])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._slice(e) for e in s.elts], ctx=ast.Load())
        return self.visit(s)

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            new = self._call("_sx_get", [self.visit(node.value), self._slice(node.slice)])
            return ast.copy_location(new, node)
        node.value = self.visit(node.value)
        node.slice = self.visit(node.slice)
        return node

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            new = ast.Expr(self._call("_sx_set", [
                self.visit(t.value), self._slice(t.slice), self.visit(node.value)]))
            return ast.copy_location(new, node)
        return self.generic_visit(node)

    def visit_AugAssign(self, node):
        t = node.target
        if isinstance(t, ast.Subscript):
            new = ast.Expr(self._call("_sx_aug", [
                self.visit(t.value), self._slice(t.slice), self.visit(node.value),
                ast.Constant(value=_AUG[type(node.op)])]))
            return ast.copy_location(new, node)
        node.value = self.visit(node.value)
        if isinstance(t, ast.Attribute):
            t.value = self.visit(t.value)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self._call("_sx_mod", [node.left, node.right]), node)
        return node


# ---------------------------------------------------------------- runtime


def _sx_slice(a, b, c):
    return slice(a, b, c)


def _sx_mod(a, b):
    if isinstance(a, (str, bytes)):
        try:
            return a % b
        except (Unsupported, TypeError):
            C.E().formatted += 1
            return a
    return a % b


def _sym_index(i):
    if isinstance(i, (Sym, A.SymArray)):
        return True
    if type(i) is tuple or type(i) is list:
        return any(_sym_index(x) for x in i)
    if type(i) is slice:
        return isinstance(i.start, Sym) or isinstance(i.stop, Sym) or isinstance(i.step, Sym)
    return False


def _sx_get(a, i):
    if isinstance(a, A.SymArray):
        return a[i]
    if isinstance(a, np.ndarray):
        if _sym_index(i):
            i = A.concretize_index(i)
        return a[i]
    if isinstance(i, SymNum) and isinstance(a, (list, tuple, str, dict, range)):
        i = i.__index__() if i.k != "f" else i
    elif type(i) is slice and _sym_index(i):
        i = A.concretize_index(i)
    elif isinstance(i, A.SymArray) and not isinstance(a, (list, tuple)) and not hasattr(
            a, "__sx_aware__"):
        i = A.concretize_index(i)
    elif type(i) is tuple and _sym_index(i) and type(a) is not dict:
        i = A.concretize_index(i)
    return a[i]


def _sx_set(a, i, v):
    if isinstance(a, A.SymArray):
        a[i] = v
        return
    if isinstance(a, np.ndarray):
        if _sym_index(i):
            i = A.concretize_index(i)
        if type(v).__name__ == "SymMasked":
            v = v.data
        if isinstance(v, A.SymArray) and a.dtype != object:
            v = A.demote(v)
        a[i] = v
        return
    if isinstance(i, SymNum) and i.k != "f":
        i = i.__index__()
    if not hasattr(type(a), "__sx_aware__") and type(a).__module__.split(".")[0] not in _OWN:
        v = A.demote_deep(v)
    a[i] = v


def _sx_aug(a, i, v, op):
    if isinstance(i, A.SymArray) and i.dtype.kind == "b" and i.is_symbolic():
        i = A.concretize_index(i)
    cur = _sx_get(a, i)
    new = getattr(operator, op)(cur, v)
    _sx_set(a, i, new)


_OWN = ("builtins", "collections", "pyuvdata", "symx", "props", "numpy")
_PASS_TYPES = (list, dict, set, frozenset, tuple, str, bytes)


def sx_isinstance(x, t):
    if isinstance(x, Sym):
        k = C.kind_of(x)
        tt = t if isinstance(t, tuple) else (t,)
        flat = []
        for q in tt:
            flat.extend(q if isinstance(q, tuple) else [q])
        cands = {"b": (bool, np.bool_), "i": (int, np.int64), "f": (float, np.float64),
                 "c": (complex, np.complex128)}[k]
        for q in flat:
            if isinstance(q, type) and any(issubclass(c, q) for c in cands):
                return True
        return isinstance(x, t)
    return isinstance(x, t)


def sx_type(x, *rest):
    if rest:
        return type(x, *rest)
    if isinstance(x, A.SymArray):
        return np.ndarray
    if isinstance(x, SymNum):
        return {"b": bool, "i": int, "f": float}[x.k]
    if isinstance(x, SymC):
        return complex
    return type(x)


def sx_int(x=0, *a):
    if isinstance(x, A.SymArray):
        x = x.item()
    if isinstance(x, Sym):
        return C.trunc(x)
    return int(x, *a)


def sx_float(x=0.0):
    if isinstance(x, A.SymArray):
        x = x.item()
    if isinstance(x, Sym):
        return C.cast(x, np.dtype(float))
    return float(x)


def sx_complex(re=0, im=0):
    if A.has_sym(re) or A.has_sym(im):
        return C.add(C.cast(re, np.dtype(complex)), C.mul(1j, im))
    return complex(re, im)


def sx_minmax(name):
    fn = C.minimum if name == "min" else C.maximum
    pyf = getattr(builtins, name)

    def f(*args, **kw):
        if kw:
            return pyf(*args, **kw)
        items = list(args[0]) if len(args) == 1 else list(args)
        if any(isinstance(i, Sym) for i in items) and all(C.kind_of(i) for i in items):
            r = items[0]
            for i in items[1:]:
                r = fn(r, i)
            return r
        return pyf(items)

    return f


def sx_bool(x=False):
    return bool(x)


def sx_any(it):
    r = False
    for x in it:
        if isinstance(x, Sym):
            r = C.or_(r, C._tob(x))
        elif x:
            return True
    return bool(r)


def sx_all(it):
    r = True
    for x in it:
        if isinstance(x, Sym):
            r = C.and_(r, C._tob(x))
        elif not x:
            return False
    return bool(r)


def sx_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sx_round(x, n=None):
    if isinstance(x, Sym):
        return round(x, n)
    return round(x) if n is None else round(x, n)


def _npscalar(t):
    def f(x=0, *a, **k):
        if isinstance(x, A.SymArray):
            return x.astype(t) if x.ndim else x.astype(t).item()
        if isinstance(x, Sym):
            return C.cast(x, np.dtype(t))
        if A.has_sym(x):
            return A.as_sym(x, t)
        return A.promote(t(x, *a, **k))

    return f


CALLS = {
    isinstance: sx_isinstance, type: sx_type, int: sx_int, float: sx_float,
    complex: sx_complex, min: sx_minmax("min"), max: sx_minmax("max"), bool: sx_bool,
    any: sx_any, all: sx_all, sum: sx_sum, round: sx_round,
    np.matmul: A.f_matmul,
}
for _t in (np.float64, np.float32, np.float16, np.int64, np.int32, np.uint64, np.uint32, np.int16,
           np.uint8, np.bool_, np.complex128, np.complex64):
    CALLS[_t] = _npscalar(_t)

_PASS_FUNCS = {
    len, range, list, dict, tuple, set, frozenset, zip, enumerate, map, filter, getattr,
    setattr, hasattr, delattr, iter, next, print, issubclass, id, callable, repr, str,
    sorted, reversed, abs, copy.copy, copy.deepcopy, slice, property, hash, divmod, pow,
    itertools.product, itertools.chain, itertools.zip_longest, itertools.combinations,
    itertools.permutations, functools.partial, functools.reduce, operator.itemgetter,
    object, iter,
}


def _hashable(f):
    try:
        hash(f)
        return True
    except Exception:
        return False


_MethodWrapper = type(object().__str__)
FOREIGN = {}  # extra models installed by fakes: callable -> replacement


def _cdist(a, b, *rest, **kw):
    """scipy.spatial.distance.cdist, Euclidean"""
    from scipy.spatial.distance import cdist

    if rest or kw:
        raise C.Unsupported("cdist options")
    if not (A.has_sym(a) or A.has_sym(b)):
        return A.promote(cdist(A.demote_deep(a), A.demote_deep(b)))
    a, b = A.as_sym(a), A.as_sym(b)
    out = np.empty((len(a), len(b)), dtype=object)
    for i in range(len(a)):
        for j in range(len(b)):
            d = a[i] - b[j]
            q = A.f_sum(d * d)
            out[i, j] = q if not isinstance(q, Sym) and q == 0 else ufunc_call(np.sqrt, (q,), {})
    return A.wrap(out, np.float64)


class _Linear:
    """Interpolating splines are linear in the samples: evaluate scipy's own spline of every unit
    sample at the (concrete) points and combine the results with the symbolic samples."""

    __sx_aware__ = True

    def __init__(self, make, data, axes):
        self.make, self.data, self.axes = make, data, axes
        self.real = None if A.has_sym(data) else make(A.demote_deep(data))

    def __call__(self, *points, **kw):
        points = [A.demote_deep(p) for p in points]
        if any(A.has_sym(p) for p in points):
            raise C.Unsupported("interpolation to symbolic points")
        if self.real is not None:
            return A.promote_deep(self.real(*points, **kw))
        d, ax = A.as_sym(self.data), self.axes
        shape = tuple(d.shape[a] for a in ax)
        n = int(np.prod(shape))
        w = []  # weight of every sample in every result
        for k in range(n):
            unit = np.zeros(n)
            unit[k] = 1.0
            w.append(np.asarray(self.make(unit.reshape(shape))(*points, **kw)))
        w = np.array(w)
        w[np.abs(w) < 1e-12] = 0.0
        w[np.abs(w - 1) < 1e-12] = 1.0
        moved = np.moveaxis(A.base(d), ax, range(len(ax))).reshape((n,) + tuple(
            s for i, s in enumerate(d.shape) if i not in ax))
        out = np.empty(w.shape[1:] + moved.shape[1:], dtype=object)
        for ix in np.ndindex(*w.shape[1:]):
            acc = moved[0] * 0
            for k in range(n):
                x = float(w[(k,) + ix])
                if x != 0:
                    acc = acc + moved[k] * x
            out[ix] = acc
        if len(ax) == 1:
            out = np.moveaxis(out, range(w.ndim - 1), range(ax[0], ax[0] + w.ndim - 1))
        return A.wrap(out, np.float64)


def _interp1d(x, y, kind="linear", axis=-1, **kw):
    from scipy.interpolate import interp1d

    x = A.demote_deep(x)
    y = A.as_sym(y)
    if not A.has_sym(y):
        return _Linear(lambda v: interp1d(x, v, kind=kind, axis=axis, **kw), y, (axis % y.ndim,))
    return _Linear(lambda v: interp1d(x, v, kind=kind, **kw), y, (axis % y.ndim,))


def _bispline(x, y, z, **kw):
    from scipy.interpolate import RectBivariateSpline

    x, y = A.demote_deep(x), A.demote_deep(y)
    if kw.get("s", 0) != 0 and A.has_sym(z):
        raise C.Unsupported("smoothing spline of symbolic samples")
    return _Linear(lambda v: RectBivariateSpline(x, y, v, **kw), z, (0, 1))


def _hp_bilinear(self, lon, lat, values):
    lon, lat = A.demote_deep(lon), A.demote_deep(lat)
    if not A.has_sym(values):
        return A.promote_deep(self.interpolate_bilinear_lonlat(lon, lat, A.demote_deep(values)))
    inds, weights = self.bilinear_interpolation_weights(lon, lat)
    v = A.base(A.as_sym(values))
    out = np.empty(inds.shape[1:], dtype=object)
    for ix in np.ndindex(*out.shape):
        acc = v[0] * 0
        for k in range(inds.shape[0]):
            x = float(weights[(k,) + ix])
            if abs(x) > 1e-12:
                acc = acc + v[inds[(k,) + ix]] * (1.0 if abs(x - 1) < 1e-12 else x)
        out[ix] = acc
    return A.wrap(out, np.float64)


def _install_foreign():
    from scipy.interpolate import RectBivariateSpline, interp1d
    from scipy.spatial.distance import cdist

    import h5py

    from . import fitsx, h5

    FOREIGN[h5py.File] = h5.H5File
    FOREIGN.update(fitsx.models())
    FOREIGN[cdist] = _cdist
    FOREIGN[interp1d] = _interp1d
    FOREIGN[RectBivariateSpline] = _bispline
    try:
        from astropy_healpix import HEALPix

        FOREIGN[HEALPix.interpolate_bilinear_lonlat] = _hp_bilinear
    except ImportError:
        pass


FALLTHROUGH_MODULES = ("pyuvdata", "symx", "props", "warnings", "contextlib", "abc",
                       "collections", "docstring_parser", "textwrap", "re", "os", "__main__",
                       "concurrent", "typing", "itertools", "functools")


def _trace(f):
    q = getattr(f, "__qualname__", None)
    if q is not None:
        key = f"{getattr(f, '__module__', '?')}.{q}"
        CALLED[key] = CALLED.get(key, 0) + 1


def _sx_call(f, /, *args, **kw):
    tf = type(f)
    if tf is types.FunctionType:
        m = f.__module__ or ""
        if m.startswith("pyuvdata"):
            _trace(f)
            return f(*args, **kw)
    elif tf is types.MethodType:
        m = getattr(f.__func__, "__module__", "") or ""
        if m.startswith("pyuvdata"):
            _trace(f.__func__)
            return f(*args, **kw)
        if isinstance(f.__self__, A.SymArray) or m.startswith(("symx", "props")):
            return f(*args, **kw)
    if isinstance(f, types.BuiltinMethodType):
        slf = f.__self__
        if isinstance(slf, A.SymArray):
            args, kw = _arr_method_args(args, kw)
            return f(*args, **kw)
        if type(slf) is np.ndarray:
            if slf.dtype.kind in "biufc":
                if A.has_sym(args) or A.has_sym(kw):
                    return getattr(A.promote(slf), f.__name__)(*args, **kw)
                return A.promote_deep(f(*[A.demote_deep(a) for a in args],
                                        **{k: A.demote_deep(v) for k, v in kw.items()}))
            return f(*[A.demote_deep(a) for a in args], **{k: A.demote_deep(v) for k, v in kw.items()})
        if isinstance(slf, np.generic):
            if f.__name__ == "astype":
                return f(*args, **kw)
            r = getattr(A.promote(np.asarray(slf)), f.__name__)(*args, **kw) if A.has_sym(args) else f(*args, **kw)
            return A.promote_deep(r)
        if isinstance(slf, _PASS_TYPES):
            return f(*args, **kw)
    if tf is _MethodWrapper and not isinstance(f.__self__, (np.ndarray, np.generic)):
        return f(*args, **kw)
    if not _hashable(f):
        return f(*args, **kw)
    r = CALLS.get(f)
    if r is not None:
        return r(*args, **kw)
    r = FOREIGN.get(f)
    if r is not None:
        return r(*args, **kw)
    if tf is types.MethodType and f.__func__ in FOREIGN:
        return FOREIGN[f.__func__](f.__self__, *args, **kw)
    if f in _PASS_FUNCS:
        return f(*args, **kw)
    if isinstance(f, np.ufunc):
        return ufunc_call(f, args, kw)
    mod = getattr(f, "__module__", None) or ""
    if f in A.ALWAYS or f in A.IMPL or f in A.STRUCT or mod == "numpy" or mod.startswith("numpy."):
        if mod.startswith("numpy.ma") or (isinstance(f, type) and issubclass(f, np.ma.MaskedArray)):
            from . import masked

            return masked.call(f, args, kw)
        if isinstance(f, type):
            if issubclass(f, np.ndarray) or f is np.dtype or not issubclass(f, np.generic):
                return f(*[A.demote_deep(a) for a in args], **{k: A.demote_deep(v) for k, v in kw.items()})
            return f(*args, **kw)
        return A.np_call(f, args, kw)
    if mod.startswith(FALLTHROUGH_MODULES):
        if isinstance(f, type) and mod.startswith("pyuvdata"):
            CALLED[f"{mod}.{f.__qualname__}"] = CALLED.get(f"{mod}.{f.__qualname__}", 0) + 1
        return f(*args, **kw)
    if isinstance(f, type) and (issubclass(f, BaseException)):
        return f(*args, **kw)
    slf = getattr(f, "__self__", None)
    if hasattr(type(f), "__sx_aware__") or hasattr(type(slf), "__sx_aware__") or (
            isinstance(slf, type) and hasattr(slf, "__sx_aware__")) or (
            isinstance(f, type) and hasattr(f, "__sx_aware__")):
        return f(*args, **kw)
    if slf is not None and (type(slf).__module__ or "").startswith(("symx", "pyuvdata")):
        return f(*args, **kw)
    # foreign code: only concrete values may cross
    try:
        a = [A.demote_deep(x) for x in args]
        k = {x: A.demote_deep(v) for x, v in kw.items()}
    except Unsupported as err:
        raise Unsupported(f"{err}: {mod}.{getattr(f, '__qualname__', f)}") from None
    before = [(x, d, d.copy()) for x, d in zip(args, a)
              if isinstance(x, A.SymArray) and isinstance(d, np.ndarray) and d.dtype != object]
    r = f(*a, **k)
    for x, d, c in before:  # foreign code may fill a buffer in place
        if d.tobytes() != c.tobytes():
            x[...] = d
    return A.promote_deep(r) if type(r) in (np.ndarray, tuple) else r


def _arr_method_args(args, kw):
    def c(x):
        if isinstance(x, A.SymArray) and not x.is_symbolic():
            return A.demote(x)
        if isinstance(x, (tuple, list)):
            return type(x)(c(i) for i in x)
        if isinstance(x, SymNum):
            return x.__index__()
        return x

    return [c(a) for a in args], {k: c(v) for k, v in kw.items()}


def ufunc_call(f, args, kw):
    if isinstance(kw.get("where"), Sym):
        kw = dict(kw, where=A.scalar_array(kw["where"]))
    if any(type(a).__name__ == "SymMasked" for a in args):
        from . import masked

        return masked.function(f, args, kw)
    if any(isinstance(a, A.SymArray) for a in args) or any(
            isinstance(v, A.SymArray) for v in kw.values()):
        args = [A.scalar_array(a) if isinstance(a, Sym) else (
            A.as_sym(a) if isinstance(a, (list, tuple)) and A.has_sym(a) else a) for a in args]
        r = f(*args, **kw)
        return r
    if A.has_sym(args):
        if all(isinstance(a, Sym) or C.kind_of(a) for a in args) and not kw:
            fn = A.UF.get(f)
            if fn is None:
                raise Unsupported(f"ufunc {f.__name__}")
            return fn(*args)
        args = [A.as_sym(a) if isinstance(a, (Sym, list, tuple)) else a for a in args]
        return f(*args, **kw)
    with np.errstate(all="ignore"):
        return A.promote_deep(f(*args, **kw))


RUNTIME = {"_sx_call": _sx_call, "_sx_get": _sx_get, "_sx_set": _sx_set,
           "_sx_aug": _sx_aug, "_sx_mod": _sx_mod, "_sx_slice": _sx_slice}


def transform(src, filename):
    tree = ast.parse(src, filename)
    tree = Tr().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


MODULE_PATCHES = {}  # module name -> fn(module) run after exec
MODULE_REPLACE = {}  # module name -> module object substituted on import


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        with open(self.path, "rb") as fh:
            src = fh.read()
        return transform(src, self.path)

    def exec_module(self, module):
        super().exec_module(module)
        p = MODULE_PATCHES.get(module.__name__)
        if p:
            p(module)


VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class _PyxLoader(importlib.abc.Loader):
    """executes the translated .pyx; the compiled module stays reachable"""

    def __init__(self, fullname, spec, rel):
        self.fullname, self.spec, self.rel = fullname, spec, rel

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import pyx

        path = os.path.join(REPO_SRC, "pyuvdata", self.rel)
        with open(path) as fh:
            src = fh.read()
        try:
            code = transform(pyx.translate(src), path)
        except SyntaxError:
            comp = importlib.util.module_from_spec(self.spec)
            self.spec.loader.exec_module(comp)
            module.__dict__.update({k: v for k, v in vars(comp).items() if not k.startswith("__")})
            return
        module.__dict__.update(pyx.namespace())
        module.__file__ = path
        exec(code, module.__dict__)
        if module.__name__.endswith("_corr_fits"):
            comp = importlib.util.module_from_spec(self.spec)
            self.spec.loader.exec_module(comp)
            module.get_cable_len_diffs = comp.get_cable_len_diffs


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        top = fullname.split(".")[0]
        if top not in ("pyuvdata", "props") or fullname == "props.index":
            return None
        spec = importlib.machinery.PathFinder.find_spec(
            fullname, path if path is not None else [REPO_SRC, VERIF])
        from . import pyx

        if fullname in pyx.MODULES and spec is not None:
            return importlib.machinery.ModuleSpec(
                fullname, _PyxLoader(fullname, spec, pyx.MODULES[fullname]))
        if spec is None or not spec.origin or not spec.origin.endswith(".py"):
            return spec
        spec.loader = _Loader(fullname, spec.origin)
        return spec


def install():
    _install_foreign()
    for n, fn in RUNTIME.items():
        setattr(builtins, n, fn)
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
