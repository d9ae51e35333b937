"""Symbolic scalars and the path explorer.

A symbolic scalar wraps a z3 term.  Python ``int`` is modelled by mathematical
integers, ``float`` by reals (documented assumption: no rounding), ``bool`` by
Bool, ``complex`` by a pair of reals times an optional unit phasor.
Truth-testing a symbolic value forks: every feasible side is explored.
"""
import math
import sys
import time
from fractions import Fraction

import z3

import numpy as np


class PathDone(BaseException):
    """Abandon this path (infeasible assumption)."""


class Unsupported(BaseException):
    """The engine cannot model an operation symbolically.

    A BaseException so that handlers in the code under test cannot swallow it.
    """


class Deadline(BaseException):
    """Time slice used up."""


class Found(BaseException):
    """A candidate violation on the current path (with a model)."""

    def __init__(self, msg, model):
        super().__init__(msg)
        self.msg = msg
        self.model = model


# ----------------------------------------------------------------- constants


def _frac(x):
    return Fraction(x)


_REAL_CACHE = {}


def real_val(x):
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    key = float(x) if not isinstance(x, (int, np.integer, Fraction)) else x
    try:
        r = _REAL_CACHE.get(key)
    except TypeError:
        r = None
    if r is None:
        f = Fraction(int(x)) if isinstance(x, (int, np.integer)) else (
            x if isinstance(x, Fraction) else Fraction(float(x)))
        r = z3.RealVal(str(f))
        if len(_REAL_CACHE) < 20000:
            _REAL_CACHE[key] = r
    return r


def is_special(x):
    """concrete nan/inf."""
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def kind_of(x):
    if isinstance(x, SymNum):
        return x.k
    if isinstance(x, SymC):
        return "c"
    if isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating, Fraction)):
        return "f"
    if isinstance(x, (complex, np.complexfloating)):
        return "c"
    return None


_ORDER = {"b": 0, "i": 1, "f": 2, "c": 3}


def to_kind(x, k):
    """z3 term of kind k (b,i,f) for a python or symbolic scalar."""
    kx = kind_of(x)
    if isinstance(x, SymNum):
        if kx == k:
            return x.e
        if kx == "b":
            if k == "i":
                return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
            if k == "f":
                return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
        if kx == "i" and k == "f":
            return z3.ToReal(x.e)
        if k == "b":
            return x.e != 0
        raise Unsupported(f"to_kind {kx}->{k}")
    if k == "b":
        return z3.BoolVal(bool(x))
    if k == "i":
        return z3.IntVal(int(x))
    if k == "f":
        if is_special(x):
            raise Unsupported("special float in term")
        return real_val(x)
    raise Unsupported(f"to_kind {type(x)}")


class Sym:
    __slots__ = ()
    __array_ufunc__ = None
    __array_priority__ = 1000


def mk(e, k):
    """Wrap, folding literals back to python values."""
    if k == "b":
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
    elif k == "i":
        if z3.is_int_value(e):
            return e.as_long()
    # real literals stay symbolic-free only if exactly a float
    elif k == "f":
        if z3.is_rational_value(e):
            f = e.as_fraction()
            try:
                fl = float(f)
            except OverflowError:
                return SymNum(e, k)
            if Fraction(fl) == f:
                return fl
    return SymNum(e, k)


def _bin_arr(self, other, uf, swap):
    import symx.arr as A

    a = A.scalar_array(self)
    b = np.asarray(other) if not isinstance(other, np.ndarray) else other
    return uf(b, a) if swap else uf(a, b)


def _mkop(fname, uf):
    def op(self, other):
        if isinstance(other, (np.ndarray, list, tuple)):
            if isinstance(other, (list, tuple)) and fname in ("eq", "ne"):
                return NotImplemented
            return _bin_arr(self, other, uf, False)
        if kind_of(other) is None:
            return NotImplemented
        return SCALAR[fname](self, other)

    def rop(self, other):
        if isinstance(other, (np.ndarray, list, tuple)):
            return _bin_arr(self, other, uf, True)
        if kind_of(other) is None:
            return NotImplemented
        return SCALAR[fname](other, self)

    return op, rop


class SymNum(Sym):
    __slots__ = ("e", "k")

    def __init__(self, e, k):
        self.e = e
        self.k = k

    # numpy-scalar lookalike -------------------------------------------------
    @property
    def dtype(self):
        return np.dtype({"b": bool, "i": np.int64, "f": np.float64}[self.k])

    shape = ()
    ndim = 0
    size = 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0 if self.k == "f" else 0

    def conj(self):
        return self

    conjugate = conj

    def item(self, *a):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def any(self, *a, **k):
        return self if self.k == "b" else self != 0

    all = any

    def sum(self, *a, **k):
        return self

    mean = min = max = sum

    def is_integer(self):
        if self.k in "bi":
            return True
        return mk(z3.IsInt(self.e), "b")

    def astype(self, dt, **kw):
        return cast(self, np.dtype(dt))

    def reshape(self, *a, **k):
        import symx.arr as A

        return A.scalar_array(self).reshape(*a, **k)

    def flatten(self):
        return self.reshape(-1)

    def __getitem__(self, key):
        import symx.arr as A

        return A.scalar_array(self)[key]

    __iter__ = None

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # control ----------------------------------------------------------------
    def __bool__(self):
        return E().branch(to_kind(self, "b"))

    def __index__(self):
        if self.k == "f":
            raise TypeError("float used as index")
        return E().concretize(self)

    def __int__(self):
        if self.k == "f":
            return int(E().concretize(trunc(self)))
        return E().concretize(self)

    def __hash__(self):
        if self.k in "bi":
            return hash(E().concretize(self))
        # all symbolic reals share a hash: equality decides (and forks)
        E().hashed_real = True
        return 7

    def __float__(self):
        raise Unsupported("float() of symbolic value in C code")

    def __complex__(self):
        raise Unsupported("complex() of symbolic value in C code")

    def __repr__(self):
        return f"<sym {self.e.sexpr()[:60]}>"

    def __str__(self):
        if self.k in "bi":
            return str(E().concretize(self))
        E().formatted += 1
        return f"<sym {self.e.sexpr()}>"

    def __format__(self, spec):
        if self.k in "bi":
            return format(E().concretize(self), spec)
        E().formatted += 1
        return f"<sym {self.e.sexpr()}>"

    def __neg__(self):
        if self.k == "b":
            raise TypeError("The numpy boolean negative, the `-` operator")
        return mk(-self.e, self.k)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.k == "b":
            return self
        return mk(z3.If(self.e >= 0, self.e, -self.e), self.k)

    def __invert__(self):
        if self.k == "b":
            return mk(z3.Not(self.e), "b")
        return mk(-self.e - 1, "i")

    def __round__(self, n=None):
        return SCALAR["rint"](self) if not n else _round_n(self, n)

    def __floor__(self):
        return SCALAR["floor"](self)

    def __trunc__(self):
        return trunc(self)


class SymC(Sym):
    """complex value (re + i*im) * exp(i*ph); ph is None or a real scalar."""

    __slots__ = ("re", "im", "ph")

    def __init__(self, re, im, ph=None):
        self.re = re
        self.im = im
        self.ph = ph

    dtype = np.dtype(np.complex128)
    shape = ()
    ndim = 0
    size = 1

    def flat(self):
        """re/im form, expanding the phasor with cos/sin terms."""
        if self.ph is None:
            return self.re, self.im
        c, s = cos_(self.ph), sin_(self.ph)
        return (sub(mul(self.re, c), mul(self.im, s)),
                add(mul(self.re, s), mul(self.im, c)))

    @property
    def real(self):
        return self.flat()[0]

    @property
    def imag(self):
        return self.flat()[1]

    def conj(self):
        return SymC(self.re, neg(self.im), None if self.ph is None else neg(self.ph))

    conjugate = conj

    def item(self, *a):
        return self

    def tolist(self):
        return self

    def view(self, dt):
        from . import arr as A

        if not A.cstruct(np.dtype(dt)):
            raise Unsupported(f"view of a complex number as {dt}")
        return A.wrap(A.base(A.scalar_array(self)), np.dtype(dt))

    def astype(self, dt, **kw):
        return cast(self, np.dtype(dt))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __bool__(self):
        return bool(SCALAR["ne"](self, 0))

    def __hash__(self):
        return 11

    def __repr__(self):
        return f"<symc {self.re!r}+{self.im!r}j ph={self.ph!r}>"

    __str__ = __repr__

    def __format__(self, spec):
        E().formatted += 1
        return repr(self)

    def __neg__(self):
        return SymC(neg(self.re), neg(self.im), self.ph)

    def __pos__(self):
        return self

    def __abs__(self):
        return SCALAR["abs"](self)

    def __float__(self):
        raise Unsupported("float() of symbolic complex")

    def __complex__(self):
        raise Unsupported("complex() of symbolic complex")

    __iter__ = None


def cparts(x):
    if isinstance(x, SymC):
        return x.re, x.im, x.ph
    if isinstance(x, SymNum):
        return (x if x.k == "f" else cast(x, np.dtype(float))), 0.0, None
    if isinstance(x, (complex, np.complexfloating)):
        return float(x.real), float(x.imag), None
    return float(x), 0.0, None


def mkc(re, im, ph=None):
    if not isinstance(re, Sym) and not isinstance(im, Sym) and (
            ph is None or not isinstance(ph, Sym)):
        v = complex(re, im)
        if ph is not None:
            v *= complex(math.cos(ph), math.sin(ph))
        return v
    if ph is not None and not isinstance(ph, Sym) and ph == 0:
        ph = None
    return SymC(re, im, ph)


# ------------------------------------------------------------ scalar functions


def _issym(*a):
    for x in a:
        if isinstance(x, Sym):
            return True
    return False


def _kmax(a, b):
    ka, kb = kind_of(a), kind_of(b)
    return ka if _ORDER[ka] >= _ORDER[kb] else kb


def _nz(x):
    """pythonise numpy scalars"""
    return x.item() if isinstance(x, np.generic) else x


def _isnanf(x):
    return isinstance(x, float) and x != x


def add(a, b):
    if not _issym(a, b):
        return _nz(a) + _nz(b)
    k = _kmax(a, b)
    if k == "c":
        return _cadd(a, b)
    if is_special(a):
        return a if not is_special(b) else a + b
    if is_special(b):
        return b
    if k == "b":
        return mk(z3.Or(to_kind(a, "b"), to_kind(b, "b")), "b")
    if not isinstance(a, Sym) and a == 0:
        return b if kind_of(b) == k else mk(to_kind(b, k), k)
    if not isinstance(b, Sym) and b == 0:
        return a if kind_of(a) == k else mk(to_kind(a, k), k)
    return mk(to_kind(a, k) + to_kind(b, k), k)


def sub(a, b):
    if not _issym(a, b):
        return _nz(a) - _nz(b)
    k = _kmax(a, b)
    if k == "c":
        return _cadd(a, neg(b))
    if is_special(a):
        return a if not is_special(b) else a - b
    if is_special(b):
        return -b
    if k == "b":
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    if not isinstance(b, Sym) and b == 0:
        return a if kind_of(a) == k else mk(to_kind(a, k), k)
    return mk(to_kind(a, k) - to_kind(b, k), k)


def neg(a):
    if isinstance(a, Sym):
        return -a
    return -_nz(a)


def mul(a, b):
    if not _issym(a, b):
        a, b = _nz(a), _nz(b)
        return a * b
    k = _kmax(a, b)
    if k == "c":
        return _cmul(a, b)
    for x, y in ((a, b), (b, a)):
        if is_special(x):
            if x != x:
                return x
            if E().branch(to_kind(y, "f") == 0) if isinstance(y, Sym) else y == 0:
                return float("nan")
            pos = E().branch(to_kind(y, "f") > 0) if isinstance(y, Sym) else y > 0
            return x if pos else -x
    if k == "b":
        return mk(z3.And(to_kind(a, "b"), to_kind(b, "b")), "b")
    # bool * number -> ite
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SymNum) and x.k == "b":
            zero = z3.RealVal(0) if k == "f" else z3.IntVal(0)
            return mk(z3.If(x.e, to_kind(y, k), zero), k)
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, Sym):
            if x == 0:
                return 0.0 if k == "f" else 0
            if x == 1:
                return y if kind_of(y) == k else mk(to_kind(y, k), k)
    return mk(to_kind(a, k) * to_kind(b, k), k)


def div(a, b):
    if not _issym(a, b):
        a, b = _nz(a), _nz(b)
        with np.errstate(all="ignore"):
            return np.true_divide(a, b).item()
    k = _kmax(a, b)
    if k == "c":
        return _cdiv(a, b)
    if is_special(a):
        if is_special(b) or a != a:
            return float("nan")
        p = E().branch(to_kind(b, "f") >= 0)
        return a if p else -a
    if is_special(b):
        return b if b != b else 0.0
    if isinstance(b, Sym):
        bz = E().branch(to_kind(b, "f") == 0)
    else:
        bz = b == 0
    if bz:
        if not isinstance(a, Sym):
            return float("nan") if a == 0 else math.copysign(float("inf"), a)
        if E().branch(to_kind(a, "f") == 0):
            return float("nan")
        return float("inf") if E().branch(to_kind(a, "f") > 0) else float("-inf")
    if not isinstance(b, Sym):
        if b == 1:
            return a if kind_of(a) == "f" else mk(to_kind(a, "f"), "f")
        return mk(to_kind(a, "f") * real_val(1 / Fraction(b)), "f")
    return mk(to_kind(a, "f") / to_kind(b, "f"), "f")


def _cadd(a, b):
    r1, i1, p1 = cparts(a)
    r2, i2, p2 = cparts(b)
    if p1 is None and p2 is None:
        return mkc(add(r1, r2), add(i1, i2))
    if p1 is not None and p2 is not None and _same(p1, p2):
        return mkc(add(r1, r2), add(i1, i2), p1)
    if not _issym(r2, i2) and r2 == 0 and i2 == 0:
        return a
    if not _issym(r1, i1) and r1 == 0 and i1 == 0:
        return b
    fa = a.flat() if isinstance(a, SymC) else (r1, i1)
    fb = b.flat() if isinstance(b, SymC) else (r2, i2)
    return mkc(add(fa[0], fb[0]), add(fa[1], fb[1]))


def _same(p, q):
    d = sub(p, q)
    if not isinstance(d, Sym):
        return d == 0
    s = z3.simplify(d.e)
    if z3.is_rational_value(s):
        return s.as_fraction() == 0
    return E().small(s, 1e-9)


def _csp(x):
    return is_special(x)


def _cmul(a, b):
    r1, i1, p1 = cparts(a)
    r2, i2, p2 = cparts(b)
    ph = p1 if p2 is None else (p2 if p1 is None else add(p1, p2))
    if kind_of(b) != "c":
        return mkc(mul(r1, r2), mul(i1, r2), ph)
    if kind_of(a) != "c":
        return mkc(mul(r1, r2), mul(r1, i2), ph)
    if ph is not None and isinstance(ph, Sym):
        s = z3.simplify(ph.e)
        if z3.is_rational_value(s) and s.as_fraction() == 0:
            ph = None
    return mkc(sub(mul(r1, r2), mul(i1, i2)), add(mul(r1, i2), mul(i1, r2)), ph)


def _cdiv(a, b):
    r2, i2, p2 = cparts(b)
    if kind_of(b) != "c" or (not isinstance(i2, Sym) and i2 == 0 and p2 is None):
        r1, i1, p1 = cparts(a)
        return mkc(div(r1, r2), div(i1, r2), p1)
    d = add(mul(r2, r2), mul(i2, i2))
    num = _cmul(a, SymC(r2, neg(i2), None if p2 is None else neg(p2)))
    r, i, p = cparts(num)
    return mkc(div(r, d), div(i, d), p)


def trunc(a):
    if not isinstance(a, Sym):
        return int(a)
    if a.k in "bi":
        return mk(to_kind(a, "i"), "i")
    return mk(z3.If(a.e >= 0, z3.ToInt(a.e), -z3.ToInt(-a.e)), "i")


def floor_(a):
    if not isinstance(a, Sym):
        return float(math.floor(a)) if not is_special(a) else a
    if a.k in "bi":
        return mk(to_kind(a, "f"), "f")
    return mk(z3.ToReal(z3.ToInt(a.e)), "f")


def ceil_(a):
    return neg(floor_(neg(a)))


def rint_(a):
    if not isinstance(a, Sym):
        return float(np.rint(a))
    if a.k in "bi":
        return a
    fl = z3.ToInt(a.e)
    fr = a.e - z3.ToReal(fl)
    half = z3.RealVal("1/2")
    even = fl % 2 == 0
    up = z3.Or(fr > half, z3.And(fr == half, z3.Not(even)))
    return mk(z3.ToReal(z3.If(up, fl + 1, fl)), "f")


def _round_n(a, n):
    p = 10 ** int(n)
    return div(rint_(mul(a, float(p))), float(p))


def floordiv(a, b):
    if not _issym(a, b):
        return np.floor_divide(_nz(a), _nz(b)).item()
    k = _kmax(a, b)
    if k == "f":
        return floor_(div(a, b))
    ea, eb = to_kind(a, "i"), to_kind(b, "i")
    if isinstance(b, Sym):
        if E().branch(eb == 0):
            return 0
        return mk(z3.If(eb > 0, ea / eb, (-ea) / (-eb)), "i")
    if b == 0:
        return 0
    return mk(ea / eb if b > 0 else (-ea) / z3.IntVal(-int(b)), "i")


def mod(a, b):
    if not _issym(a, b):
        return np.remainder(_nz(a), _nz(b)).item()
    k = _kmax(a, b)
    if k == "f":
        return sub(a, mul(b, floor_(div(a, b))))
    return sub(a, mul(b, floordiv(a, b)))


def power(a, b):
    if not _issym(a, b):
        return np.power(_nz(a), _nz(b)).item() if not (
            isinstance(_nz(a), int) and isinstance(_nz(b), int) and b < 0) else _nz(a) ** _nz(b)
    if not isinstance(b, Sym):
        if float(b).is_integer() and 0 <= b <= 6:
            r = 1.0 if _kmax(a, b) == "f" else 1
            if kind_of(a) == "c":
                r = 1.0
            for _ in range(int(b)):
                r = mul(r, a)
            return r
        if b == 0.5:
            return sqrt_(a)
        if float(b).is_integer() and b < 0:
            return div(1.0, power(a, -b))
        if b == -0.5:
            return div(1.0, sqrt_(a))
    return uf("pow", a, b)


def uf(name, *args):
    """Uninterpreted real function (memo by term identity through z3)."""
    f = z3.Function("uf_" + name, *([z3.RealSort()] * (len(args) + 1)))
    return mk(f(*[to_kind(x, "f") for x in args]), "f")


def sqrt_(a):
    if not isinstance(a, Sym):
        with np.errstate(all="ignore"):
            return np.sqrt(a).item()
    if isinstance(a, SymC):
        raise Unsupported("sqrt of complex")
    ea = to_kind(a, "f")
    eng = E()
    root = eng.root(ea)
    if root is not None:
        return root
    r = eng.fresh_memo("sqrt", ea)
    if eng.first(("sqrt", ea.get_id())):
        eng.keep.append(ea)
        if not eng.must(ea >= 0):
            if eng.branch(ea < 0):
                return float("nan")
        eng.axiom(z3.And(r >= 0, r * r == ea))
    return mk(r, "f")


def _abs(a):
    if not isinstance(a, Sym):
        return abs(_nz(a))
    if isinstance(a, SymC):
        # modulus does not see the phasor
        if not isinstance(a.im, Sym) and a.im == 0:
            return _abs(a.re)
        if not isinstance(a.re, Sym) and a.re == 0:
            return _abs(a.im)
        return sqrt_(add(mul(a.re, a.re), mul(a.im, a.im)))
    return abs(a)


def _canon(x):
    """(sign, term): canonical argument for odd/even functions."""
    s = z3.simplify(to_kind(x, "f"), som=True)
    n = z3.simplify(-s, som=True)
    return (1, s) if str(s) <= str(n) else (-1, n)


def cos_(x):
    if not isinstance(x, Sym):
        return float(np.cos(x))
    sg, t = _canon(x)
    c = E().trig(t)[0]
    return mk(c, "f")


def sin_(x):
    if not isinstance(x, Sym):
        return float(np.sin(x))
    sg, t = _canon(x)
    s = E().trig(t)[1]
    return mk(s if sg > 0 else -s, "f")


def tan_(x):
    if not isinstance(x, Sym):
        return float(np.tan(x))
    return div(sin_(x), cos_(x))


def exp_(x):
    if not isinstance(x, Sym):
        return np.exp(x).item()
    if isinstance(x, SymC):
        re, im = x.flat()
        if not isinstance(re, Sym):
            return mkc(math.exp(re), 0.0, im)
        return mkc(exp_(re), 0.0, im)
    return uf("exp", x)


def _ufun(name, npf):
    def f(x):
        if not isinstance(x, Sym):
            with np.errstate(all="ignore"):
                return npf(x).item()
        if isinstance(x, SymC):
            raise Unsupported(name + " of complex")
        return uf(name, x)

    return f


def arctan2_(y, x):
    if not _issym(y, x):
        return float(np.arctan2(y, x))
    eng = E()
    # (y, x) = (r sin t, r cos t) for arguments of that exact shape
    t = eng.known_angle(y, x)
    return eng.atan2(y, x) if t is None else t


def angle_(a):
    r, i = (a.flat() if isinstance(a, SymC) else cparts(a)[:2])
    return arctan2_(i, r)


def _cmp(op):
    def f(a, b):
        if not _issym(a, b):
            a, b = _nz(a), _nz(b)
            return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]
        k = _kmax(a, b)
        if k == "c":
            raise Unsupported("ordering of complex")
        sa, sb = is_special(a), is_special(b)
        if sa or sb:
            if (sa and a != a) or (sb and b != b):
                return False
            va = a if sa else 0.0
            vb = b if sb else 0.0
            return {"lt": va < vb, "le": va <= vb, "gt": va > vb, "ge": va >= vb}[op]
        if k == "b":
            k = "i"
        x, y = to_kind(a, k), to_kind(b, k)
        r = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op]
        return mk(r, "b")

    return f


def eq(a, b):
    if not _issym(a, b):
        return bool(_nz(a) == _nz(b))
    ka, kb = kind_of(a), kind_of(b)
    if ka is None or kb is None:
        return False
    k = ka if _ORDER[ka] >= _ORDER[kb] else kb
    if k == "c":
        r1, i1, p1 = cparts(a)
        r2, i2, p2 = cparts(b)
        if p1 is not None or p2 is not None:
            z1 = p1 if p1 is not None else 0.0
            z2 = p2 if p2 is not None else 0.0
            # compare to zero: modulus only
            if not _issym(r2, i2) and r2 == 0 and i2 == 0:
                return and_(eq(r1, 0.0), eq(i1, 0.0))
            if not _issym(r1, i1) and r1 == 0 and i1 == 0:
                return and_(eq(r2, 0.0), eq(i2, 0.0))
            if not _same(z1, z2):
                f1 = a.flat() if isinstance(a, SymC) else (r1, i1)
                f2 = b.flat() if isinstance(b, SymC) else (r2, i2)
                return and_(eq(f1[0], f2[0]), eq(f1[1], f2[1]))
        return and_(eq(r1, r2), eq(i1, i2))
    if is_special(a) or is_special(b):
        return False
    if k == "f" and E().angles and E().generic(to_kind(a, k) - to_kind(b, k)):
        return False
    return mk(to_kind(a, k) == to_kind(b, k), "b")


def ne(a, b):
    return not_(eq(a, b))


def and_(a, b):
    if not _issym(a, b):
        return bool(a) and bool(b)
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, Sym):
            return _tob(y) if x else False
    return mk(z3.And(to_kind(_tob(a), "b"), to_kind(_tob(b), "b")), "b")


def or_(a, b):
    if not _issym(a, b):
        return bool(a) or bool(b)
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, Sym):
            return True if x else _tob(y)
    return mk(z3.Or(to_kind(_tob(a), "b"), to_kind(_tob(b), "b")), "b")


def xor_(a, b):
    if not _issym(a, b):
        return bool(a) ^ bool(b)
    return mk(z3.Xor(to_kind(_tob(a), "b"), to_kind(_tob(b), "b")), "b")


def not_(a):
    if not isinstance(a, Sym):
        return not a
    return mk(z3.Not(to_kind(_tob(a), "b")), "b")


def _tob(a):
    if isinstance(a, SymC):
        return ne(a, 0)
    if isinstance(a, SymNum):
        return a if a.k == "b" else mk(a.e != 0, "b")
    return bool(a)


def ite(c, a, b):
    """if c then a else b, merging when possible."""
    if not isinstance(c, Sym):
        return a if c else b
    c = _tob(c)
    if not isinstance(c, Sym):
        return a if c else b
    if a is b:
        return a
    ka, kb = kind_of(a), kind_of(b)
    if ka is None or kb is None or is_special(a) or is_special(b):
        return a if bool(c) else b
    k = ka if _ORDER[ka] >= _ORDER[kb] else kb
    if k == "c":
        r1, i1, p1 = cparts(a)
        r2, i2, p2 = cparts(b)
        if (p1 is None) != (p2 is None) or (p1 is not None and not _same(p1, p2)):
            zero_a = not _issym(r1, i1) and r1 == 0 and i1 == 0
            zero_b = not _issym(r2, i2) and r2 == 0 and i2 == 0
            if zero_a:
                p1 = p2
            elif zero_b:
                p2 = p1
            else:
                return a if bool(c) else b
        if any(is_special(x) for x in (r1, i1, r2, i2)):
            return a if bool(c) else b
        return mkc(ite(c, r1, r2), ite(c, i1, i2), p1)
    return mk(z3.If(c.e, to_kind(a, k), to_kind(b, k)), k)


def maximum(a, b):
    if not _issym(a, b):
        return np.maximum(_nz(a), _nz(b)).item()
    return ite(SCALAR["ge"](a, b), a, b)


def minimum(a, b):
    if not _issym(a, b):
        return np.minimum(_nz(a), _nz(b)).item()
    return ite(SCALAR["le"](a, b), a, b)


def sign_(a):
    if not isinstance(a, Sym):
        return np.sign(a).item()
    one, zero, mone = (1.0, 0.0, -1.0) if a.k == "f" else (1, 0, -1)
    return ite(SCALAR["gt"](a, 0), one, ite(SCALAR["lt"](a, 0), mone, zero))


def isnan_(a):
    if isinstance(a, SymC):
        return any(isinstance(x, float) and x != x for x in (a.re, a.im))
    return False if isinstance(a, Sym) else bool(np.isnan(a))


def isinf_(a):
    if isinstance(a, SymC):
        return any(isinstance(x, float) and math.isinf(x) for x in (a.re, a.im))
    return False if isinstance(a, Sym) else bool(np.isinf(a))


def isfinite_(a):
    if isinstance(a, SymC):
        return not any(is_special(x) for x in (a.re, a.im))
    return True if isinstance(a, Sym) else bool(np.isfinite(a))


def conj_(a):
    if isinstance(a, Sym):
        return a.conj()
    return _nz(a).conjugate()


def _bit(op, lop, iop):
    def f(a, b):
        ka, kb = kind_of(a), kind_of(b)
        if ka == "b" and kb == "b":
            return lop(a, b)
        if not _issym(a, b):
            return iop(_nz(a), _nz(b))
        raise Unsupported("bit operation on symbolic ints")

    return f


def invert_(a):
    if isinstance(a, Sym):
        return ~a
    if isinstance(a, (bool, np.bool_)):
        return not a
    return ~_nz(a)


def cast(x, dt):
    """numpy astype semantics for one scalar."""
    dk = dt.kind
    if dt.names == ("r", "i"):
        return mkc(cast(x.real, dt["r"]), cast(x.imag, dt["i"])) if isinstance(x, Sym) else complex(
            cast(x.real, dt["r"]), cast(x.imag, dt["i"]))
    if not isinstance(x, Sym):
        if dk == "O":
            return x
        if x is None and dk in "fc":
            return float("nan")
        if isinstance(x, complex) and dk in "fiu":
            x = x.real
        if dk == "f" and dt.itemsize >= 8:
            return float(x)
        with np.errstate(all="ignore"):
            return np.array(x).astype(dt).item()
    if dk == "b":
        return _tob(x)
    if dk in "iu":
        if isinstance(x, SymC):
            x = x.real
        return trunc(x) if isinstance(x, Sym) else int(x)
    if dk == "f":
        if isinstance(x, SymC):
            return x.real
        return x if x.k == "f" else mk(to_kind(x, "f"), "f")
    if dk == "c":
        if isinstance(x, SymC):
            return x
        return mkc(cast(x, np.dtype(float)), 0.0)
    if dk == "O":
        return x
    raise Unsupported(f"cast to {dt}")


def _arc(name, npf):
    return _ufun(name, npf)


def _deg(x):
    if isinstance(x, Sym):
        return mul(x, 180.0 / math.pi)
    return float(np.rad2deg(x))


def _rad(x):
    if isinstance(x, Sym):
        return mul(x, math.pi / 180.0)
    return float(np.deg2rad(x))


SCALAR = {
    "add": add, "sub": sub, "mul": mul, "div": div, "floordiv": floordiv,
    "mod": mod, "pow": power, "eq": eq, "ne": ne, "lt": _cmp("lt"),
    "le": _cmp("le"), "gt": _cmp("gt"), "ge": _cmp("ge"), "abs": _abs,
    "neg": neg, "floor": floor_, "ceil": ceil_, "rint": rint_, "trunc": trunc,
    "and": _bit("and", and_, lambda a, b: a & b),
    "or": _bit("or", or_, lambda a, b: a | b),
    "xor": _bit("xor", xor_, lambda a, b: a ^ b),
}

_OPS = {
    "add": ("add", np.add), "sub": ("sub", np.subtract), "mul": ("mul", np.multiply),
    "truediv": ("div", np.true_divide), "floordiv": ("floordiv", np.floor_divide),
    "mod": ("mod", np.remainder), "pow": ("pow", np.power), "and": ("and", np.bitwise_and),
    "or": ("or", np.bitwise_or), "xor": ("xor", np.bitwise_xor),
}
for _n, (_s, _u) in _OPS.items():
    _o, _r = _mkop(_s, _u)
    for _c in (SymNum, SymC):
        setattr(_c, f"__{_n}__", _o)
        setattr(_c, f"__r{_n}__", _r)
for _n, _u in (("eq", np.equal), ("ne", np.not_equal), ("lt", np.less),
               ("le", np.less_equal), ("gt", np.greater), ("ge", np.greater_equal)):
    _o, _r = _mkop(_n, _u)
    for _c in (SymNum, SymC):
        setattr(_c, f"__{_n}__", _o)


# ----------------------------------------------------------------- explorer

_CUR = [None]


def E():
    if _CUR[0] is None:
        raise RuntimeError("no active symbolic engine")
    return _CUR[0]


class Engine:
    """Depth-first exploration of all feasible paths of one harness case."""

    def __init__(self, timeout_ms=20000, max_paths=100000, deadline=None):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = dict(paths=0, infeasible=0, queries=0, branch_queries=0,
                          solver_s=0.0, unknown=0, obligations=0, forks=0,
                          limited=0, formatted=0, witnesses=0,
                          branch_unknown=0)
        self.trail = []  # list of [choice_list, position]
        self.formatted = 0
        self.unknown_msgs = []

    # --- per path -----------------------------------------------------------
    def begin(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.pc = []
        self.pos = 0
        self.names = {}
        self.memo = {}
        self.seen = set()
        self.keep = []
        self.trigmemo = {}
        self.angles, self.sinmap, self.bounds, self._poly = {}, {}, {}, None
        self.inputs = {}
        self.mod = None
        self.formatted = 0
        self.hashed_real = False
        self.counter = 0

    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def axiom(self, e):
        self.add(e)
        self.mod = None

    def first(self, key):
        if key in self.seen:
            return False
        self.seen.add(key)
        return True

    def fresh_memo(self, tag, e):
        key = (tag, e.get_id())
        r = self.memo.get(key)
        if r is None:
            self.keep.append(e)
            self.counter += 1
            r = z3.Real(f"!{tag}{self.counter}")
            self.memo[key] = r
        return r

    def fresh(self, tag, k):
        self.counter += 1
        n = f"!{tag}{self.counter}"
        if k == "c":
            return SymC(SymNum(z3.Real(n + "r"), "f"), SymNum(z3.Real(n + "i"), "f"))
        e = {"b": z3.Bool, "i": z3.Int, "f": z3.Real}[k](n)
        return SymNum(e, k)

    def poly(self):
        n = len(self.sinmap)
        if self._poly is None or self._poly[0] != n:
            from .poly import Poly
            self._poly = (n, Poly(dict(self.sinmap)))
        return self._poly[1]

    def normal(self, e):
        """(polynomial normal form of a real term, upper bound) or None"""
        if not self.angles:
            return None
        from .poly import TooBig
        try:
            P = self.poly()
            p = P.of(e)
        except TooBig:
            return None
        return p, P.bound(p, self.bounds)

    def small(self, e, tol):
        r = self.normal(e)
        if r is None:
            return False
        self.stats["normal_forms"] = self.stats.get("normal_forms", 0) + 1
        return r[1] is not None and r[1] <= tol

    def angle(self, name, lo, hi):
        """a symbolic angle, with its cosine and sine; different angles are never equal"""
        e, c, s = z3.Real(name), z3.Real(name + "!c"), z3.Real(name + "!s")
        self.keep += [e, c, s]
        self.add(z3.And(e >= real_val(lo), e <= real_val(hi)))
        self.axiom(c * c + s * s == 1)
        self.axiom(z3.And(c <= 1, c >= -1, s <= 1, s >= -1))
        for o in self.angles.values():
            self.axiom(e != o[0])
        self.axiom(e != 0)
        self.angles[e.get_id()] = (e, c, s)
        self.sinmap[s.get_id()] = c.get_id()
        self.bounds[c.get_id()] = self.bounds[s.get_id()] = 1.0
        self.bounds[e.get_id()] = max(abs(lo), abs(hi))
        self.trigmemo[e.get_id()] = (c, s, e)
        return e

    def generic(self, e):
        """a combination of different angles: taken to be nonzero (equal angles are explored
        by using the same symbol)"""
        p = self.poly().of(z3.simplify(e))
        if len(p) == 0 or set(p) == {()}:
            return False
        if any(len(m) > 1 or (m and (m[0][1] != 1 or m[0][0] not in self.angles)) for m in p):
            return False
        self.axiom(e != 0)
        return True

    def root(self, e):
        """square root of a term whose normal form is a perfect square monomial"""
        nf = self.normal(e)
        if nf is None or len(nf[0]) != 1:
            return None
        (m, v), = nf[0].items()
        n, d = math.isqrt(max(v.numerator, 0)), math.isqrt(v.denominator)
        if v < 0 or n * n != v.numerator or d * d != v.denominator or any(k % 2 for _, k in m):
            return None
        out = z3.RealVal(str(Fraction(n, d)))
        for a, k in m:
            for _ in range(k // 2):
                out = out * self.poly().atoms[a]
        x = mk(z3.simplify(out), "f")
        return x if not isinstance(x, Sym) or self.branch(x.e >= 0) else neg(x)

    def known_angle(self, y, x):
        """the angle t when y = k sin t and x = k cos t for one of the angles, k > 0"""
        if not self.angles:
            return None
        py, px = self.normal(to_kind(y, "f")), self.normal(to_kind(x, "f"))
        if py is None or px is None or len(py[0]) != 1 or len(px[0]) != 1:
            return None
        (my, vy), = py[0].items()
        (mx, vx), = px[0].items()
        if vy != vx:
            return None
        for e, c, s in self.angles.values():
            dy, dx = dict(my), dict(mx)
            i, j = s.get_id(), c.get_id()
            if dy.get(i, 0) < 1 or dx.get(j, 0) < 1:
                continue
            dy[i] -= 1
            dx[j] -= 1
            if {a: k for a, k in dy.items() if k} != {a: k for a, k in dx.items() if k}:
                continue
            k = real_val(vy)
            for a, n in dy.items():
                for _ in range(n):
                    k = k * self.poly().atoms[a]
            if self.must(k > 0):
                return mk(e, "f")
        return None

    def _linear(self, t):
        """cos, sin of an integer combination of angles plus a constant"""
        p = self.poly().of(t)
        c, s = z3.RealVal(1), z3.RealVal(0)
        for m, v in p.items():
            if m == ():
                c2, s2 = real_val(math.cos(float(v))), real_val(math.sin(float(v)))
                n, sg = 1, 1
            else:
                if len(m) != 1 or m[0][1] != 1 or m[0][0] not in self.angles or \
                        v.denominator != 1 or abs(v) > 3:
                    return None
                _, c2, s2 = self.angles[m[0][0]]
                n, sg = abs(int(v)), (1 if v > 0 else -1)
            for _ in range(n):
                c, s = c * c2 - sg * s * s2, s * c2 + sg * c * s2
        return z3.simplify(c), z3.simplify(s)

    def trig(self, t):
        key = t.get_id()
        r = self.trigmemo.get(key)
        if r is None and self.angles:
            cs = self._linear(t)
            if cs is not None:
                self.keep.append(t)
                self.trigmemo[key] = r = (cs[0], cs[1], t)
        if r is None:
            self.counter += 1
            c, s = z3.Real(f"!cos{self.counter}"), z3.Real(f"!sin{self.counter}")
            self.keep.append(t)
            self.trigmemo[key] = r = (c, s, t)
            self.axiom(c * c + s * s == 1)
            self.axiom(z3.And(c <= 1, c >= -1, s <= 1, s >= -1))
        return r

    def set_trig(self, x, c, s):
        """declare cos(x)=c, sin(x)=s for chosen terms."""
        sg, t = _canon(x)
        self.keep.append(t)
        self.trigmemo[t.get_id()] = (to_kind(c, "f"),
                                     to_kind(s if sg > 0 else neg(s), "f"), t)

    def atan2(self, y, x):
        ey, ex = to_kind(y, "f"), to_kind(x, "f")
        key = ("atan2", ey.get_id(), ex.get_id())
        r = self.memo.get(key)
        if r is None:
            self.keep += [ey, ex]
            t = uf("atan2", y, x)
            self.memo[key] = r = t
            # contract: r cos t = x, r sin t = y with r = hypot >= 0
            rad = sqrt_(add(mul(y, y), mul(x, x)))
            c, s = self.trig(_canon(t)[1])[:2]
            if _canon(t)[0] < 0:
                s = -s
            self.axiom(z3.And(to_kind(rad, "f") * c == ex, to_kind(rad, "f") * s == ey))
        return r

    def _check(self, *extra, kind="branch_queries"):
        t0 = time.time()
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.time() - t0
        self.stats[kind] += 1
        return r

    def must(self, e):
        return self._check(z3.Not(e)) == z3.unsat

    def _known(self, e):
        """value of e under the cached model of the path condition, or None."""
        if self.mod is None:
            return None
        v = self.mod.eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def _sat(self, e):
        r = self._check(e)
        if r == z3.sat:
            self.newmod = self.solver.model()
        return r

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.trail):
            v = self.trail[self.pos][0][-1]
            self.pos += 1
            self.add(e if v else z3.Not(e))
            self.mod = None
            return v
        if self.deadline and time.time() > self.deadline:
            raise Deadline("deadline")
        ne = z3.Not(e)
        known = self._known(e)
        mt = mf = None
        if known is True:
            rt, mt = z3.sat, self.mod
        else:
            rt = self._sat(e)
            if rt == z3.sat:
                mt = self.newmod
        if known is False:
            rf, mf = z3.sat, self.mod
        elif rt == z3.unsat:
            rf = z3.sat if self.mod is not None else self._sat(ne)
            mf = self.mod if self.mod is not None else getattr(self, "newmod", None)
        else:
            rf = self._sat(ne)
            if rf == z3.sat:
                mf = self.newmod
        if rt == z3.unsat and rf == z3.unsat:
            raise PathDone()
        if z3.unknown in (rt, rf):
            self.stats["branch_unknown"] += 1
        if rt == z3.unsat:
            opts = [False]
        elif rf == z3.unsat:
            opts = [True]
        else:
            opts = [False, True]  # last is taken first
            self.stats["forks"] += 1
        self.trail.append([opts])
        self.pos += 1
        v = opts[-1]
        self.add(e if v else ne)
        self.mod = mt if v else mf
        return v

    def concretize(self, x, limit=4000):
        """fork over every feasible value of an integer/bool term."""
        if not isinstance(x, Sym):
            return int(x)
        if x.k == "b":
            return self.branch(x.e)
        e = z3.simplify(x.e)
        if z3.is_int_value(e):
            return e.as_long()
        if self.pos < len(self.trail):
            v = self.trail[self.pos][0][-1]
            self.pos += 1
            self.add(e == v)
            self.mod = None
            return v
        if self.deadline and time.time() > self.deadline:
            raise Deadline("deadline")
        vals = []
        self.solver.push()
        while True:
            r = self._check()
            if r != z3.sat:
                if r == z3.unknown:
                    self.solver.pop()
                    raise Unsupported("unknown while enumerating")
                break
            v = self.solver.model().eval(e, model_completion=True).as_long()
            vals.append(v)
            if len(vals) > limit:
                self.solver.pop()
                raise Unsupported("too many values for index")
            self.solver.add(e != v)
        self.solver.pop()
        if not vals:
            raise PathDone()
        vals.sort(reverse=True)
        if len(vals) > 1:
            self.stats["forks"] += len(vals) - 1
        self.trail.append([vals])
        self.pos += 1
        self.add(e == vals[-1])
        self.mod = None
        return vals[-1]

    def assume(self, c):
        c = _tob(c) if isinstance(c, Sym) else c
        if not isinstance(c, Sym):
            if not c:
                raise PathDone()
            return
        self.add(c.e)
        if self.pos >= len(self.trail) and self._known(c.e) is not True:
            r = self._check()
            if r == z3.unsat:
                raise PathDone()
            self.mod = self.solver.model() if r == z3.sat else None

    def model_values(self, m):
        out = {}
        for n, (e, k) in self.inputs.items():
            v = m.eval(e, model_completion=True)
            if k == "b":
                out[n] = bool(z3.is_true(v))
            elif k == "i":
                out[n] = v.as_long()
            else:
                if z3.is_algebraic_value(v):
                    v = v.approx(30)
                f = v.as_fraction()
                out[n] = float(f)
                if e.get_id() in self.angles:
                    _, c, s = self.angles[e.get_id()]
                    c, s = [m.eval(x, model_completion=True) for x in (c, s)]
                    c, s = [x.approx(30) if z3.is_algebraic_value(x) else x for x in (c, s)]
                    out[n] = math.atan2(float(s.as_fraction()), float(c.as_fraction()))
        return out

    def query_cex(self, bad, prefer=None):
        """sat model of pc & bad, or None; counts an obligation."""
        self.stats["obligations"] += 1
        t0 = time.time()
        self.stats["queries"] += 1
        if prefer is not None:
            r = self.solver.check(bad, prefer)
            if r == z3.sat:
                self.stats["solver_s"] += time.time() - t0
                return self.model_values(self.solver.model())
        for g in self._guesses():
            self.solver.set("timeout", 2000)
            r = self.solver.check(bad, *g)
            self.solver.set("timeout", self.timeout_ms)
            if r == z3.sat:
                self.stats["solver_s"] += time.time() - t0
                return self.model_values(self.solver.model())
        r = self.solver.check(bad)
        if r == z3.unknown:
            s2 = z3.SolverFor("QF_NRA")
            s2.set("timeout", self.timeout_ms * 2)
            s2.add(*self.pc)
            s2.add(bad)
            r = s2.check()
            self.stats["solver_s"] += time.time() - t0
            if r == z3.sat:
                return self.model_values(s2.model())
        else:
            self.stats["solver_s"] += time.time() - t0
        if r == z3.sat:
            return self.model_values(self.solver.model())
        if r == z3.unknown:
            self.stats["unknown"] += 1
            return "unknown"
        return None

    def _guesses(self):
        """angles fixed at points with rational cosine and sine (finding a model is then linear)"""
        if not self.angles:
            return
        ts = [Fraction(a, b) for a, b in ((1, 2), (1, 3), (2, 3), (1, 4), (-1, 3), (2, 5), (-1, 2),
                                          (1, 5), (-2, 3), (3, 4), (-1, 5), (3, 5))]
        for k in range(4):
            out = []
            for j, (e, c, s) in enumerate(self.angles.values()):
                t = ts[(j * (k + 1) + 3 * k) % len(ts)]
                d = 1 + t * t
                cc, ss = (1 - t * t) / d, 2 * t / d
                out += [c == z3.RealVal(str(cc)), s == z3.RealVal(str(ss))]
            yield out

    def path_model(self):
        r = self._check()
        if r != z3.sat:
            return None
        return self.model_values(self.solver.model())

    def next_path(self):
        """advance the trail; False when exhausted."""
        while self.trail:
            self.trail[-1][0].pop()
            if self.trail[-1][0]:
                return True
            self.trail.pop()
        return False
