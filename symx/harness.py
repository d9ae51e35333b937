"""What a property harness sees: the same harness runs in two modes.

Symbolic mode (``SymS``): inputs are solver variables, ``prove``/``same`` ask
the solver for a counterexample on the current path.
Concrete mode (``ConcS``): inputs are the values of a model; the harness runs
on the ordinary, un-instrumented pyuvdata and reports whether anything failed.
"""
import warnings

import numpy as np

TOL = 1e-4


class AssumeFailed(BaseException):
    pass


class Violated(BaseException):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


CASES = {}  # property id -> list of Case


class Case:
    def __init__(self, prop, name, fn, params, tier, bounds):
        self.prop, self.name, self.fn, self.params = prop, name, fn, params
        self.tier, self.bounds = tier, bounds


def case(prop, name=None, tier="quick", bounds="", **params):
    """Register a harness; ``params`` values are lists, expanded as a product."""
    import itertools

    def deco(fn):
        nm = name or fn.__name__
        keys = list(params)
        for combo in itertools.product(*[params[k] for k in keys]):
            p = dict(zip(keys, combo))
            tag = nm + ("[" + ",".join(f"{k}={v}" for k, v in p.items()) + "]" if p else "")
            CASES.setdefault(prop, []).append(Case(prop, tag, fn, p, tier, bounds))
        return fn

    return deco


_FIX = {}


def fixture(fn):
    """Concrete object built once per process; each use gets a deep copy."""
    import copy
    import functools

    @functools.wraps(fn)
    def get(*a, **k):
        key = (fn.__module__, fn.__qualname__, a, tuple(sorted(k.items())))
        if key not in _FIX:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                _FIX[key] = fn(*a, **k)
        return copy.deepcopy(_FIX[key])

    return get


class _Base:
    symbolic = False

    # arrays -------------------------------------------------------------
    def reals(self, name, shape, lo=-100, hi=100):
        return self._array(name, shape, np.float64, lambda n: self.real(n, lo, hi))

    def ints(self, name, shape, lo, hi):
        return self._array(name, shape, np.int64, lambda n: self.int(n, lo, hi))

    def bools(self, name, shape):
        return self._array(name, shape, np.bool_, self.bool)

    def cplxs(self, name, shape, lim=100):
        return self._array(name, shape, np.complex128, lambda n: self.cplx(n, lim))

    def _array(self, name, shape, dt, mk):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            o[idx] = mk(name + "_" + "_".join(map(str, idx)))
        return self._wrap(o, dt)

    def choice(self, name, options):
        """one of the options, every one of them explored"""
        return options[self.pick(name, len(options))]

    def perm(self, name, n):
        """an arbitrary permutation of range(n), all explored"""
        left, out = list(range(n)), []
        for i in range(n - 1):
            out.append(left.pop(self.pick(f"{name}{i}", len(left))))
        return out + left

    def subset(self, name, n, minsize=0):
        sel = [i for i in range(n) if self.pick(f"{name}{i}", 2)]
        self.assume(len(sel) >= minsize)
        return sel

    def scratch(self):
        """a new directory, removed afterwards (use with ``with``)"""
        import tempfile

        return tempfile.TemporaryDirectory(prefix="symx_scratch_")

    def raises(self, fn, *exc):
        """the exception fn raised if it is one of exc, else None"""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fn()
        except exc or (Exception,) as err:
            return err
        return None

    def fail(self, msg):
        self.prove(False, msg)


class ConcS(_Base):
    def __init__(self, values):
        self.values = values
        self.used = set()
        self.obligations = 0
        self.obs = []

    def _v(self, name, default):
        self.used.add(name)
        return self.values.get(name, default)

    def real(self, name, lo=-100, hi=100):
        v = float(self._v(name, min(max(0.0, lo), hi)))
        self.assume(lo <= v <= hi)
        return v

    def angle(self, name, lo=-3.14, hi=3.14):
        return float(self._v(name, 0.2 + sum(ord(c) * (i + 1) for i, c in enumerate(name)) % 97 / 40))

    def int(self, name, lo, hi):
        v = int(self._v(name, lo))
        self.assume(lo <= v <= hi)
        return v

    def bool(self, name):
        return bool(self._v(name, False))

    def cplx(self, name, lim=100):
        return complex(self.real(name + ".re", -lim, lim), self.real(name + ".im", -lim, lim))

    def pick(self, name, n):
        return self.int(name, 0, n - 1)

    def _wrap(self, o, dt):
        return o.astype(dt)

    def assume(self, c):
        if not bool(np.all(c)):
            raise AssumeFailed()

    def prove(self, c, msg):
        self.obligations += 1
        if not bool(np.all(c)):
            raise Violated(msg)

    def same(self, a, b, msg, tol=TOL):
        self.obligations += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise Violated(f"{msg}: shape {a.shape} != {b.shape}")
        if a.dtype.kind in "biufc" and b.dtype.kind in "biufc":
            if a.dtype.kind in "biu" and b.dtype.kind in "biu":
                bad = a != b
            else:
                af, bf = a.astype(complex), b.astype(complex)
                with np.errstate(all="ignore"):
                    bad = np.abs(af - bf) > tol / 2
                nan_a, nan_b = np.isnan(af), np.isnan(bf)
                inf = np.isinf(af) | np.isinf(bf)
                bad = np.where(nan_a | nan_b, nan_a != nan_b, np.where(inf, af != bf, bad))
        else:
            bad = a != b
        if np.any(bad):
            i = tuple(int(q[0]) for q in np.nonzero(np.atleast_1d(bad)))
            raise Violated(f"{msg}: at {i}: got {np.atleast_1d(a)[i]!r}, "
                           f"expected {np.atleast_1d(b)[i]!r}")

    def cover(self, msg):
        pass


class SymS(_Base):
    symbolic = True

    def __init__(self, eng):
        self.eng = eng
        self.reached = 0
        self.covered = set()

    def scratch(self):
        from . import fitsx

        fitsx.reset()
        return super().scratch()

    def _in(self, name, e, k):
        if name in self.eng.inputs:
            raise AssertionError(f"duplicate input {name}")
        self.eng.inputs[name] = (e, k)
        self.eng.mod = None

    def real(self, name, lo=-100, hi=100):
        import z3

        from . import core as C
        e = z3.Real(name)
        self._in(name, e, "f")
        self.eng.add(z3.And(e >= C.real_val(lo), e <= C.real_val(hi)))
        self.eng.bounds[e.get_id()] = max(abs(float(lo)), abs(float(hi)))
        return C.SymNum(e, "f")

    def angle(self, name, lo=-3.14, hi=3.14):
        """an angle whose cosine and sine matter; never equal to another one or to 0"""
        from . import core as C
        e = self.eng.angle(name, lo, hi)
        self._in(name, e, "f")
        return C.SymNum(e, "f")

    def int(self, name, lo, hi):
        import z3

        from . import core as C
        e = z3.Int(name)
        self._in(name, e, "i")
        self.eng.add(z3.And(e >= int(lo), e <= int(hi)))
        return C.SymNum(e, "i")

    def bool(self, name):
        import z3

        from . import core as C
        e = z3.Bool(name)
        self._in(name, e, "b")
        return C.SymNum(e, "b")

    def cplx(self, name, lim=100):
        from . import core as C
        return C.SymC(self.real(name + ".re", -lim, lim), self.real(name + ".im", -lim, lim))

    def pick(self, name, n):
        return self.eng.concretize(self.int(name, 0, n - 1))

    def _wrap(self, o, dt):
        from . import arr as A
        return A.wrap(o, dt)

    def assume(self, c):
        import z3

        from . import arr as A, core as C
        if isinstance(c, A.SymArray):
            c = A.f_all(c)
        elif isinstance(c, np.ndarray):
            c = bool(c.all())
        self.eng.assume(c)

    def _allof(self, c):
        from . import arr as A, core as C
        if isinstance(c, A.SymArray):
            c = A.f_all(c)
        elif isinstance(c, np.ndarray):
            c = bool(c.all())
        if isinstance(c, C.Sym):
            c = C._tob(c)
        return c

    def prove(self, c, msg):
        import z3

        from . import core as C
        self.reached += 1
        c = self._allof(c)
        if not isinstance(c, C.Sym):
            self.eng.stats["obligations"] += 1
            if not c:
                self._found(msg, z3.BoolVal(True))
            return
        self._query(z3.Not(c.e), msg)

    def _query(self, bad, msg, robust=None):
        import z3

        from . import core as C
        bad = z3.simplify(bad)
        if z3.is_false(bad):
            self.eng.stats["obligations"] += 1
            return
        r = self.eng.query_cex(bad, robust)
        if r is None:
            return
        if r == "unknown":
            self.eng.unknown_msgs.append(msg)
            return
        raise C.Found(msg, self.models(bad, r))

    def models(self, bad, first, n=6):
        """a few different counterexamples, for replay"""
        import z3
        out = [first]
        s = self.eng.solver
        for i in range(n - 1):
            s.push()
            s.add(bad)
            s.set("timeout", 3000)
            # move away from previous values where possible
            cons = []
            for j, (nm, (e, k)) in enumerate(self.eng.inputs.items()):
                v = out[-1].get(nm)
                if k == "f" and v is not None:
                    cons.append(e != z3.RealVal(repr(float(v))) if i % 2 else
                                z3.Or(e > z3.RealVal(repr(v + 0.37 * (i + 1))),
                                      e < z3.RealVal(repr(v - 0.29 * (i + 1)))))
            got = None
            for frac in (1, 2, 4, 16):
                sub = cons[i % frac::frac]
                if s.check(*sub) == z3.sat:
                    got = self.eng.model_values(s.model())
                    break
            s.pop()
            if got is None:
                break
            out.append(got)
        s.set("timeout", self.eng.timeout_ms)
        return out

    def _found(self, msg, bad):
        from . import core as C
        m = self.eng.path_model()
        if m is None:
            raise C.PathDone()
        raise C.Found(msg, self.models(bad, m, 3))

    def same(self, a, b, msg, tol=TOL):
        import z3

        from . import arr as A, core as C
        self.reached += 1
        pa = a if isinstance(a, np.ndarray) else A.as_sym(a)
        pb = b if isinstance(b, np.ndarray) else A.as_sym(b)
        if pa.shape != pb.shape:
            return self._found(f"{msg}: shape {pa.shape} != {pb.shape}", z3.BoolVal(True))
        if pa.dtype.kind not in "biufc" or pb.dtype.kind not in "biufc":
            self.eng.stats["obligations"] += 1
            if not np.all(pa == pb):
                self._found(msg, z3.BoolVal(True))
            return
        oa, ob = A.objarr(pa), A.objarr(pb)
        disj = []
        t = C.real_val(tol)
        for x, y in zip(oa.flat, ob.flat):
            disj += _diff(x, y, t, tol)
        if any(d is True for d in disj):
            return self._found(msg, z3.BoolVal(True))
        if not disj:
            self.eng.stats["obligations"] += 1
            return
        self._query(z3.Or(*disj), msg)

    def cover(self, msg):
        self.covered.add(msg)


def _diff(x, y, t, tol):
    """list of z3 'differs' conditions (or [True]) for one element pair."""
    import z3

    from . import core as C
    if x is y:
        return []
    kx, ky = C.kind_of(x), C.kind_of(y)
    if not C._issym(x, y):
        if kx in "bi" and ky in "bi":
            return [] if x == y else [True]
        fx, fy = complex(x), complex(y)
        if fx != fx or fy != fy:
            return [] if (fx != fx) == (fy != fy) else [True]
        if fx == fy or abs(fx - fy) <= tol:
            return []
        return [True]
    if "c" in (kx, ky):
        r1, i1, p1 = C.cparts(x)
        r2, i2, p2 = C.cparts(y)
        if p1 is not None or p2 is not None:
            if not C._same(p1 if p1 is not None else 0.0, p2 if p2 is not None else 0.0):
                r1, i1 = x.flat() if isinstance(x, C.SymC) else (r1, i1)
                r2, i2 = y.flat() if isinstance(y, C.SymC) else (r2, i2)
        return _diff(r1, r2, t, tol) + _diff(i1, i2, t, tol)
    if C.is_special(x) or C.is_special(y):
        return [True]
    k = kx if C._ORDER[kx] >= C._ORDER[ky] else ky
    ex, ey = C.to_kind(x, k), C.to_kind(y, k)
    if k in "bi":
        d = z3.simplify(ex != ey)
        return [] if z3.is_false(d) else [d]
    d = z3.simplify(ex - ey)
    if z3.is_rational_value(d):
        return [] if abs(float(d.as_fraction())) <= tol else [True]
    if C.E().small(d, tol / 4):
        return []
    return [z3.Or(d > t, d < -t)]
