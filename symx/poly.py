"""Polynomial normal form of z3 real terms, modulo sin^2 = 1 - cos^2.

Used to decide identities between rotated vectors exactly (the ideal of the
relations c_i^2 + s_i^2 = 1 has these as a Groebner basis, so the normal form
of an identity is 0), and to bound what is left by the ranges of the variables
(the rounding of concrete cosines).  Anything else goes to the solver.
"""
from fractions import Fraction

import z3

LIMIT = 60000


class TooBig(Exception):
    pass


class Poly:
    def __init__(self, sinmap):
        self.sinmap = sinmap  # sin atom id -> cos atom id
        self.atoms = {}
        self.memo = {}

    def of(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self.memo[i] = self._of(e)
            self.atoms.setdefault(("keep", i), e)
        return r

    def _of(self, e):
        if z3.is_rational_value(e) or z3.is_int_value(e):
            v = e.as_fraction() if z3.is_rational_value(e) else Fraction(e.as_long())
            return {(): v} if v else {}
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            out = {}
            for c in ch:
                self._acc(out, self.of(c), 1)
            return out
        if k == z3.Z3_OP_SUB:
            out = dict(self.of(ch[0]))
            for c in ch[1:]:
                self._acc(out, self.of(c), -1)
            return out
        if k == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in self.of(ch[0]).items()}
        if k == z3.Z3_OP_MUL:
            out = {(): Fraction(1)}
            for c in ch:
                out = self.mul(out, self.of(c))
            return out
        if k == z3.Z3_OP_DIV:
            d = self.of(ch[1])
            if set(d) == {()}:
                return {m: v / d[()] for m, v in self.of(ch[0]).items()}
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and \
                ch[1].as_fraction() in (2, 3, 4):
            b = self.of(ch[0])
            out = b
            for _ in range(int(ch[1].as_fraction()) - 1):
                out = self.mul(out, b)
            return out
        if k == z3.Z3_OP_TO_REAL and z3.is_int_value(ch[0]):
            return self.of(ch[0])
        i = e.get_id()
        self.atoms[i] = e
        return {((i, 1),): Fraction(1)}

    @staticmethod
    def _acc(out, p, sg):
        for m, v in p.items():
            w = out.get(m, 0) + sg * v
            if w:
                out[m] = w
            else:
                out.pop(m, None)

    def mul(self, p, q):
        out = {}
        if len(p) * len(q) > 40 * LIMIT:
            raise TooBig()
        for m1, v1 in p.items():
            for m2, v2 in q.items():
                d = dict(m1)
                for a, n in m2:
                    d[a] = d.get(a, 0) + n
                self._red(out, d, v1 * v2)
        if len(out) > LIMIT:
            raise TooBig()
        return out

    def _red(self, out, d, v):
        for a in d:
            if d[a] >= 2 and a in self.sinmap:
                # s^n -> s^(n-2) (1 - c^2)
                d1 = dict(d)
                d1[a] -= 2
                if not d1[a]:
                    del d1[a]
                self._red(out, dict(d1), v)
                c = self.sinmap[a]
                d1[c] = d1.get(c, 0) + 2
                self._red(out, d1, -v)
                return
        m = tuple(sorted(d.items()))
        w = out.get(m, 0) + v
        if w:
            out[m] = w
        else:
            out.pop(m, None)

    def bound(self, p, bounds):
        """upper bound of |p|, or None"""
        t = 0.0
        for m, v in p.items():
            x = abs(float(v))
            for a, n in m:
                b = bounds.get(a)
                if b is None:
                    return None
                x *= b ** n
            t += x
        return t

    def expr(self, p):
        terms = []
        for m, v in p.items():
            f = [z3.RealVal(str(v))] + [self.atoms[a] for a, n in m for _ in range(n)]
            terms.append(z3.Product(*f) if len(f) > 1 else f[0])
        return z3.Sum(*terms) if terms else z3.RealVal(0)
