"""Cython source -> Python source, for symbolic execution of the .pyx kernels.

Types are dropped except that stores into typed arrays keep the array dtype
(unsigned stores reduce modulo the width).  C integers are mathematical
integers otherwise (assumption: no intermediate overflow in the bounds used).
"""
import re
import types

import numpy as np


def _split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            depth += 1
        elif ch in ")]}":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def _arg(a):
    a = a.strip()
    if a.startswith("*"):
        return a
    name, eq, default = a.partition("=")
    if "[" in name and eq and name.count("[") != name.count("]"):
        # '=' inside a type parameter such as numpy.ndarray[dtype=..., ndim=2] x
        m = re.match(r"(.*\])\s*(\w+)\s*(=\s*(.*))?$", a, re.S)
        return m.group(2) + (f"={m.group(4)}" if m.group(4) else "")
    ids = re.findall(r"\w+", name.split("]")[-1])
    return ids[-1] + (f"={default.strip()}" if eq else "")


def translate(src):
    src = src.replace("\t", "    ")
    # function headers (may span lines)
    pat = re.compile(
        r"^([ ]*)(cpdef|cdef|def)[ ]+(?!class\b)((?:inline[ ]+)?[^\n(=]*?(?:\[[^\]\n]*(?:\[[^\]\n]*\])?[^\]\n]*\])?[^\n(=]*?)\b(\w+)[ ]*\(",
        re.M)
    out, pos = [], 0
    for m in pat.finditer(src):
        if m.start() < pos:
            continue
        i, depth = m.end(), 1
        while depth:
            depth += {"(": 1, ")": -1}.get(src[i], 0)
            i += 1
        tail = re.match(r"[ ]*(nogil|noexcept|except[^:\n]*|[ ])*[ ]*:", src[i:])
        if not tail:
            continue
        args = ", ".join(_arg(a) for a in _split_args(src[m.end():i - 1]))
        out.append(src[pos:m.start()])
        out.append(f"{m.group(1)}def {m.group(4)}({args}):")
        pos = i + tail.end()
    out.append(src[pos:])
    src = "".join(out)
    lines = src.split("\n")
    res = []
    n = 0
    fused = None
    while n < len(lines):
        ln = lines[n]
        ind = len(ln) - len(ln.lstrip())
        st = ln.strip()
        n += 1
        if fused is not None:
            if st and ind <= fused:
                fused = None
            else:
                continue
        if st.startswith("ctypedef"):
            fused = ind
            continue
        if re.match(r"(cimport|from .* cimport)\b", st) or st == "numpy.import_array()" or \
                st.startswith("@cython") or st.startswith("from cython"):
            continue
        if st.startswith("cdef class"):
            res.append(" " * ind + st[5:])
            continue
        if st.startswith("cdef readonly") or st.startswith("cdef public"):
            continue
        if st.startswith("with nogil"):
            res.append(" " * ind + "if True:")
            continue
        if st.startswith("cdef "):
            # gather continuation lines
            while ln.count("(") > ln.count(")") or ln.count("[") > ln.count("]"):
                ln += "\n" + lines[n]
                n += 1
            st = ln.strip()
            body = st[5:]
            # type part: up to the last '=' that is outside brackets
            depth, eqpos = 0, None
            for i, ch in enumerate(body):
                if ch in "([":
                    depth += 1
                elif ch in ")]":
                    depth -= 1
                elif ch == "=" and depth == 0:
                    eqpos = i
                    break
            if eqpos is not None:
                name = re.findall(r"\w+", body[:eqpos].split("]")[-1])[-1]
                res.append(" " * ind + f"{name} = {body[eqpos + 1:].strip()}")
            else:
                for d in _split_args(body):
                    a = re.search(r"(\w+)\[(\d+)\]\s*$", d)
                    if a:
                        res.append(" " * ind + f"{a.group(1)} = [0] * {a.group(2)}")
                res.append(" " * ind + "pass")
            continue
        res.append(ln)
    src = "\n".join(res)
    src = re.sub(r"<\s*[\w.]+\s*\*?>\s*", "", src)
    src = re.sub(r"(?<=[(,\s])&(?=\w)", "", src)
    src = re.sub(r",\s*nogil\s*=\s*True", "", src)
    return src


class NumpyShim:
    """the C-API names the kernels use"""

    NPY_FLOAT64, NPY_UINT64, NPY_INT64 = np.float64, np.uint64, np.int64
    NPY_BOOL, NPY_FLOAT32, NPY_INT32 = np.bool_, np.float32, np.int32
    NPY_ARRAY_OUT_ARRAY = 0
    __sx_aware__ = True

    def __getattr__(self, name):
        return getattr(np, name)

    @staticmethod
    def PyArray_EMPTY(ndim, dims, t, f):
        from . import arr as A
        return A._filled(tuple(dims), "empty", np.dtype(t))

    @staticmethod
    def PyArray_ZEROS(ndim, dims, t, f):
        from . import arr as A
        return A._filled(tuple(dims), 0, np.dtype(t))

    @staticmethod
    def PyArray_Arange(a, b, c, t):
        from . import arr as A
        return A.promote(np.arange(a, b, c).astype(t))

    @staticmethod
    def PyArray_Reshape(a, sh):
        return a.reshape(sh)

    @staticmethod
    def PyArray_Squeeze(a):
        return a.squeeze()

    @staticmethod
    def PyArray_NDIM(a):
        return a.ndim

    @staticmethod
    def PyArray_FROMANY(a, t, lo, hi, f):
        from . import arr as A
        return A.a_asarray(a, t)


def namespace():
    from . import core as C

    return {
        "numpy": NumpyShim(), "cos": C.cos_, "sin": C.sin_, "sqrt": C.sqrt_,
        "atan2": C.arctan2_, "exp": C.exp_, "fabs": C._abs, "pi": np.pi, "PI": np.pi,
        "prange": range, "NULL": None,
    }


MODULES = {
    "pyuvdata.utils._bls": "utils/bls.pyx",
    "pyuvdata.utils._coordinates": "utils/coordinates.pyx",
    "pyuvdata.utils._phasing": "utils/phasing.pyx",
    "pyuvdata.uvbeam._uvbeam": "uvbeam/uvbeam.pyx",
    "pyuvdata.uvdata._corr_fits": "uvdata/corr_fits.pyx",
}
