"""Combining UVData objects."""
import numpy as np
from symx.harness import case

from . import common as cm

P = "C03"
B = ("up to 3 baseline-times x 3 channels (1-2 windows) x 4 polarizations in the union; every way "
     "of sharing keys between the two objects, every order of the second object's keys; all "
     "visibilities, flags and weights symbolic")

BL = [(1, 3, 0), (1, 7, 0), (3, 7, 1)]


def _pair(S, ub, uc, up, tag="", perm=True):
    """two objects that together cover the union of keys"""
    def split(name, keys):
        if len(keys) == 1:
            return list(keys), list(keys)
        a, b = [], []
        for i, k in enumerate(keys):
            w = S.pick(f"{name}{i}", 3)
            if w != 1:
                a.append(k)
            if w != 0:
                b.append(k)
        S.assume(len(a) > 0 and len(b) > 0)
        return a, b

    def shuf(name, keys):
        if not perm or len(keys) == 1:
            return keys
        return [keys[i] for i in S.perm(name, len(keys))]

    ba, bb = split("b", ub)
    ca, cb = split("c", uc)
    pa, pb = split("p", up)
    cb = shuf("oc", cb)
    spw = [c // 10 for c in cb]
    S.assume(all(spw[i] == spw[i - 1] or spw[i] not in spw[:i] for i in range(1, len(spw))))
    x = cm.keyed(tuple(shuf("oa", ba)), tuple(ca), tuple(pa))
    y = cm.keyed(tuple(shuf("ob", bb)), tuple(cb), tuple(shuf("op", pb)))
    return cm.sym(S, x, "x"), cm.sym(S, y, "y")


def _combine(S, x, y, how="add"):
    sx, sy = cm.Source(x), cm.Source(y)
    ob = [b for b in sx.b if b in sy.bi]
    oc = [c for c in sx.c if c in sy.ci]
    op = [p for p in sx.p if p in sy.pi]
    over = [(b, c, p) for b in ob for c in oc for p in op]
    if how == "iadd":
        def f():
            z = x
            z += y
            out.append(z)
    elif how == "inplace":
        def f():
            x.__add__(y, inplace=True)
            out.append(x)
    else:
        def f():
            out.append(x + y)
    out = []
    err = S.raises(f, ValueError)
    blank = all(bool((sx.at(*k)[0] == 0) & sx.at(*k)[1]) for k in over)
    if over and not blank:
        S.prove(err is not None, "overlapping data combined")
        return
    S.prove(err is None, f"refused: {err}")
    res = out[0]
    over = set(over)
    cm.check_keyed(S, res, [sx, sy], list(dict.fromkeys(sx.b + sy.b)), list(dict.fromkeys(sx.c + sy.c)),
                   list(dict.fromkeys(sx.p + sy.p)), "sum",
                   elem=lambda b, c, p: sy.at(b, c, p) if (b, c, p) in over else None)
    S.prove(res.check(), "result passes its checks")
    if how == "add":
        S.same(x.data_array, sx.d, "first operand changed")
        S.prove(cm.blt_keys(x) == sx.b, "first operand reordered")
    S.same(y.data_array, sy.d, "second operand changed")
    S.prove(cm.blt_keys(y) == sy.b and cm.chan_keys(y) == sy.c, "second operand reordered")


@case(P, bounds=B, how=["add"])
def blts(S, how):
    x, y = _pair(S, BL, [0], [-5])
    _combine(S, x, y, how)


@case(P, bounds=B)
def blts_freqs(S):
    x, y = _pair(S, BL[:2], [0, 1], [-5])
    _combine(S, x, y)


@case(P, bounds=B)
def blts_pols(S):
    x, y = _pair(S, BL[:2], [0], [-5, -6])
    _combine(S, x, y, "inplace")


@case(P, bounds=B, chans=[(0, 1, 2), (0, 1, 10), (0, 10, 11), (0, 1, 10, 11)])
def freqs(S, chans):
    x, y = _pair(S, BL[:1], list(chans), [-5])
    _combine(S, x, y)


@case(P, bounds=B)
def pols(S):
    x, y = _pair(S, BL[:1], [0], [-5, -6, -7])
    _combine(S, x, y, "iadd")


@case(P, bounds=B)
def freqs_pols(S):
    x, y = _pair(S, BL[:1], [0, 1], [-5, -6])
    _combine(S, x, y)


@case(P, bounds=B, axis=["blt", "freq", "polarization"], n=[2, 3])
def fast_concat(S, axis, n):
    """blind concatenation joins the pieces in the order given"""
    u = {"blt": [BL, [0, 10], [-5]], "freq": [BL[:1], [1, 0, 10], [-5, -6]],
         "polarization": [BL[:2], [0], [-6, -5, -7]]}[axis]
    ax = ["blt", "freq", "polarization"].index(axis)
    keys = [u[ax][i] for i in S.perm("o", 3)]
    if axis == "freq":
        S.assume(keys[1] != 10)
    parts = [keys[:1], keys[1:]] if n == 2 else [[k] for k in keys]
    objs = []
    for i, k in enumerate(parts):
        v = list(u)
        v[ax] = k
        objs.append(cm.sym(S, cm.keyed(*[tuple(q) for q in v]), f"o{i}"))
    srcs = [cm.Source(o) for o in objs]
    inplace = bool(S.pick("inplace", 2))
    if n == 2 and S.pick("aslist", 2) == 0:
        r = objs[0].fast_concat(objs[1], axis, inplace=inplace)
    else:
        r = objs[0].fast_concat(objs[1:], axis, inplace=inplace)
    r = objs[0] if inplace else r
    order = [srcs[0].b, srcs[0].c, srcs[0].p]
    nm = ["b", "c", "p"][ax]
    order[ax] = [k for s in srcs for k in getattr(s, nm)]
    cm.check_keyed(S, r, srcs, order[0], order[1], order[2], "concatenation", order=order)
    if not inplace:
        S.same(objs[0].data_array, srcs[0].d, "first object changed")
    S.same(objs[1].data_array, srcs[1].d, "second object changed")


@case(P, bounds=B)
def metadata_only(S):
    x, y = _pair(S, BL[:2], [0, 1], [-5], perm=False)
    for o in (x, y):
        o.data_array = o.flag_array = o.nsample_array = None
    sx, sy = cm.Source(x, True), cm.Source(y, True)
    err = S.raises(lambda: x.__iadd__(y), ValueError)
    S.prove(err is None, f"refused: {err}")
    cm.check_keyed(S, x, [sx, sy], list(dict.fromkeys(sx.b + sy.b)), list(dict.fromkeys(sx.c + sy.c)),
                   list(dict.fromkeys(sx.p + sy.p)), "sum")


@case(P, bounds=B, what=["freq", "blt", "pol"])
def mismatch(S, what):
    """objects that disagree on a shared key are not combined"""
    x = cm.sym(S, cm.keyed(tuple(BL[:2]), (0, 1), (-5,)), "x")
    y = cm.sym(S, cm.keyed(tuple(BL[:2]), (2,) if what != "blt" else (2, 3), (-5,)), "y")
    d = S.real("d", -10, 10)
    big = abs(d) > 0.01
    if what == "freq":
        y = cm.sym(S, cm.keyed(((3, 7, 1),), (0, 1), (-5,)), "z")
        cw = S._wrap(np.array([1e6 + d * 1000.0, 1e6], dtype=object), np.float64)
        y.channel_width = cw
    elif what == "blt":
        it = [o for o in y.integration_time]
        it[1] = it[1] + d
        y.integration_time = S._wrap(np.array(it, dtype=object), np.float64)
    else:
        y.vis_units = "Jy"
        big = True
    S.assume(big)
    err = S.raises(lambda: x + y, ValueError)
    S.prove(err is not None, f"combined although {what} metadata differ")
