"""Getting and setting the data of a baseline / polarization."""
import numpy as np
from symx.harness import case

from . import common as cm

P = "C06"
B = ("up to 5 baseline-times (baselines in one or both orientations, autos), every polarization set "
     "listed, every key form; visibilities, flags, weights symbolic")
CONJ = {-5: -5, -6: -6, -7: -8, -8: -7, -1: -1, -2: -2, -3: -4, -4: -3, 1: 1, 2: 2, 3: 3, 4: 4}
STR = {-5: "xx", -6: "yy", -7: "xy", -8: "yx", -1: "rr", -2: "ll", -3: "rl", -4: "lr",
       1: "pI", 2: "pQ", 3: "pU", 4: "pV"}
ENSTR = {-5: "ee", -6: "nn", -7: "en", -8: "ne"}
LAY = {
    "rect_tb": [(1, 3, 0), (7, 1, 0), (1, 3, 1), (7, 1, 1)],
    "rect_bt": [(1, 3, 0), (1, 3, 1), (7, 1, 0), (7, 1, 1)],
    "both": [(3, 1, 0), (1, 3, 0), (1, 7, 0), (1, 3, 1), (3, 1, 1)],
    "both2": [(3, 1, 0), (1, 3, 1)],
    "autos": [(1, 1, 0), (3, 1, 0), (1, 1, 1), (3, 1, 2), (3, 3, 1)],
}
PS = [(-5,), (-7,), (-7, -8), (-8, -7, -5), (-5, -6, -7, -8), (-5, -7, -8, -6), (1, 2), (-1, -4, -3)]


def _obj(S, which, pols, freqs=(0, 1)):
    u = cm.keyed(tuple(LAY[which]), tuple(freqs), tuple(pols))
    if S.pick("rect", 2):
        u.set_rectangularity()
    return cm.sym(S, u)


def _rows(src, a, b, pol):
    """(blt, pol indices, conjugated) in the order the data should come"""
    out = []
    pols = src.p if pol is None else [pol]
    fwd = [i for i, k in enumerate(src.b) if k[:2] == (a, b)]
    rev = [i for i, k in enumerate(src.b) if k[:2] == (b, a)] if a != b else []
    okf = all(p in src.pi for p in pols)
    okr = all(CONJ[p] in src.pi for p in pols)
    if fwd and okf:
        out += [(i, [src.pi[p] for p in pols], False) for i in fwd]
    if rev and okr:
        out += [(i, [src.pi[CONJ[p]] for p in pols], True) for i in rev]
    return out


def _exp(S, src, rows, arr, conj):
    o = []
    for i, ps, c in rows:
        for f in range(len(src.c)):
            for p in ps:
                v = arr[i, f, p]
                o.append(np.conj(v) if (c and conj) else v)
    return o


@case(P, bounds=B, which=list(LAY), pols=PS)
def get(S, which, pols, every=False):
    u = _obj(S, which, pols)
    src = cm.Source(u)
    a, b = S.choice("ap", [(1, 3), (3, 1), (1, 7), (7, 1), (1, 1), (3, 7)])
    pol = S.choice("pol", [None] + sorted({p for q in pols for p in (q, CONJ[q])}) + [-6])
    form = S.pick("form", 5 if pol is not None else 3)
    bl = int(u.antnums_to_baseline(a, b))
    if pol is None:
        key = [(a, b), ((a, b),), (bl,)][form]
    else:
        st = STR[pol]
        key = [(a, b, pol), ((a, b, st),), ((a, b), pol), (a, b, st),
               (a, b, ENSTR.get(pol, st).upper())][form]
    rows = _rows(src, a, b, pol)
    if not rows:
        sq, copy = "default", False
    elif not every:
        sq, copy = S.choice("sq", [("default", False), ("none", True), ("full", False)])
    else:
        sq = S.choice("sq", ["default", "none", "full"])
        copy = bool(S.pick("fc", 2))
    kw = dict(squeeze=sq, force_copy=copy)
    out = {}

    def run():
        out["d"] = u.get_data(*key, **kw)
        out["f"] = u.get_flags(*key, **kw)
        out["n"] = u.get_nsamples(*key, **kw)
        out["t"] = u.get_times(*key)
        out["l"] = u.get_lsts(*key)
    err = S.raises(run, KeyError)
    S.prove((err is not None) == (not rows), f"get {key}: {err}")
    if not rows:
        return
    shape = (len(rows), len(src.c), len(rows[0][1]))
    if sq == "default" and shape[2] == 1:
        shape = shape[:2]
    elif sq == "full":
        shape = tuple(n for n in shape if n > 1)
    for k, arr, dt in (("d", src.d, np.complex128), ("f", src.f, np.bool_), ("n", src.n, np.float64)):
        S.prove(out[k].shape == shape, f"get {key} {sq}: shape {out[k].shape}, expected {shape}")
        S.same(out[k].reshape(-1), cm.stack(S, _exp(S, src, rows, arr, k == "d"), dt),
               f"get {key}: {k}")
    S.same(out["t"], np.array([u.time_array[i] for i, _, _ in rows]), "times", tol=1e-6)
    S.same(out["l"], np.array([u.lst_array[i] for i, _, _ in rows]), "lsts", tol=1e-7)
    # a second call (cached) agrees
    S.same(u.get_data(*key, **kw), out["d"], "second call")


@case(P, bounds=B, which=list(LAY), pols=PS, tier="thorough")
def get_every(S, which, pols):
    """all combinations of squeeze and force_copy"""
    get(S, which, pols, every=True)


@case(P, bounds=B, pols=PS)
def get_pol(S, pols):
    """a polarization alone: everything of that polarization, in order"""
    u = _obj(S, "autos", pols)
    src = cm.Source(u)
    pol = S.choice("pol", sorted(set(pols)) + [-6])
    key = S.choice("form", [pol, STR[pol]])
    out = []
    err = S.raises(lambda: out.append(u.get_data(key)), KeyError)
    S.prove((err is None) == (pol in pols), f"{key}: {err}")
    if err is None:
        S.same(out[0], src.d[:, :, src.pi[pol]], "data")
        S.same(u.get_flags(key), src.f[:, :, src.pi[pol]], "flags")
        S.same(u.get_nsamples(key, squeeze="none"), src.n[:, :, src.pi[pol]:src.pi[pol] + 1], "nsamples")
        S.same(u.get_times(key), u.time_array, "times", tol=1e-6)


@case(P, bounds=B, which=list(LAY))
def antpair(S, which):
    """antpair2ind returns exactly the entries of the pair (or of both orientations)"""
    u = _obj(S, which, (-5,), (0,))
    K = [k[:2] for k in cm.blt_keys(u)]
    for rep in range(2):
        for a, b in [(1, 3), (3, 1), (1, 7), (7, 1), (1, 1), (3, 3), (7, 12)]:
            o = bool(S.pick(f"o{rep}{a}{b}", 2)) if rep == 0 else True
            ind = u.antpair2ind((a, b), ordered=o) if rep else u.antpair2ind(a, b, ordered=o)
            got = [] if ind is None else [int(i) for i in np.arange(len(K))[ind]]
            want = [i for i, k in enumerate(K) if k == (a, b)]
            if not o and a != b:
                want += [i for i, k in enumerate(K) if k == (b, a)]
            S.prove(got == want, f"antpair2ind({a},{b},ordered={o}) = {ind}")
    cm.check_layout(S, u, which)
    S.prove(u.get_antpairpols() == [k + (p,) for k in u.get_antpairs() for p in u.get_pols()],
            "get_antpairpols")


@case(P, bounds=B, which=["rect_tb", "both", "autos"])
def iterate(S, which):
    """antpairpol_iter covers every baseline and polarization once"""
    u = _obj(S, which, (-5, -7, -8), (0,))
    src = cm.Source(u)
    seen = []
    num = {v: k for k, v in ENSTR.items()}
    for key, d in u.antpairpol_iter(squeeze="none"):
        a, b, p = key
        seen.append((a, b, num[p]))
        rows = _rows(src, a, b, num[p])
        S.same(d.reshape(-1), cm.stack(S, _exp(S, src, rows, src.d, True), np.complex128), f"{key}")
    S.prove(sorted(seen) == sorted({(k[0], k[1], p) for k in src.b for p in src.p}), "keys")


@case(P, bounds=B, which=["rect_tb", "rect_bt", "autos", "both"], pols=[(-5,), (-7, -8), (-5, -7, -8, -6)])
def setters(S, which, pols):
    """set_* writes exactly the addressed elements; conjugated keys and wrong shapes are refused"""
    u = _obj(S, which, pols)
    src = cm.Source(u)
    a, b = S.choice("ap", [(1, 3), (3, 1), (7, 1), (1, 1)])
    pol = S.choice("pol", [None] + sorted(pols))
    fwd = [i for i, k in enumerate(src.b) if k[:2] == (a, b)]
    rev = [i for i, k in enumerate(src.b) if k[:2] == (b, a)] if a != b else []
    if pol is not None and CONJ[pol] not in pols:
        rev = []
    ps = list(range(len(pols))) if pol is None else [src.pi[pol]]
    shape = (len(fwd), len(src.c), len(ps))
    bad = S.pick("bad", 2)
    if bad:
        shape = (shape[0] + 1,) + shape[1:]
    key = (a, b) if pol is None else S.choice("form", [(a, b, pol), (a, b, STR[pol]), ((a, b), pol)])
    d, f, n = S.cplxs("nd", shape), S.bools("nf", shape), S.reals("nn", shape, 0, 9)

    def run():
        u.set_data(d, *key)
        u.set_flags(f, *key)
        u.set_nsamples(n, *key)
    err = S.raises(run, KeyError, ValueError)
    S.prove((err is None) == (not bad and not rev and bool(fwd)), f"set {key}: {err}")
    for got, old, new in ((u.data_array, src.d, d), (u.flag_array, src.f, f), (u.nsample_array, src.n, n)):
        want = old.copy()
        if err is None:
            for x, i in enumerate(fwd):
                for y, p in enumerate(ps):
                    want[i, :, p] = new[x, :, y]
        S.same(got, want, f"set {key}")


@case(P, bounds=B)
def invalidate(S):
    """lookups follow the object after it is reordered, conjugated or selected"""
    u = cm.keyed(tuple(LAY["rect_tb"]), (0,), (-5, -7, -8))
    u.set_rectangularity()
    cm.sym(S, u)
    # warm the caches
    u.get_data(1, 3)
    u.get_data(7, 1, -7)
    u.antpair2ind(1, 7, ordered=False)
    op = S.choice("op", ["reorder_blts", "reorder_pols", "conjugate", "select_t", "select_p", "select_bl",
                         "add"])
    if op == "reorder_blts":
        u.reorder_blts(S.perm("p", 4))
    elif op == "reorder_pols":
        u.reorder_pols(S.perm("p", 3))
    elif op == "conjugate":
        u.conjugate_bls(S.subset("c", 4, 1))
    elif op == "select_t":
        u.select(times=[u.time_array[S.pick("t", 4)]])
    elif op == "select_p":
        u.select(polarizations=S.choice("sp", [[-5], [-7, -8]]))
    elif op == "select_bl":
        u.select(blt_inds=S.subset("b", 4, 1))
    else:
        v = cm.keyed(((1, 7, 2), (3, 1, 2)), (0,), (-5, -7, -8))
        u += cm.sym(S, v, "v")
    src = cm.Source(u)
    for a, b in ((1, 3), (7, 1), (3, 1)):
        for pol in (None, -7):
            rows = _rows(src, a, b, pol)
            key = (a, b) if pol is None else (a, b, pol)
            out = []
            err = S.raises(lambda: out.append(u.get_data(*key, squeeze="none")), KeyError)
            S.prove((err is None) == bool(rows), f"{op}: get {key}: {err}")
            if rows:
                S.same(out[0].reshape(-1), cm.stack(S, _exp(S, src, rows, src.d, True), np.complex128),
                       f"{op}: get {key}")
    cm.check_layout(S, u, op)
