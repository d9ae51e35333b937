"""Reordering the axes of UVData moves whole entries and changes nothing else."""
import numpy as np
from symx.harness import case

from . import common as cm

P = "C04"
B = ("objects of up to 6 baseline-times, 3 channels in up to 2 windows, 4 polarizations; every "
     "initial order (permutation) of the axis, every option; visibilities, flags, weights symbolic")


def _obj(S, blts, freqs=(0,), pols=(-5,), rect=None, scan=True):
    u = cm.keyed(tuple(blts), tuple(freqs), tuple(pols))
    if scan:
        u.scan_number_array = np.array([100 + 10 * t + a for a, b, t in blts])
    if rect is None:
        rect = S.pick("rect", 2)
    if rect:
        u.set_rectangularity()
    return cm.sym(S, u)


def _check(S, u, src, order, msg, lookups=True):
    cm.check_keyed(S, u, [src], src.b, src.c, src.p, msg, order=order)
    if u.scan_number_array is not None:
        S.prove([int(x) for x in u.scan_number_array] == [100 + 10 * t + a for a, b, t in cm.blt_keys(u)],
                f"{msg}: scan numbers")
    S.same(np.asarray(u.phase_center_id_array), np.array([0] * len(src.b)), f"{msg}: phase center ids")
    cm.check_layout(S, u, msg, lookups)


SETS = {
    "rect": [(1, 3, 0), (1, 3, 1), (1, 7, 0), (1, 7, 1)],
    "irr": [(3, 1, 0), (1, 7, 1), (7, 12, 0), (3, 1, 1)],
    "auto": [(1, 1, 0), (1, 1, 1), (1, 3, 0), (1, 3, 1)],
}


def _key(u, order, minor):
    """documented sort keys, from the object's own metadata"""
    bl = {}
    it = {}
    for k, b, i in zip(cm.blt_keys(u), u.baseline_array, u.integration_time):
        bl[k] = int(b)
        it[k] = float(i)
    f = {"time": lambda k: k[2], "baseline": lambda k: bl[k], "ant1": lambda k: k[0],
         "ant2": lambda k: k[1], "bda": lambda k: it[k]}
    default = {"time": "baseline", "baseline": "time", "ant1": "ant2", "ant2": "ant1", "bda": "baseline"}
    m = minor or default[order]
    return lambda k: (f[order](k), f[m](k))


ORDERS = [(o, m) for o in ("time", "baseline", "ant1", "ant2") for m in
          (None, "time", "baseline", "ant1", "ant2") if not (o == "baseline" and m in ("ant1", "ant2"))]
ORDERS.append(("bda", None))


@case(P, bounds=B, which=["rect", "irr"], om=["time", "baseline", "ant1", "ant2", "bda"])
def blts_named(S, which, om):
    keys = SETS[which]
    start = [keys[i] for i in S.perm("p", len(keys))]
    o, m = S.choice("om", [x for x in ORDERS if x[0] == om])
    u = _obj(S, start, rect=None)
    if S.pick("touch", 2):
        u.antpair2ind(3, 1)  # fills the lookup cache
        u.get_antpairs()
    src = cm.Source(u)
    k = _key(u, o, m if m != o else None)
    u.reorder_blts(o, minor_order=m)
    got = cm.blt_keys(u)
    S.prove([k(x) for x in got] == sorted(k(x) for x in got), f"sorted by {o}, {m}: {got}")
    _check(S, u, src, None, f"reorder_blts({o}, {m})")
    if o == "bda":
        S.prove(u.blt_order == ("bda",), "blt_order")
    else:
        mm = m if m != o else None
        S.prove(u.blt_order == (o, mm or {"time": "baseline", "baseline": "time", "ant1": "ant2",
                                          "ant2": "ant1"}[o]), f"blt_order {u.blt_order}")


@case(P, bounds=B, order=["time", "baseline", "ant1"])
def blts_autos_first(S, order):
    keys = SETS["auto"]
    start = [keys[i] for i in S.perm("p", len(keys))]
    u = _obj(S, start)
    src = cm.Source(u)
    k = _key(u, order, None)
    u.reorder_blts(order, autos_first=True)
    got = cm.blt_keys(u)
    S.prove([x[0] == x[1] for x in got] == [True, True, False, False], f"autos first: {got}")
    S.prove(got == sorted(got, key=lambda x: (x[0] != x[1], k(x))), f"sorted within: {got}")
    _check(S, u, src, None, f"reorder_blts({order}, autos_first)")


@case(P, bounds=B, which=["rect", "irr"])
def blts_index(S, which):
    keys = SETS[which]
    u = _obj(S, keys, pols=(-5, -6))
    if S.pick("named", 2):
        u.reorder_blts("time")
    src = cm.Source(u)
    p = S.perm("p", len(keys))
    form = S.pick("form", 3)
    u.reorder_blts([list, tuple, np.array][form](p))
    _check(S, u, src, ([src.b[i] for i in p], src.c, src.p), "reorder_blts(index)")
    S.prove(u.blt_order is None, "blt_order")


@case(P, bounds=B)
def blts_meta(S):
    """metadata-only objects"""
    keys = SETS["irr"]
    start = [keys[i] for i in S.perm("p", len(keys))]
    u = _obj(S, start)
    src = cm.Source(u)
    v = u.copy(metadata_only=True)
    o = S.choice("o", ["time", "baseline", "ant1", "ant2"])
    u.reorder_blts(o)
    v.reorder_blts(o)
    S.prove(cm.blt_keys(u) == cm.blt_keys(v), "metadata only: same order")
    for nm in cm.BLT_META + ["scan_number_array"]:
        S.same(getattr(v, nm), getattr(u, nm), nm)
    cm.check_layout(S, v, "metadata only")
    S.same(np.array([src.b.index(b) for b in cm.blt_keys(v)]),
           np.array([src.b.index(b) for b in cm.blt_keys(u)]), "entries")


@case(P, bounds=B, conv=["ant1<ant2", "ant2<ant1"])
def blts_conj(S, conv):
    """conj_convention conjugates and then sorts by the new baselines"""
    keys = SETS["irr"]
    start = [keys[i] for i in S.perm("p", len(keys))]
    u = _obj(S, start, pols=(-5, -7, -8))
    src = cm.Source(u)
    u.reorder_blts("time", conj_convention=conv)
    got = cm.blt_keys(u)
    swap = {-5: -5, -7: -8, -8: -7}
    rows = []
    for i, (a, b, t) in enumerate(got):
        S.prove(a < b if conv == "ant1<ant2" else b < a, f"{conv}: {got}")
        if (a, b, t) in src.bi:
            j = src.bi[(a, b, t)]
            S.same(u.data_array[i], src.d[j], f"{conv} data, kept orientation")
            S.same(u.flag_array[i], src.f[j], f"{conv} flags, kept orientation")
            S.same(u.uvw_array[i], src.meta["uvw_array"][j], "uvw")
            continue
        j = src.bi[(b, a, t)]
        S.same(u.uvw_array[i], -src.meta["uvw_array"][j], "uvw")
        for p in src.p:
            q = src.pi[swap[p]]
            S.same(u.data_array[i, :, src.pi[p]], np.conj(src.d[j, :, q]), f"{conv} data")
            S.same(u.flag_array[i, :, src.pi[p]], src.f[j, :, q], f"{conv} flags")
            S.same(u.nsample_array[i, :, src.pi[p]], src.n[j, :, q], f"{conv} nsamples")
    k = _key(u, "time", None)
    S.prove(got == sorted(got, key=k), f"sorted {got}")
    cm.check_layout(S, u, conv)


FR = (0, 2, 11, 13)  # two windows


@case(P, bounds=B, spw=["number", "-number", "freq", "-freq", "index", None],
      chan=["freq", "-freq", None])
def freqs_named(S, spw, chan):
    """window and channel order"""
    # windows in either order, channels in any order within, window 2 above or below window 1
    lo = S.pick("lo", 2)
    k1 = (0, 2) if lo else (8, 9)
    k2 = (11, 13) if lo else (10, 11)
    if S.pick("s1", 2):
        k1 = k1[::-1]
    if S.pick("s2", 2):
        k2 = k2[::-1]
    start = k1 + k2 if S.pick("sw", 2) else k2 + k1
    u = cm.keyed(((1, 3, 0), (1, 7, 1)), start, (-5,), shift=not lo)
    eq = S.pick("eq", 2)
    if eq:
        u.eq_coeffs = np.array([[100.0 * a + f / 1e6 for f in u.freq_array] for a in range(4)])
        u.eq_coeffs_convention = "divide"
    cm.sym(S, u)
    src = cm.Source(u)
    old_spw = [int(s) for s in u.spw_array]
    arg = spw
    if spw == "index":
        arg = S.perm("si", 2)
    u.reorder_freqs(spw_order=arg, channel_order=chan)
    got = cm.chan_keys(u)
    ws = list(dict.fromkeys(s for s, _ in got))
    if spw == "number":
        S.prove(ws == sorted(ws), "windows by number")
    elif spw == "-number":
        S.prove(ws == sorted(ws)[::-1], "windows by -number")
    elif spw in ("freq", "-freq"):
        mean = {w: np.mean([f for s, f in src.c if s == w]) for w in ws}
        S.prove(ws == sorted(ws, key=lambda w: mean[w] * (1 if spw == "freq" else -1)), "windows by freq")
    elif spw == "index":
        S.prove(ws == [old_spw[i] for i in arg], "windows by index")
    else:
        S.prove(ws == old_spw, "windows unchanged")
    for w in ws:
        f0 = [f for s, f in src.c if s == w]
        f1 = [f for s, f in got if s == w]
        exp = f0 if chan is None else sorted(f0, reverse=chan == "-freq")
        S.prove(f1 == exp, f"channels of window {w}: {f1}")
    S.prove([int(s) for s in u.spw_array] == ws, f"spw_array {u.spw_array}")
    cm.check_keyed(S, u, [src], src.b, src.c, src.p, "reorder_freqs", order=(src.b, got, src.p))
    if eq:
        S.same(u.eq_coeffs, np.array([[100.0 * a + f / 1e6 for s, f in got] for a in range(4)]), "eq_coeffs")


@case(P, bounds=B)
def freqs_select(S):
    """only the selected windows are sorted"""
    u = cm.sym(S, cm.keyed(((1, 3, 0),), (1, 0, 11, 12, 10), (-5,)))
    src = cm.Source(u)
    sel = S.choice("sel", [1, 2, [1], [2], (1, 2), np.array([2, 1])])
    ch = S.choice("ch", ["freq", "-freq"])
    u.reorder_freqs(channel_order=ch, select_spw=sel)
    want = []
    for w in (1, 2):
        f = [k for k in src.c if k[0] == w]
        if w in np.atleast_1d(sel):
            f = sorted(f, reverse=ch == "-freq")
        want += f
    cm.check_keyed(S, u, [src], src.b, src.c, src.p, "reorder_freqs(select_spw)", order=(src.b, want, src.p))


@case(P, bounds=B)
def freqs_index(S):
    u = cm.sym(S, cm.keyed(((1, 3, 0), (1, 7, 0)), (0, 1, 2, 3), (-5, -6)))
    src = cm.Source(u)
    p = S.perm("p", 4)
    u.reorder_freqs(channel_order=S.choice("form", [list, tuple, np.array])(p))
    cm.check_keyed(S, u, [src], src.b, src.c, src.p, "reorder_freqs(index)",
                   order=(src.b, [src.c[i] for i in p], src.p))


@case(P, bounds=B)
def freqs_bad(S):
    """index arrays that are not permutations are refused and nothing changes"""
    u = cm.sym(S, cm.keyed(((1, 3, 0),), (0, 1, 10), (-5,)))
    src = cm.Source(u)
    n = S.choice("n", [2, 3])
    idx = [S.int(f"i{k}", -1, 3) for k in range(n)]
    idx = [int(i) for i in idx]
    err = S.raises(lambda: u.reorder_freqs(channel_order=idx), ValueError)
    S.prove((err is None) == (sorted(idx) == [0, 1, 2]), f"index {idx}: {err}")
    if err is not None:
        cm.check_keyed(S, u, [src], src.b, src.c, src.p, "refused", order=(src.b, src.c, src.p))


POLSETS = {"lin": [-5, -6, -7, -8], "circ": [-1, -2, -3, -4], "stokes": [1, 2, 3, 4], "lin2": [-5, -8, -6]}
CASA = {-5: 0, -7: 1, -8: 2, -6: 3, -1: 0, -3: 1, -4: 2, -2: 3, 1: 0, 2: 1, 3: 2, 4: 3}


@case(P, bounds=B, which=list(POLSETS))
def pols(S, which):
    ps = POLSETS[which]
    start = [ps[i] for i in S.perm("p", len(ps))]
    u = cm.sym(S, cm.keyed(((1, 3, 0), (1, 7, 0)), (0,), tuple(start)))
    if S.pick("touch", 2):
        u.get_data(1, 3, int(start[0]))
    src = cm.Source(u)
    o = S.choice("o", ["AIPS", "CASA", "index"])
    if o == "index":
        p = S.perm("q", len(ps))
        want = [start[i] for i in p]
        u.reorder_pols(S.choice("form", [list, np.array])(p))
    else:
        u.reorder_pols(o)
        want = sorted(start, key=(lambda q: abs(q)) if o == "AIPS" else (lambda q: CASA[q]))
    cm.check_keyed(S, u, [src], src.b, src.c, src.p, f"reorder_pols({o})", order=(src.b, src.c, want))
    for q in start:
        S.same(u.get_data(1, 3, int(q), squeeze="none"), src.d[0:1, :, src.pi[q]:src.pi[q] + 1],
               "get_data after reordering")
