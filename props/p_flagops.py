"""Flag objects: selecting, concatenating, combining, and applying flags to data."""
import itertools

import numpy as np
from symx.harness import case

from pyuvdata import UVFlag
from pyuvdata.utils import apply_uvflag

from . import common as cm
from .p_flag import LAY, arr, combine, expect, fill, quiet, tkey

P = "C14"
B = ("up to 6 baseline-times or 3 antennas x 3 times, 4 channels in 2 spectral windows, 3 polarizations; flags, metrics "
     "and weights symbolic; every subset and several orders of each axis")
BLTS = ((1, 3, 0), (7, 1, 0), (3, 7, 0), (7, 1, 1), (1, 3, 2))


def mk(S, kind, mode, blts=BLTS, freqs=(0, 1), times=(1, 0, 2), pols=(-5, -6), ants=(7, 1, 3), tag="", wsq=False):
    if kind == "antenna":
        f = quiet(UVFlag, cm.cal(freqs=freqs, times=times, jones=pols, ants=ants), mode=mode)
    elif kind == "baseline":
        f = quiet(UVFlag, cm.keyed(blts, freqs, pols), mode=mode)
    else:
        f = quiet(UVFlag, cm.keyed(tuple((1, 3, t) for t in sorted(times)), freqs, pols), mode=mode, waterfall=True)
        o = [sorted(times).index(t) for t in times]
        f.time_array = f.time_array[o]
        f.lst_array = f.lst_array[o]
    fill(S, f, tag)
    if wsq:
        f.weights_square_array = S.reals(tag + "s", f.metric_array.shape, 0, 10)
    return f


def keys(f):
    """row keys (baseline-times, or times), antenna keys, channels, polarizations"""
    if f.type == "baseline":
        rows = list(zip((int(a) for a in f.ant_1_array), (int(b) for b in f.ant_2_array), (tkey(t) for t in f.time_array)))
    else:
        rows = [tkey(t) for t in f.time_array]
    ants = [int(a) for a in f.ant_array] if f.type == "antenna" else [None]
    ch = [(int(s), float(x), float(w)) for s, x, w in zip(f.flex_spw_id_array, f.freq_array, f.channel_width)]
    return rows, ants, ch, [int(p) for p in f.polarization_array]


def table(f, names=None):
    """everything the object says, by key"""
    rows, ants, ch, pols = keys(f)
    out = {}
    if names is None:
        names = ["flag_array"] if f.mode == "flag" else ["metric_array", "weights_array", "weights_square_array"]
    for nm in names:
        v = getattr(f, nm)
        if v is None:
            continue
        for (i, r), (a, n), (c, x), (p, q) in itertools.product(*(enumerate(k) for k in (rows, ants, ch, pols))):
            out[nm, r, n, x, q] = v[a, c, i, p] if f.type == "antenna" else v[i, c, p]
    lst = dict(zip(rows, (float(x) for x in f.lst_array)))
    return (rows, ants, ch, pols), out, lst


def consistent(S, f, want, vals, lst, msg, order=None):
    (rows, ants, ch, pols), got, glst = table(f)
    for have, exp, what in zip((rows, ants, ch, pols), want, ("rows", "antennas", "channels", "polarizations")):
        S.prove(sorted(have, key=str) == sorted(exp, key=str), f"{msg}: {what} {have} expected {exp}")
    S.prove(set(k[0] for k in got) == set(k[0] for k in vals), f"{msg}: arrays present")
    for k, v in got.items():
        S.same(v, vals[k], f"{msg}: {k[0]} value of its place")
    for r in rows:
        S.prove(glst[r] == lst[r], f"{msg}: lst")
    times = {r[2] for r in rows} if f.type == "baseline" else set(rows)
    S.prove(f.Ntimes == len(times) and f.Nfreqs == len(ch) and f.Npols == len(pols), f"{msg}: sizes")
    S.prove([int(s) for s in f.spw_array] == list(dict.fromkeys(c[0] for c in ch)) and
            f.Nspws == len({c[0] for c in ch}), f"{msg}: spectral windows")
    if f.type == "baseline":
        S.prove(f.Nblts == len(rows) and f.Nbls == len({r[:2] for r in rows}) and
                f.Nants_data == len({a for r in rows for a in r[:2]}), f"{msg}: counts")
        for r, bl in zip(rows, f.baseline_array):
            S.prove(int(f.antnums_to_baseline(r[0], r[1])) == int(bl), f"{msg}: baseline numbers")
    if f.type == "antenna":
        S.prove(f.Nants_data == len(ants), f"{msg}: Nants_data")


KINDS = ["waterfall", "baseline", "antenna"]


# ---------------------------------------------------------------------------- select
@case(P, bounds=B, kind=KINDS, mode=["flag", "metric"], what=["freq", "pol", "row", "ant"])
def select(S, kind, mode, what):
    pols = (-5, -7, -6) if kind != "antenna" else (-5, -6)
    freqs = (0, 1, 10) if what == "freq" else (0,)
    f = mk(S, kind, mode, freqs=freqs, pols=pols if what == "pol" else (-5,), blts=BLTS[1:] if what == "row" else BLTS)
    (rows, ants, ch, pol), vals, lst = table(f)
    before = f.copy()
    kw = {}
    if what == "freq":
        sub = S.subset("fc", 3, 1)
        how = S.choice("how", ["chan", "freq", "both"])
        fr = [c[1] for c in ch]
        kw = {"chan": dict(freq_chans=sub[::-1]), "freq": dict(frequencies=[fr[i] for i in sub]),
              "both": dict(freq_chans=sub[:1], frequencies=[fr[i] for i in sub[1:]] or [fr[sub[0]]])}[how]
        ch = [ch[i] for i in sub]
    elif what == "pol":
        sub = S.subset("p", len(pol), 1)
        name = {-5: "xx", -6: "nn" if kind != "antenna" else "Jnn", -7: "en"}
        if kind == "antenna":
            name[-5] = "Jxx"
        if S.pick("str", 2) and kind != "antenna":
            kw["polarizations"] = [name[pol[i]] for i in sub]
        else:
            kw["polarizations"] = [pol[i] for i in sub][::-1]
        pol = [pol[i] for i in sub]
    elif what == "row":
        how = S.choice("how", ["inds", "times", "both"])
        ts = sorted({r[2] if kind == "baseline" else r for r in rows})
        t = [ts[i] for i in S.subset("t", len(ts), 1)] if how != "inds" else ts
        ti = S.subset("i", len(rows), 1) if how != "times" else list(range(len(rows)))
        if how != "times":
            kw["blt_inds"] = ti[::-1]
        jd = {tkey(x): float(x) for x in f.time_array}
        if how != "inds":
            kw["times"] = [jd[x] for x in t]
        rows = [r for i, r in enumerate(rows) if i in ti and (r[2] if kind == "baseline" else r) in t]
    else:
        if kind == "waterfall":
            S.prove(S.raises(lambda: f.select(antenna_nums=[1, 3]), ValueError) is not None, "no antennas in a waterfall")
            S.prove(S.raises(lambda: f.select(bls=[(1, 3)]), ValueError) is not None, "no baselines in a waterfall")
            return
        if kind == "antenna":
            sub = S.subset("a", 3, 1)
            if S.pick("inds", 2):
                kw["ant_inds"] = sub
            else:
                kw["antenna_nums"] = [ants[i] for i in sub][::-1]
            ants = [ants[i] for i in sub]
        else:
            how = S.choice("how", ["ants", "bls", "both"])
            ok = lambda r: True
            if how != "bls":
                an = [(1, 3, 7)[i] for i in S.subset("a", 3, 1)]
                kw["antenna_nums"] = an
                ok = lambda r: r[0] in an and r[1] in an
            ok2 = lambda r: True
            if how != "ants":
                prs = [(1, 3), (7, 1), (3, 7)]
                b = [prs[i] for i in S.subset("b", 3, 1)]
                flip = S.pick("flip", 2)
                kw["bls"] = [x[::-1] for x in b] if flip else b
                ok2 = lambda r: r[:2] in b
            rows = [r for r in rows if ok(r) and ok2(r)]
    inplace = bool(S.pick("inplace", 2))
    res = []
    err = S.raises(lambda: res.append(quiet(f.select, inplace=inplace, **kw)), ValueError)
    if not rows:
        S.prove(err is not None, "empty selection refused")
        return
    S.prove(err is None, f"selection refused: {err}")
    out = f if inplace else res[0]
    consistent(S, out, (rows, ants, ch, pol), vals, lst, "select")
    if not inplace:
        S.same(arr(f), arr(before), "original untouched")
        S.same(f.time_array, before.time_array, "original untouched")


@case(P, bounds=B)
def select_bls_pols(S):
    """three-element baselines select polarizations, conjugated when the baseline is stored reversed"""
    f = mk(S, "baseline", "flag", freqs=(0,), pols=(-5, -7, -8))
    (rows, ants, ch, pol), vals, lst = table(f)
    b = S.choice("bl", [(1, 3), (7, 1)])
    p = S.choice("pol", ["xx", "xy", "yx"])
    n = {"xx": -5, "xy": -7, "yx": -8}
    flip = S.pick("flip", 2)
    arg = (b[1], b[0], {"xy": "yx", "yx": "xy"}.get(p, p)) if flip else b + (p,)
    if S.pick("list", 2):
        quiet(f.select, bls=[arg])
    elif S.pick("str", 2):
        quiet(f.select, ant_str=f"{b[0]}_{b[1]}")
        consistent(S, f, ([r for r in rows if r[:2] == b], ants, ch, pol), vals, lst, "ant_str")
        return
    else:
        quiet(f.select, bls=arg)
    consistent(S, f, ([r for r in rows if r[:2] == b], ants, ch, [n[p]]), vals, lst, "bls with polarizations")


# ---------------------------------------------------------------------------- add
def add_pair(S, kind, mode, axis, wsq=False):
    k1, k2 = {}, {}
    if axis == "time":
        if kind == "baseline":
            k1["blts"] = ((1, 3, 2), (7, 1, 2))
            k2["blts"] = ((1, 3, 0), (7, 1, 0))
        else:
            k1["times"], k2["times"] = (2, 0), (3, 1)
    elif axis == "baseline":
        k1["blts"] = ((1, 3, 1), (7, 1, 0))
        k2["blts"] = ((3, 7, 1), (7, 7, 0))
    elif axis == "antenna":
        k1["ants"], k2["ants"] = S.choice("ants", [((7,), (3, 1)), ((3, 1), (7,))])
    elif axis == "frequency":
        k1["freqs"], k2["freqs"] = S.choice("freqs", [((0, 1), (2,)), ((2,), (0, 1)), ((10,), (0, 1)), ((0, 10), (11,)),
                                                      ((0,), (10, 11))])
    else:
        k1["pols"], k2["pols"] = S.choice("pols", [((-6,), (-5,)), ((-5, -6), (-7,)), ((-7,), (-5, -8))])
    if axis != "frequency":
        k1["freqs"] = k2["freqs"] = (0,)
    if kind != "baseline":
        for k in (k1, k2):
            k.setdefault("times", (1, 0))
    for k in (k1, k2):
        k.setdefault("blts", BLTS[:3]) if kind == "baseline" else None
        k.setdefault("pols", (-5,))
    x = mk(S, kind, mode, tag="x", wsq=wsq, **k1)
    y = mk(S, kind, mode, tag="y", wsq=wsq, **k2)
    return x, y


AX = [("waterfall", "time"), ("waterfall", "frequency"), ("waterfall", "polarization"), ("baseline", "time"),
      ("baseline", "baseline"), ("baseline", "frequency"), ("baseline", "pol"), ("antenna", "time"),
      ("antenna", "antenna"), ("antenna", "frequency"), ("antenna", "jones")]


@case(P, bounds=B, kx=AX, mode=["flag", "metric"])
def add(S, kx, mode):
    """concatenation along one axis holds both objects' values at their own places"""
    kind, axis = kx
    x, y = add_pair(S, kind, mode, axis, wsq=mode == "metric" and kind == "waterfall" and axis == "time" and
                    bool(S.pick("wsq", 2)))
    (r1, a1, c1, p1), v1, l1 = table(x)
    (r2, a2, c2, p2), v2, l2 = table(y)
    oy, ox = y.copy(), x.copy()
    if axis == "antenna":
        x.telescope.antenna_diameters = np.array([10.0, 11.0, 12.0, 13.0][:x.telescope.Nants])
        y.telescope.antenna_diameters = x.telescope.antenna_diameters.copy()
        tel = {int(n): (str(s), tuple(q), float(d)) for n, s, q, d in zip(
            x.telescope.antenna_numbers, x.telescope.antenna_names, x.telescope.antenna_positions,
            x.telescope.antenna_diameters)}
        if S.pick("shuffle", 2):
            o = np.arange(y.telescope.Nants)[::-1]
            for nm in ("antenna_numbers", "antenna_names", "antenna_positions", "antenna_diameters"):
                setattr(y.telescope, nm, np.asarray(getattr(y.telescope, nm))[o])
    how = S.choice("how", ["new", "inplace", "iadd"])
    if how == "new":
        r = quiet(x.__add__, y, axis=axis)
    else:
        quiet(x.__iadd__ if how == "iadd" else x.__add__, y, axis=axis, **({} if how == "iadd" else {"inplace": True}))
        r = x
    union = lambda a, b: a + [k for k in b if k not in a]
    rows, ants, ch, pol = union(r1, r2), union(a1, a2), union(c1, c2), union(p1, p2)
    consistent(S, r, (rows, ants, ch, pol), {**v1, **v2}, {**l1, **l2}, f"add {axis}")
    S.prove(r.type == kind and r.mode == mode, "type and mode")
    S.same(arr(y), arr(oy), "second operand untouched")
    if how == "new":
        S.same(arr(x), arr(ox), "first operand untouched")
        S.same(x.time_array, ox.time_array, "first operand untouched")
    if axis == "antenna":
        got = {int(n): (str(s), tuple(q), float(d)) for n, s, q, d in zip(
            r.telescope.antenna_numbers, r.telescope.antenna_names, r.telescope.antenna_positions,
            r.telescope.antenna_diameters)}
        S.prove(got == tel and r.telescope.Nants == len(tel), "antenna table")


@case(P, bounds=B, kx=AX)
def add_refuses(S, kx):
    """objects that differ in another axis, type or mode are not concatenated"""
    kind, axis = kx
    x, y = add_pair(S, kind, "flag", axis)
    bad = S.choice("bad", ["freq_array", "channel_width", "polarization_array", "time_array", "lst_array", "mode", "location",
                           "name", "spw"])
    own = {"time": ("time_array", "lst_array"), "frequency": ("freq_array", "channel_width", "spw"),
           "polarization": ("polarization_array",), "pol": ("polarization_array",), "jones": ("polarization_array",)}
    S.assume(bad not in own.get(axis, ()))
    if bad == "mode":
        quiet(y.to_metric)
    elif bad == "location":
        y.telescope.location = type(y.telescope.location).from_geocentric(5.0e6, 1.0e6, 3.0e6, unit="m")
    elif bad == "name":
        y.telescope.name = "elsewhere"
    elif bad == "polarization_array":
        y.polarization_array = np.asarray(y.polarization_array) - 1
    elif bad == "spw":
        y.spw_array = np.asarray(y.spw_array) + 5
        y.flex_spw_id_array = np.asarray(y.flex_spw_id_array) + 5
    else:
        d = S.real("delta", 1e-2, 1e3) if bad in ("freq_array", "channel_width") else S.real("delta", 1e-6, 1e-3)
        k = S.pick("at", len(getattr(y, bad)))
        sgn = S.choice("sign", [1, -1])
        v = getattr(y, bad)
        new = S._wrap(np.array(list(v), dtype=object), np.float64)
        new[k] = new[k] + sgn * d
        if bad == "freq_array":
            S.assume(d > 1.1e-2)
        setattr(y, bad, new)
    S.prove(S.raises(lambda: quiet(x.__add__, y, axis=axis), ValueError) is not None, f"{bad} mismatch accepted")


# ---------------------------------------------------------------------------- or, combine
@case(P, bounds=B, kind=KINDS)
def logical_or(S, kind):
    x = mk(S, kind, "flag", tag="x")
    y = mk(S, kind, "flag", tag="y")
    fx, fy = x.flag_array.copy(), y.flag_array.copy()
    how = S.choice("how", ["or", "ior", "inplace"])
    if how == "or":
        r = quiet(x.__or__, y)
        S.same(x.flag_array, fx, "first operand untouched")
    elif how == "ior":
        r = quiet(x.__ior__, y)
        S.prove(r is x, "in place")
    else:
        quiet(x.__or__, y, inplace=True)
        r = x
    S.same(r.flag_array, fx | fy, "or")
    S.same(y.flag_array, fy, "second operand untouched")
    z = mk(S, kind, "metric", tag="z")
    S.prove(S.raises(lambda: x | z, ValueError) is not None, "metrics refused")
    S.prove(S.raises(lambda: z | x, ValueError) is not None, "metrics refused")


@case(P, bounds=B, kind=KINDS, method=["mean", "absmean", "quadmean"])
def combine_metrics(S, kind, method):
    kw = dict(times=(0, 1) if kind != "baseline" else (0,), freqs=(0,), pols=(-5,), blts=BLTS[:2])
    if kind == "antenna":
        kw["ants"] = (7, 1)
    x = mk(S, kind, "metric", tag="x", **kw)
    n = S.choice("n", [1, 2])
    ys = [mk(S, kind, "metric", tag=f"y{i}", **kw) for i in range(n)]
    all_ = [x] + ys
    ms = [o.metric_array.copy() for o in all_]
    if method == "quadmean":
        for i, o in enumerate(all_):
            o.weights_array = np.full(o.metric_array.shape, 0.5 + i)
    ws = [o.weights_array.copy() for o in all_]
    arg = ys if n > 1 or S.pick("list", 2) else ys[0]
    inplace = bool(S.pick("inplace", 2))
    r = quiet(x.combine_metrics, arg, method=method, inplace=inplace)
    r = x if inplace else r
    for i in np.ndindex(*ms[0].shape):
        e, tot = combine(S, [m[i] for m in ms], [w[i] for w in ws], method)
        expect(S, r.metric_array[i], e, "combined metric")
        S.same(r.weights_array[i], tot, "combined weight")
    for o, m, w in zip(ys, ms[1:], ws[1:]):
        S.same(o.metric_array, m, "others untouched")
        S.same(o.weights_array, w, "others untouched")
    if not inplace:
        S.same(x.metric_array, ms[0], "original untouched")


# ---------------------------------------------------------------------------- applying to data
@case(P, bounds=B, kind=KINDS, unflag=[False, True])
def apply(S, kind, unflag):
    """flags land on their own baseline, time, channel and polarization"""
    uf = (1, 0)
    u = cm.sym(S, cm.keyed(BLTS, uf, (-5, -6)), data=False, ns=False)
    old = u.flag_array.copy()
    missing = S.pick("flag_missing", 2)
    force = bool(S.pick("force", 2))
    pols = S.choice("pols", [(-5, -6), (-6, -5)]) if not force or kind != "baseline" else S.choice("pols", [(-5,), (-6, -5)])
    if force and kind != "baseline":
        pols = (-5,)
    elif kind != "baseline":
        pols = (-5, -6)
    freqs = S.choice("freqs", [(1, 0), (0, 1), (0,)]) if kind == "baseline" else (1, 0)
    if kind == "baseline":
        bl = S.choice("blts", [BLTS, ((1, 3, 2), (7, 1, 1), (3, 7, 0), (1, 3, 0), (7, 1, 0)), BLTS[1:4] + ((1, 3, 5),)])
        S.assume(bl[-1][2] != 5 or True)
        if bl[-1][2] == 5:
            bl = ((7, 1, 0), (3, 7, 0), (7, 1, 1), (7, 7, 2))
        f = mk(S, kind, "flag", blts=bl, freqs=freqs, pols=pols, tag="u")
    else:
        f = mk(S, kind, "flag", freqs=freqs, pols=pols, tag="u", times=(1, 0, 2))
    (rows, ants, ch, pol), vals, _ = table(f)
    of = f.copy()
    inplace = bool(S.pick("inplace", 2))
    r = quiet(apply_uvflag, u, f, inplace=inplace, unflag_first=unflag, flag_missing=bool(missing), force_pol=force)
    res = u if inplace else r
    S.same(f.flag_array, of.flag_array, "flags object untouched")
    if not inplace:
        S.same(u.flag_array, old, "original untouched")
    fr = [(1, float(x), float(w)) for x, w in zip(u.freq_array, u.channel_width)]
    prs = {r[:2] for r in rows} if kind == "baseline" else None
    for b, key in enumerate(BLTS):
        for c, x in enumerate(fr):
            for p, q in enumerate((-5, -6)):
                base = False if unflag else old[b, c, p]
                cx = x if len(ch) > 1 else ch[0]
                qq = q if len(pol) > 1 else pol[0]
                if kind == "baseline":
                    if key[:2] not in prs:
                        e = True if missing else base
                    else:
                        e = base | vals["flag_array", key, None, cx, qq]
                elif kind == "waterfall":
                    e = base | vals["flag_array", key[2], None, cx, qq]
                else:
                    e = base | vals["flag_array", key[2], key[0], cx, qq] | vals["flag_array", key[2], key[1], cx, qq]
                S.same(res.flag_array[b, c, p], e, f"flag of {key} channel {x} pol {q}")


@case(P, bounds=B)
def apply_one_time(S):
    """flags with a single time apply to every time of their baseline"""
    u = cm.sym(S, cm.keyed(BLTS, (0,), (-5,)), data=False, ns=False)
    old = u.flag_array.copy()
    f = mk(S, "baseline", "flag", blts=((3, 7, 4), (7, 1, 4), (1, 3, 4)), freqs=(0,), pols=(-5,), tag="u")
    (rows, _, ch, _), vals, _ = table(f)
    quiet(apply_uvflag, u, f)
    for b, key in enumerate(BLTS):
        S.same(u.flag_array[b, 0, 0], old[b, 0, 0] | vals["flag_array", key[:2] + (4,), None, ch[0], -5], "flag")


@case(P, bounds=B, what=["times", "freqs", "pols", "mode", "ntimes", "nfreqs"])
def apply_refuses(S, what):
    """mismatched times, channels or polarizations are refused"""
    u = cm.keyed(BLTS, (0, 1), (-5, -6))
    pols = {"pols": (-5, -7)}.get(what, (-5, -6))
    blts = BLTS[:3] + ((7, 1, 1),) if what == "ntimes" else BLTS
    f = mk(S, "baseline", "metric" if what == "mode" else "flag", blts=blts, freqs=(0, 1, 2) if what == "nfreqs" else (0, 1),
           pols=pols)
    if what in ("times", "freqs"):
        nm = what[:-1] + "_array"
        v = getattr(f, nm)
        if what == "times":
            d = S.real("delta", 2e-8, 1e-4)
            k = S.pick("at", len(v))
            old = float(v[k])
            new = S._wrap(np.array(list(v), dtype=object), np.float64)
            for i in range(len(v)):
                if float(v[i]) == old:
                    new[i] = new[i] + S.choice("sign", [1, -1]) * d if i == k else new[i]
            S.assume(sum(float(x) == old for x in v) == 1)
        else:
            d = S.real("delta", 1e-2, 1e5)
            k = S.pick("at", len(v))
            new = S._wrap(np.array(list(v), dtype=object), np.float64)
            new[k] = new[k] + S.choice("sign", [1, -1]) * d
        setattr(f, nm, new)
    force = bool(S.pick("force", 2))
    S.prove(S.raises(lambda: quiet(apply_uvflag, u, f, force_pol=force), ValueError) is not None, f"{what} accepted")
