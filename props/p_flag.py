"""Flag and metric objects: collapsing, broadcasting and converting."""
import warnings

import numpy as np
from symx.harness import case

from pyuvdata import UVCal, UVFlag
from pyuvdata.utils import array_collapse as ac
from pyuvdata.uvflag.uvflag import and_rows_cols, flags2waterfall

from . import common as cm

P = "C13"
B = ("up to 6 baseline-times, 3 antennas, 3 times, 2 channels, 2 polarizations; flags, metrics, weights and the "
     "threshold symbolic; times in every order given; infinite metrics at chosen places")


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


# ------------------------------------------------------------------- collapsing
@case(P, bounds=B, alg=["mean", "absmean", "quadmean"], axis=[0, 1, (0, 1), None])
def collapse(S, alg, axis):
    """weighted mean, mean magnitude or rms over axes; infinite data carry no weight"""
    sh = (2, 2) if axis in (0, 1) else (1, 2)
    a = S.reals("a", sh)
    cplx = alg != "mean" and S.pick("cplx", 2) and alg == "quadmean"
    if cplx:
        a = S.cplxs("a", sh)
    wt = S.pick("weights", 3)
    w = S.reals("w", sh, 0, 10) if wt else None
    if wt and alg == "quadmean":  # the square root of a quotient of polynomials: fixed weights
        w = np.array([[1.5, 0.25], [0.0, 3.0]])[:sh[0]]
    inf = np.zeros(sh, dtype=bool)
    if wt != 1 and not cplx:
        k = S.pick("inf", 4)
        if k:
            o = np.array(a, dtype=object)
            o[0, 0] = np.inf
            inf[0, 0] = True
            if k > 1:
                o[-1, k - 2] = np.inf
                inf[-1, k - 2] = True
            a = S._wrap(o, np.float64)
    a0 = a.copy()
    w0 = None if w is None else w.copy()
    mode = S.pick("ret", 4)
    kw = dict(return_weights=mode in (1, 3), return_weights_square=mode in (2, 3))
    out = quiet(ac.collapse, a, alg, weights=w, axis=axis, **kw)
    out = list(out) if mode else [out]
    if not inf.any():
        S.same(a, a0, "input untouched")
    if w is not None:
        S.same(w, w0, "weights untouched")
    groups = {0: [[(0, 0), (1, 0)], [(0, 1), (1, 1)]], 1: [[(0, 0), (0, 1)], [(1, 0), (1, 1)]]}
    if axis in (0, 1):
        gr = groups[axis]
        res = [[o[i] for o in out] for i in range(2)]
    else:
        gr = [[(0, 0), (0, 1)]]
        res = [out]
    for g, r in zip(gr, res):
        wts = [0.0 if inf[i] else (1.0 if w0 is None else w0[i]) for i in g]
        tot = sum(wts)
        empty = not bool(tot > 1e-10)
        val = r[0]
        if empty:
            S.prove(not isinstance(val, complex) and bool(val == np.inf), "no weight: infinite")
        else:
            s = 0.0
            for i, x in zip(g, wts):
                if inf[i]:
                    continue
                v = a0[i]
                if alg == "quadmean":
                    v = v.real * v.real + v.imag * v.imag if cplx else v * v
                elif alg == "absmean":
                    v = abs(v)
                s = s + x * v
            if alg == "quadmean":
                S.prove(val >= 0, "rms sign")
                S.same(val * val, s / tot, "mean square")
            else:
                S.same(val * tot, s, "mean")
        k = 1
        if kw["return_weights"]:
            S.same(r[k], tot, "weight")
            k += 1
        if kw["return_weights_square"]:
            S.same(r[k], sum(x * x for x in wts), "squared weight")


@case(P, bounds=B, alg=["or", "and"], axis=[0, 1, (0, 1)])
def collapse_flags(S, alg, axis):
    f = S.bools("f", (2, 3))
    wts = bool(S.pick("weights", 2))
    out, w = quiet(ac.collapse, f, alg, axis=axis, return_weights=True, weights=np.ones((2, 3)) if wts else None)
    groups = [[(i, j) for i in range(2)] for j in range(3)] if axis == 0 else (
        [[(i, j) for j in range(3)] for i in range(2)] if axis == 1 else [[(i, j) for i in range(2) for j in range(3)]])
    vals = [out] if axis == (0, 1) else [out[i] for i in range(len(groups))]
    for g, v in zip(groups, vals):
        e = f[g[0]]
        for k in g[1:]:
            e = (e | f[k]) if alg == "or" else (e & f[k])
        S.same(v, e, alg)
    S.same(np.asarray(w), np.ones(np.shape(w)), "unit weights")
    bad = np.zeros((2, 3))
    S.prove(S.raises(lambda: ac.collapse(bad, alg, axis=0), ValueError) is not None, "only boolean arrays")


@case(P, bounds=B)
def fully_flagged(S):
    """and_rows_cols keeps only fully flagged rows and columns"""
    f = S.bools("f", (2, 3))
    out = and_rows_cols(f)
    for i in range(2):
        for j in range(3):
            e = (f[0, j] & f[1, j]) | (f[i, 0] & f[i, 1] & f[i, 2])
            S.same(out[i, j], e, "fully flagged")


# ------------------------------------------------------------------- objects
LAY = {
    "rect": (((1, 3, 0), (1, 7, 0), (1, 3, 1), (1, 7, 1))),
    "irr": (((1, 3, 2), (1, 7, 0), (3, 7, 0), (1, 3, 0))),
}


def uvdata(lay, nf=1, pols=(-5, -6)):
    return cm.keyed(LAY[lay], tuple(range(nf)), pols)


def tkey(t):
    return round((float(t) - cm.T0) / 0.0005)


def flagobj(S, kind, mode, lay="rect", nf=1, pols=(-5, -6), tag="", wlo=0.1, times=(1, 0, 2)):
    """object of the given type and mode with symbolic contents"""
    if kind == "antenna":
        c = cm.cal(freqs=tuple(range(nf)), times=times, jones=pols)
        f = quiet(UVFlag, c, mode=mode)
    else:
        f = quiet(UVFlag, uvdata(lay, nf, pols), mode=mode, waterfall=kind == "waterfall")
        if kind == "waterfall" and lay == "irr":  # times out of order
            f.time_array = f.time_array[::-1].copy()
            f.lst_array = f.lst_array[::-1].copy()
    fill(S, f, tag, wlo)
    return f


def fill(S, f, tag="", wlo=0.1):
    if f.mode == "flag":
        f.flag_array = S.bools(tag + "f", f.flag_array.shape)
    else:
        f.metric_array = S.reals(tag + "m", f.metric_array.shape)
        f.weights_array = S.reals(tag + "w", f.metric_array.shape, wlo, 10)


def arr(f):
    return f.flag_array if f.mode == "flag" else f.metric_array


def combine(S, vals, wts, method):
    """(value or (square, rms), weight) of a collapse"""
    if method == "or":
        e = vals[0]
        for v in vals[1:]:
            e = e | v
        return e, 1.0
    if method == "and":
        e = vals[0]
        for v in vals[1:]:
            e = e & v
        return e, 1.0
    num = lambda v: v if hasattr(v, "real") and not _isbool(v) else np.where(v, 1.0, 0.0).item()
    vals = [num(v) for v in vals]
    tot = sum(wts)
    if method == "mean":
        return sum(v * w for v, w in zip(vals, wts)) / tot, tot
    if method == "absmean":
        return sum(abs(v) * w for v, w in zip(vals, wts)) / tot, tot
    return ("sq", sum(v * v * w for v, w in zip(vals, wts)), tot), tot


def _isbool(v):
    return isinstance(v, (bool, np.bool_)) or type(v).__name__ == "SymBool" or getattr(v, "dtype", None) == np.bool_


def expect(S, got, exp, msg):
    if isinstance(exp, tuple):
        S.prove(got >= 0, msg + ": sign")
        S.same(got * got, exp[1] / exp[2], msg)
    else:
        S.same(got, exp, msg)


METHODS = {"flag": ["or", "and", "mean", "quadmean"], "metric": ["mean", "absmean", "quadmean"]}


@case(P, bounds=B, kind=["baseline", "antenna", "waterfall"], mode=["flag", "metric"])
def collapse_pol(S, kind, mode):
    """polarizations are combined element by element"""
    f = flagobj(S, kind, mode)
    method = S.choice("method", METHODS[mode])
    d = arr(f).copy()
    w = f.weights_array.copy() if mode == "metric" else None
    old = f.copy()
    quiet(f.collapse_pol, method=method)
    newmode = "flag" if method in ("or", "and") else "metric"
    S.prove(f.mode == newmode and f.type == kind, "mode and type")
    S.prove(f.Npols == 1 and [str(p) for p in f.polarization_array] == ["-5,-6"], "polarizations")
    r = arr(f)
    S.prove(r.shape == d.shape[:-1] + (1,), "shape")
    for i in np.ndindex(*d.shape[:-1]):
        e, tot = combine(S, [d[i + (p,)] for p in range(2)], [1.0, 1.0] if w is None else [w[i + (p,)] for p in range(2)],
                         method)
        expect(S, r[i + (0,)], e, f"collapsed {method}")
        if mode == "metric":
            S.same(f.weights_array[i + (0,)], tot, "weights")
    for p in ("time_array", "freq_array", "lst_array"):
        S.same(getattr(f, p), getattr(old, p), p)


@case(P, bounds=B, lay=["rect", "irr"], mode=["flag", "metric"], keep=[True, False])
def waterfall_from_baseline(S, lay, mode, keep):
    """baselines at the same time are combined; times come out sorted"""
    pols = (-5,) if not keep or lay == "irr" else (-5, -6)
    if not keep and lay == "rect" and S.pick("twopol", 2):
        pols = (-5, -6)
    f = flagobj(S, "baseline", mode, lay, pols=pols)
    method = S.choice("method", METHODS[mode])
    two = not keep and f.Npols == 2
    S.assume(not (two and method == "quadmean" or two and mode == "flag" and method == "mean"))
    d = arr(f).copy()
    w = f.weights_array.copy() if mode == "metric" else np.ones(d.shape)
    old = f.copy()
    sq = mode == "metric" and bool(S.pick("square", 2))
    quiet(f.to_waterfall, method=method, keep_pol=keep, return_weights_square=sq)
    times = sorted({tkey(t) for t in old.time_array})
    S.prove(f.type == "waterfall" and f.mode == ("flag" if method in ("or", "and") else "metric"), "type and mode")
    S.prove([tkey(t) for t in f.time_array] == times and f.Ntimes == len(times), "times")
    lst = {tkey(t): float(x) for t, x in zip(old.time_array, old.lst_array)}
    S.same(f.lst_array, np.array([lst[t] for t in times]), "lsts")
    r = arr(f)
    npol = 1 if two else d.shape[2]
    S.prove(r.shape == (len(times), d.shape[1], npol), f"shape {r.shape}")
    for i, t in enumerate(times):
        rows = [b for b in range(d.shape[0]) if tkey(old.time_array[b]) == t]
        for c in range(d.shape[1]):
            for p in range(npol):
                if two:
                    el = []
                    for b in rows:
                        el.append(combine(S, [d[b, c, q] for q in range(2)], [w[b, c, q] for q in range(2)], method))
                    vals, wts = [x[0] for x in el], [x[1] for x in el]
                else:
                    vals, wts = [d[b, c, p] for b in rows], [w[b, c, p] for b in rows]
                e, tot = combine(S, vals, wts, method)
                expect(S, r[i, c, p], e, f"waterfall {method}")
                if mode == "metric":
                    S.same(f.weights_array[i, c, p], tot, "weights")
                    if sq and not two:
                        S.same(f.weights_square_array[i, c, p], sum(x * x for x in wts), "squared weights")


@case(P, bounds=B, mode=["flag", "metric"], keep=[True, False])
def waterfall_from_antenna(S, mode, keep):
    """antennas are combined"""
    f = flagobj(S, "antenna", mode, pols=(-5, -6) if keep else (-5,))
    method = S.choice("method", METHODS[mode])
    d = arr(f).copy()
    w = f.weights_array.copy() if mode == "metric" else np.ones(d.shape)
    old = f.copy()
    quiet(f.to_waterfall, method=method, keep_pol=keep)
    r = arr(f)
    S.prove(f.type == "waterfall" and f.mode == ("flag" if method in ("or", "and") else "metric"), "type and mode")
    S.prove(r.shape == (d.shape[2], d.shape[1], d.shape[3]), "shape")
    S.same(f.time_array, old.time_array, "times")
    S.same(f.lst_array, old.lst_array, "lsts")
    for t, c, p in np.ndindex(*r.shape):
        e, tot = combine(S, [d[a, c, t, p] for a in range(d.shape[0])], [w[a, c, t, p] for a in range(d.shape[0])], method)
        expect(S, r[t, c, p], e, f"waterfall {method}")
        if mode == "metric":
            S.same(f.weights_array[t, c, p], tot, "weights")


@case(P, bounds=B, lay=["rect", "irr"], mode=["flag", "metric"], like=["uvdata", "uvflag"])
def baseline_from_waterfall(S, lay, mode, like):
    """every baseline-time gets the waterfall entry of its time; unmatched times get nothing"""
    u = uvdata(lay)
    force = bool(S.pick("force", 2))
    f = flagobj(S, "waterfall", mode, lay, pols=(-5,) if force else (-5, -6))
    n = f.Ntimes
    drop = bool(S.pick("drop", 2))
    if drop:
        f.select(times=[f.time_array[0]])
    d = arr(f).copy()
    w = f.weights_array.copy() if mode == "metric" else None
    ts = [tkey(t) for t in f.time_array]
    ref = u if like == "uvdata" else quiet(UVFlag, u, mode="flag")
    quiet(f.to_baseline, ref, force_pol=force)
    r = arr(f)
    S.prove(f.type == "baseline" and f.mode == mode, "type and mode")
    S.prove(r.shape == (u.Nblts, u.Nfreqs, 2), "shape")
    for p in ("baseline_array", "ant_1_array", "ant_2_array", "time_array", "lst_array"):
        S.same(getattr(f, p), getattr(u, p), p)
    S.prove(f.Nblts == u.Nblts and f.Nbls == u.Nbls and f.Nants_data == u.Nants_data, "counts")
    S.prove([int(p) for p in f.polarization_array] == [-5, -6] and f.Npols == 2, "polarizations")
    for b in range(u.Nblts):
        t = tkey(u.time_array[b])
        for c in range(u.Nfreqs):
            for p in range(2):
                q = 0 if force else p
                if t in ts:
                    S.same(r[b, c, p], d[ts.index(t), c, q], "value of its time")
                    if w is not None:
                        S.same(f.weights_array[b, c, p], w[ts.index(t), c, q], "weight of its time")
                else:
                    S.same(r[b, c, p], False if mode == "flag" else 0.0, "no value")
                    if w is not None:
                        S.same(f.weights_array[b, c, p], 0.0, "no weight")


@case(P, bounds=B, lay=["rect", "irr"], times=[(0, 1, 2), (2, 0), (1, 0)])
def baseline_from_antenna(S, lay, times):
    """a baseline-time is flagged if either antenna is, or if the antenna or time is unknown"""
    u = uvdata(lay)
    f = flagobj(S, "antenna", "flag", times=times)
    missing = S.pick("missing", 3)
    if missing:
        f.select(antenna_nums=[a for a in (1, 3, 7) if a != (3 if missing == 1 else 7)])
    ants = [int(a) for a in f.ant_array]
    d = f.flag_array.copy()
    ts = [tkey(t) for t in f.time_array]
    quiet(f.to_baseline, u)
    S.prove(f.type == "baseline" and f.flag_array.shape == (u.Nblts, 1, 2), "shape")
    for b in range(u.Nblts):
        t = tkey(u.time_array[b])
        prs = [int(u.ant_1_array[b]), int(u.ant_2_array[b])]
        for p in range(2):
            if t not in ts or any(a not in ants for a in prs):
                S.same(f.flag_array[b, 0, p], True, "unknown is flagged")
            else:
                i, j = (ants.index(a) for a in prs)
                S.same(f.flag_array[b, 0, p], d[i, 0, ts.index(t), p] | d[j, 0, ts.index(t), p], "either antenna")
    for p in ("baseline_array", "ant_1_array", "ant_2_array", "time_array", "lst_array"):
        S.same(getattr(f, p), getattr(u, p), p)
    m = flagobj(S, "antenna", "metric", tag="x")
    S.prove(S.raises(lambda: m.to_baseline(u), NotImplementedError) is not None, "metrics refused")


@case(P, bounds=B, mode=["flag", "metric"], like=["uvcal", "uvflag"])
def antenna_from_waterfall(S, mode, like):
    """every antenna gets the waterfall"""
    c = cm.cal(freqs=(0, 1), times=(0, 1), jones=(-5, -6), ants=(7, 1, 3))
    force = bool(S.pick("force", 2))
    f = flagobj(S, "waterfall", mode, "rect", nf=2, pols=(-5,) if force else (-5, -6))
    d = arr(f).copy()
    w = f.weights_array.copy() if mode == "metric" else None
    quiet(f.to_antenna, c if like == "uvcal" else quiet(UVFlag, c, mode="flag"), force_pol=force)
    r = arr(f)
    S.prove(f.type == "antenna" and f.mode == mode and r.shape == (3, 2, 2, 2), f"shape {r.shape}")
    S.prove([int(a) for a in f.ant_array] == [7, 1, 3] and f.Nants_data == 3, "antennas")
    for a, ch, t, p in np.ndindex(*r.shape):
        q = 0 if force else p
        S.same(r[a, ch, t, p], d[t, ch, q], "value")
        if w is not None:
            S.same(f.weights_array[a, ch, t, p], w[t, ch, q], "weight")


@case(P, bounds=B, kind=["waterfall", "baseline", "antenna"])
def thresholds(S, kind):
    """to_flag flags metrics at or above the threshold"""
    f = flagobj(S, kind, "metric", pols=(-5,))
    d = f.metric_array.copy()
    if S.pick("inf", 2):
        quiet(f.to_flag)
        th = None
    else:
        th = S.real("threshold", -50, 50)
        quiet(f.to_flag, threshold=th)
    S.prove(f.mode == "flag" and f.type == kind and f.metric_array is None and f.weights_array is None, "mode")
    for i in np.ndindex(*d.shape):
        S.same(f.flag_array[i], False if th is None else d[i] >= th, "flag")


@case(P, bounds=B, kind=["waterfall", "baseline", "antenna"])
def to_metric(S, kind):
    """flags become 0/1 metrics; weights drop fully flagged times and channels"""
    lay = "irr" if kind == "baseline" else "rect"
    f = flagobj(S, kind, "flag", lay, nf=2, pols=(-5,))
    if kind == "baseline":
        f = flagobj(S, kind, "flag", S.choice("lay", ["rect", "irr"]), nf=2, pols=(-5,), tag="b")
    d = f.flag_array.copy()
    wt = bool(S.pick("wts", 2))
    quiet(f.to_metric, convert_wgts=wt)
    S.prove(f.mode == "metric" and f.type == kind and f.flag_array is None, "mode")
    S.same(f.metric_array, np.where(d, 1.0, 0.0), "metric")
    S.prove(f.weights_array.shape == d.shape, "weights shape")
    if not wt:
        S.same(f.weights_array, np.ones(d.shape), "unit weights")
        return
    for i in np.ndindex(*d.shape):
        if kind == "antenna":
            a, c, t, p = i
            rows = [d[a, c, x, p] for x in range(d.shape[2])]
            cols = [d[a, x, t, p] for x in range(d.shape[1])]
        else:
            b, c, p = i
            grp = range(d.shape[0])
            if kind == "baseline":
                grp = [x for x in grp if f.baseline_array[x] == f.baseline_array[b]]
            rows = [d[x, c, p] for x in grp]
            cols = [d[b, x, p] for x in range(d.shape[1])]
        full = combine(S, rows, rows, "and")[0] | combine(S, cols, cols, "and")[0]
        S.same(f.weights_array[i], np.where(full, 0.0, 1.0).item(), "weight")


@case(P, bounds=B, keep=[True, False], kind=["uvdata", "uvcal"])
def fractions(S, keep, kind):
    """flags2waterfall gives the fraction of flagged entries per time and channel"""
    if kind == "uvdata":
        u = uvdata("irr", pols=(-5, -6))
        u.flag_array = S.bools("f", u.flag_array.shape)
        d, ts = u.flag_array.copy(), sorted({tkey(t) for t in u.time_array})
        rows = {t: [b for b in range(u.Nblts) if tkey(u.time_array[b]) == t] for t in ts}
        get = lambda t, c, p: [d[b, c, p] for b in rows[ts[t]]]
    else:
        u = cm.cal(freqs=(0,), times=(0, 1), jones=(-5, -6))
        u.flag_array = S.bools("f", u.flag_array.shape)
        d, ts = u.flag_array.copy(), [0, 1]
        get = lambda t, c, p: [d[a, c, t, p] for a in range(3)]
    out = flags2waterfall(u, keep_pol=keep)
    S.prove(out.shape == ((len(ts), 1, 2) if keep else (len(ts), 1)), f"shape {out.shape}")
    for t in range(len(ts)):
        for p in range(2 if keep else 1):
            v = get(t, 0, p) if keep else get(t, 0, 0) + get(t, 0, 1)
            e = sum(np.where(x, 1.0, 0.0).item() for x in v) / len(v)
            S.same(out[t, 0, p] if keep else out[t, 0], e, "fraction")


@case(P, bounds=B, kind=["uvdata", "uvcal"])
def from_objects(S, kind):
    """objects made from data or calibration share their axes and, if asked, their flags"""
    if kind == "uvdata":
        u = cm.sym(S, uvdata("irr"))
    else:
        u = cm.symcal(S, cm.cal(freqs=(0,), times=(1, 0)))
    fl = u.flag_array.copy()
    mode = S.choice("mode", ["flag", "metric"])
    cp = bool(S.pick("copy", 2))
    wf = not cp and bool(S.pick("wf", 2))
    f = quiet(UVFlag, u, mode=mode, copy_flags=cp, waterfall=wf)
    S.prove(f.type == ("waterfall" if wf else ("baseline" if kind == "uvdata" else "antenna")), "type")
    S.prove(f.mode == ("flag" if cp else mode), "mode")
    if cp:
        S.same(f.flag_array, fl, "copied flags")
        f.flag_array[0, 0] = True
        S.same(u.flag_array, fl, "a copy, not a view")
    elif mode == "flag":
        S.prove(not np.any(f.flag_array), "no flags")
    else:
        S.same(f.metric_array, np.zeros(f.metric_array.shape), "no metric")
        S.same(f.weights_array, np.ones(f.metric_array.shape), "weights")
    S.same(f.freq_array, u.freq_array, "frequencies")
    if kind == "uvdata":
        if wf:
            ts = sorted({tkey(t) for t in u.time_array})
            S.prove([tkey(t) for t in f.time_array] == ts, "times")
            lst = {tkey(t): float(x) for t, x in zip(u.time_array, u.lst_array)}
            S.same(f.lst_array, np.array([lst[t] for t in ts]), "lsts")
        else:
            for p in ("baseline_array", "ant_1_array", "ant_2_array", "time_array", "lst_array"):
                S.same(getattr(f, p), getattr(u, p), p)
    elif not wf:
        S.same(f.ant_array, u.ant_array, "antennas")
        S.same(f.time_array, u.time_array, "times")
