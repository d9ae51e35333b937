"""Combining calibration objects."""
import numpy as np
from symx.harness import case

from . import common as cm
from .p_cal import consistent, mk, table
from .p_flag import quiet

P = "C16"
B = ("two (or three) objects of up to 3 antennas, 3 channels or windows, 3 times, 2 Jones terms, in different orders; gains, delays, "
     "flags and qualities symbolic")
D = dict(ants=(7, 1), times=(1, 0), freqs=(0, 1), jones=(-5, -6), spws=(0,))
#: name -> (first, second), as differences from D
PAIRS = {
    "ants": [(dict(ants=(7, 1)), dict(ants=(3,))), (dict(ants=(3,)), dict(ants=(7, 1)))],
    "times": [(dict(times=(1, 3)), dict(times=(2, 0))), (dict(times=(3,)), dict(times=(1, 0)))],
    "freqs": [(dict(freqs=(1, 2), spws=(1,)), dict(freqs=(0,), spws=(2, 0))),
              (dict(freqs=(10, 11), spws=(2, 1)), dict(freqs=(0, 12), spws=(0,))),
              (dict(freqs=(0, 10), spws=(0, 2)), dict(freqs=(11, 20), spws=(1,))),
              (dict(freqs=(2, 1), spws=(2, 0)), dict(freqs=(11, 10), spws=(1, 3)))],
    "jones": [(dict(jones=(-6,)), dict(jones=(-5,))), (dict(jones=(-5,)), dict(jones=(-6, -7)))],
    "ants+times": [(dict(ants=(3, 1), times=(1, 0)), dict(ants=(7, 1, 3), times=(3, 2))),
                   (dict(ants=(1, 3), times=(0, 1)), dict(ants=(7, 1), times=(2,)))],
    "ants+order": [(dict(ants=(7, 1), times=(0, 1), jones=(-5, -6)), dict(ants=(3,), times=(1, 0), jones=(-6, -5)))],
    "times+freqs": [(dict(times=(0, 1), freqs=(0, 1), spws=(0, 1)), dict(times=(2,), freqs=(2, 1), spws=(2, 0))),
                    (dict(times=(2, 0), freqs=(0,), spws=(0,)), dict(times=(1, 2, 0), freqs=(11, 10), spws=(2, 1)))],
    "times+jones": [(dict(times=(0, 1), jones=(-5,)), dict(times=(3, 1), jones=(-6,))),
                    (dict(times=(0, 1), jones=(-5, -6)), dict(times=(2,), jones=(-6, -7)))],
    "freqs+order": [(dict(freqs=(0, 1), times=(1, 0), ants=(1, 7), spws=(0, 1)),
                     dict(freqs=(2,), times=(0, 1), ants=(7, 1), spws=(2,)))],
}
VARS = ["gain", "delay", "widegain", "sky", "flexjones"]


def two(S, var, pair, total=False):
    k1, k2 = pair
    a = mk(S, var, **{**D, **k1}, tag="x", total=total)
    b = mk(S, var, **{**D, **k2}, tag="y", total=total)
    return a, b


def union(a, b):
    return a + [k for k in b if k not in a]


def ok(var, what):
    return not (var == "flexjones" and "jones" in what)


@case(P, bounds=B, vw=[(v, w) for v in VARS for w in PAIRS if ok(v, w)])
def add(S, vw):
    var, what = vw
    pair = S.choice("pair", PAIRS[what])
    total = var in ("gain", "widegain") and bool(S.pick("total", 2)) and "ants" not in what
    a, b = two(S, var, pair, total)
    drop = S.pick("drop", 4) if var in ("gain", "delay") else 0
    if drop & 1:
        b.quality_array = None
        if total:
            b.total_quality_array = None
    if drop & 2:
        a.quality_array = None
        if total:
            a.total_quality_array = None
    (a1, f1, t1, j1), v1, m1 = table(a)
    (a2, f2, t2, j2), v2, m2 = table(b)
    oa, ob = a.copy(), b.copy()
    how = S.choice("how", ["new", "iadd", "inplace"])
    if how == "new":
        r = quiet(a.__add__, b)
    elif how == "iadd":
        r = quiet(a.__iadd__, b)
        S.prove(r is a, "in place")
    else:
        quiet(a.__add__, b, inplace=True)
        r = a
    want = union(a1, a2), union(f1, f2), union(t1, t2), union(j1, j2)
    sp = list(dict.fromkeys(int(s) for s in r.spw_array))
    S.prove(len(sp) == r.Nspws, "distinct windows")
    consistent(S, r, want, {**v1, **v2}, {**m1, **m2}, f"add {what}", fill=True)
    S.same(b.flag_array, ob.flag_array, "second operand untouched")
    S.prove([int(x) for x in b.ant_array] == a2, "second operand untouched")
    if how == "new":
        S.same(a.flag_array, oa.flag_array, "first operand untouched")
        S.prove([int(x) for x in a.ant_array] == a1, "first operand untouched")


@case(P, bounds=B, var=["gain", "delay", "widegain"])
def add_tranges(S, var):
    """objects with time ranges combine along time and refuse overlapping ranges"""
    kw = dict(D, spws=(0, 1))

    def mk2(times, tag):
        c = cm.cal(ants=(7, 1), times=times, jones=(-5,), freqs=(0, 1), kind="delay" if var == "delay" else "gain",
                   wide=var != "gain", trange=True, spws=(0, 1))
        return cm.symcal(S, c, tag)

    t1, t2 = S.choice("times", [((2, 0), (3, 1)), ((1,), (0, 2)), ((0, 1), (1, 2))])
    a, b = mk2(t1, "x"), mk2(t2, "y")
    (a1, f1, _, j1), v1, m1 = table(a)
    _, v2, m2 = table(b)
    res = []
    err = S.raises(lambda: res.append(quiet(a.__add__, b)), ValueError)
    S.prove((err is not None) == bool(set(t1) & set(t2)), f"overlap: {err}")
    if err is None:
        consistent(S, res[0], (a1, f1, list(t1) + list(t2), j1), {**v1, **v2}, {**m1, **m2}, "add time ranges")


AXES = [("antenna", "ants"), ("time", "times"), ("freq", "freqs"), ("jones", "jones"), ("spw", "freqs")]


@case(P, bounds=B, va=[(v, a) for v in VARS + ["trange"] for a in AXES if ok(v, a[1]) and (v, a[0]) != ("flexjones", "spw")])
def fast_concat(S, va):
    var, (axis, what) = va
    wide = var in ("delay", "widegain")
    if (axis == "spw") != (wide and what == "freqs"):
        a, b = two(S, var, PAIRS["freqs"][0])
        S.prove(S.raises(lambda: quiet(a.fast_concat, b, axis), ValueError) is not None, "axis refused")
        return
    pair = S.choice("pair", PAIRS[what][:3])
    if what == "freqs" and pair is PAIRS[what][1]:
        pair = (dict(freqs=(0, 10), spws=(2, 1)), dict(freqs=(11, 20), spws=(0,)))
    total = var in ("gain", "widegain") and bool(S.pick("total", 2)) and what != "ants"
    a, b = two(S, var, pair, total)
    drop = S.pick("drop", 3) if var in ("gain", "delay") else 0
    if drop == 1:
        b.quality_array = None
        b.total_quality_array = None
    elif drop == 2:
        a.quality_array = None
        a.total_quality_array = None
    (a1, f1, t1, j1), v1, m1 = table(a)
    (a2, f2, t2, j2), v2, m2 = table(b)
    inplace = bool(S.pick("inplace", 2))
    oa = a.copy()
    arg = [b] if S.pick("list", 2) else b
    r = quiet(a.fast_concat, arg, axis, inplace=inplace)
    r = a if inplace else r
    want = union(a1, a2), union(f1, f2), union(t1, t2), union(j1, j2)
    consistent(S, r, want, {**v1, **v2}, {**m1, **m2}, f"fast_concat {axis}", fill=True)
    (ra, rf, rt, rj), _, _ = table(r)
    S.prove((ra, rf, rt, rj) == want, "in the order given")
    if not inplace:
        S.same(a.flag_array, oa.flag_array, "first operand untouched")


@case(P, bounds=B, axis=["antenna", "time", "freq", "jones"])
def concat_refuses(S, axis):
    """objects that differ along another axis are not joined"""
    what = dict(AXES)[axis]
    a, b = two(S, "sky", PAIRS[what][0])
    bad = S.choice("bad", ["ant_array", "jones_array", "time_array", "lst_array", "freq_array", "channel_width", "integration_time",
                           "gain_convention", "cal_type", "phase_center_id_array"])
    own = dict(antenna=["ant_array"], time=["time_array", "lst_array", "integration_time", "phase_center_id_array"],
               freq=["freq_array", "channel_width"], jones=["jones_array"])[axis]
    S.assume(bad not in own)
    if bad == "gain_convention":
        b.gain_convention = "multiply"
    elif bad == "cal_type":
        b = cm.symcal(S, cm.cal(kind="delay", wide=True, spws=(0,)), "z")
    elif bad in ("ant_array", "jones_array", "phase_center_id_array"):
        v = np.array(getattr(b, bad))
        S.assume(len(v) > 1)
        setattr(b, bad, v[::-1].copy())
    else:
        v = getattr(b, bad)
        d = S.real("delta", 1e-5, 1e-3) if bad in ("time_array", "lst_array") else S.real("delta", 2e-2, 1e3)
        k = S.pick("at", len(v))
        new = S._wrap(np.array(list(v), dtype=object), np.float64)
        new[k] = new[k] + S.choice("sign", [1, -1]) * d if bad not in ("integration_time",) else new[k] + d
        setattr(b, bad, new)
    kw = dict(check_extra=False, run_check_acceptability=False)
    S.prove(S.raises(lambda: quiet(a.fast_concat, b, axis, **kw), ValueError) is not None, f"{bad} accepted")


@case(P, bounds=B, var=VARS)
def add_refuses(S, var):
    """overlapping or incompatible objects are not combined"""
    pair = (dict(ants=(7, 1)), dict(ants=(1, 3)))
    bad = S.choice("bad", ["overlap", "gain_convention", "style", "ref", "pc", "location", "ref_antenna_name"])
    if bad != "overlap":
        pair = PAIRS["ants"][0]
    a, b = two(S, var, pair)
    if bad == "gain_convention":
        b.gain_convention = "multiply"
    elif bad == "style":
        S.assume(var == "gain")
        b = mk(S, "sky", **{**D, **pair[1]}, tag="z")
    elif bad == "ref":
        S.assume(var == "sky")
        b.ref_antenna_array = np.array([1, 1])
    elif bad == "pc":
        S.assume(var == "sky")
        b.phase_center_id_array = 1 - np.asarray(b.phase_center_id_array)
    elif bad == "ref_antenna_name":
        S.assume(var == "sky")
        b.ref_antenna_array = None
        b.ref_antenna_name = "a3"
    elif bad == "location":
        b.telescope.location = type(b.telescope.location).from_geocentric(5.0e6, 1.0e6, 3.0e6, unit="m")
    S.prove(S.raises(lambda: quiet(a.__add__, b), ValueError) is not None, f"{bad} accepted")
