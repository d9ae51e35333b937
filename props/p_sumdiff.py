"""Summing and differencing visibilities."""
import numpy as np
from symx.harness import case

from . import common as cm

P = "C12"
B = "2 baseline-times x 2 channels x 2 polarizations; all visibilities symbolic, flags and weights shared"


def _two(S):
    x = cm.keyed(((1, 3, 0), (7, 1, 1)), (0, 1), (-5, -7))
    y = x.copy()
    cm.sym(S, x, "x")
    y.data_array = S.cplxs("y", x.data_array.shape)
    y.flag_array = x.flag_array.copy()
    y.nsample_array = x.nsample_array.copy()
    return x, y


@case(P, bounds=B, op=["sum_vis", "diff_vis"])
def values(S, op):
    x, y = _two(S)
    x.extra_keywords = {"A": 1, "B": 2}
    y.extra_keywords = {"B": 3, "C": 4}
    ix, iy = cm.snap(x), cm.snap(y)
    dx, dy = x.data_array.copy(), y.data_array.copy()
    inplace = S.pick("inplace", 2)
    kw = {"inplace": bool(inplace)}
    if op == "sum_vis":
        kw["difference"] = bool(S.pick("difference", 2))
        kw["verbose_history"] = bool(S.pick("vh", 2))
        y.history += " other steps."
    if not S.pick("check", 2):
        kw["run_check"] = False
    out = getattr(x, op)(y, **kw)
    res = x if inplace else out
    diff = op == "diff_vis" or kw.get("difference")
    S.same(res.data_array, dx - dy if diff else dx + dy, "visibilities")
    for p, (v, form) in ix.items():
        if p in ("_data_array", "_history", "_extra_keywords", "_filename", "_telescope"):
            continue
        cm.same_val(S, getattr(res, p).value, v, f"{p} of the result")
    S.prove(res.extra_keywords == {"A": 1, "B": 2, "C": 4}, "extra keywords")
    S.same(y.data_array, dy, "second operand")
    if not inplace:
        S.same(x.data_array, dx, "first operand")
        S.prove(x.extra_keywords == {"A": 1, "B": 2}, "first operand's keywords")
    else:
        S.prove(out is None, "in place returns nothing")
    word = "differenced" if diff else "summed"
    S.prove(word in res.history, "history")
    S.prove(ix["_history"][0] in res.history, "history kept")


DIFFS = ["uvw_array", "time_array", "freq_array", "polarization_array", "ant_1_array", "flag_array",
         "nsample_array", "integration_time", "channel_width", "vis_units", "lst_array"]


def _alter(S, y, nm):
    if nm == "vis_units":
        y.vis_units = "Jy"
    elif nm == "polarization_array":
        y.polarization_array = np.array([-5, -6])
    elif nm == "ant_1_array":
        y.ant_1_array = y.ant_1_array + np.array([2, 0])
        y.baseline_array = y.antnums_to_baseline(y.ant_1_array, y.ant_2_array)
    elif nm == "flag_array":
        i = S.pick("i", 8)
        f = y.flag_array.reshape(-1).copy()
        f[i] = ~f[i]
        y.flag_array = f.reshape(y.flag_array.shape)
    else:
        v = getattr(y, nm).copy()
        i = S.pick("i", v.size)
        d = {"time_array": 1.0e-5, "freq_array": 2.0e4, "lst_array": 1e-3}.get(nm, 1.0)
        flat = v.reshape(-1)
        flat[i] = flat[i] + d
        setattr(y, nm, flat.reshape(v.shape))


@case(P, bounds=B, nm=DIFFS)
def mismatch(S, nm):
    """anything but the visibilities differing is refused, unless overridden"""
    x, y = _two(S)
    _alter(S, y, nm)
    dx, dy = x.data_array.copy(), y.data_array.copy()
    op = S.choice("op", ["sum_vis", "diff_vis"])
    kw = dict(check_extra=False, run_check_acceptability=False)
    err = S.raises(lambda: getattr(x, op)(y, inplace=bool(S.pick("ip", 2)), **kw), ValueError)
    S.prove(err is not None, f"{nm} differs but combined")
    S.same(x.data_array, dx, "first operand after refusal")
    S.same(y.data_array, dy, "second operand after refusal")
    if nm in ("flag_array", "nsample_array", "uvw_array", "integration_time"):
        old = getattr(x, nm).copy()
        nm2 = S.choice("us", ["", "_"]) + nm
        out = getattr(x, op)(y, override_params=[nm2], **kw)
        S.same(out.data_array, dx + dy if op == "sum_vis" else dx - dy, "overridden")
        S.same(getattr(out, nm), old, "first object's value kept")
