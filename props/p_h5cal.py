"""CalH5 and UVFlag HDF5 files return what was written, in whole or in part."""
import os

import numpy as np
from symx.harness import case, fixture

from pyuvdata import UVCal, UVFlag
from pyuvdata.uvcal import FastCalH5Meta

from . import common as cm
from . import p_cal as pc
from . import p_flagops as pf
from .p_flag import quiet
from .p_uvh5 import SETS, _eq, _tel

P = "C20"
B = ("real HDF5 files in a scratch directory; 3-12 antennas, 1-12 channels or windows, 1-12 times, 1-4 Jones terms; all "
     "gains, delays, flags, metrics, weights and qualities symbolic; every listed kind of index set and keyword")
RD = dict(run_check=False, run_check_acceptability=False)
SKIP = {"_filename", "_history", "_telescope"}


def _same(S, new, old, msg, skip=()):
    for p, (v, _) in old.items():
        if p in SKIP or p in skip:
            continue
        got = getattr(new, p).value
        if isinstance(v, dict):
            S.prove(isinstance(got, dict) and sorted(got) == sorted(v), f"{msg}: keys of {p[1:]}")
            for k in v:
                if isinstance(v[k], dict):
                    S.prove(sorted(got[k]) == sorted(v[k]) and all(_eq(got[k][q], v[k][q]) for q in v[k]),
                            f"{msg}: {p[1:]} {k}")
                else:
                    S.prove(_eq(got[k], v[k]), f"{msg}: {p[1:]} {k}")
        else:
            if isinstance(v, np.ndarray) and v.dtype.kind in "biufc":
                S.prove(np.shape(got) == v.shape, f"{msg}: shape of {p[1:]}: {np.shape(got)}")
            cm.same_val(S, got, v, f"{msg}: {p[1:]}")


def _write(u, d, name="a.calh5"):
    fn = os.path.join(d, name)
    quiet(u.write_calh5, fn, run_check=False, flags_compression=None, quality_compression=None)
    return fn


def _full(c):
    c.observer, c.git_origin_cal, c.git_hash_cal = "me", "here", "abc"
    c.diffuse_model, c.gain_scale = "gsm", "Jy"
    c.baseline_range = [10.0, 500.0]
    c.extra_keywords = {"A": "text", "B": 3, "C": 2.5, "D": None}
    c.pol_convention = "sum"
    c.scan_number_array = np.arange(c.Ntimes) + 7
    return c


KINDS = {
    "gain": dict(), "delay": dict(kind="delay", wide=True), "wide": dict(wide=True), "trange": dict(trange=True),
    "sky": dict(style="sky"), "delay_trange": dict(kind="delay", wide=True, trange=True, spws=(3, 1)),
    "windows": dict(freqs=(0, 1, 10, 11)), "pols4": dict(jones=(-5, -6, -7, -8)),
}


@case(P, bounds=B, kind=list(KINDS) + ["flex"])
def cal_round_trip(S, kind):
    """everything written is read back, and writing changes nothing in memory"""
    if kind == "flex":
        c = cm.symcal(S, cm.cal(jones=(-5, -6), freqs=(0, 1)), quality=True)
        quiet(c.convert_to_flex_jones)
    else:
        c = cm.symcal(S, cm.cal(**KINDS[kind]), quality=bool(S.pick("q", 2)), total=bool(S.pick("t", 2)))
    if S.pick("full", 2):
        _full(c)
    old, tel = cm.snap(c), cm.snap(c.telescope)
    with S.scratch() as d:
        fn = _write(c, d)
        _same(S, c, old, "object after writing")
        S.prove(S.raises(lambda: c.write_calh5(fn, run_check=False), IOError) is not None, "overwrote a file")
        new = quiet(UVCal.from_file, fn, **RD)
        m = FastCalH5Meta(fn)
        for a in cm.ANTS:
            for j in (-5, -6, -7, "jee", "jnn"):
                num = {"jee": -5, "jnn": -6}.get(j, j)
                S.prove(bool(m.has_key(a, j)) == (a in c.ant_array and num in c.jones_array), f"has_key({a}, {j})")
        S.same(m.ant_array, c.ant_array, "FastCalH5Meta antennas")
        m.close()
    _same(S, new, old, "read back")
    _tel(S, new.telescope, tel, "read back telescope")


@fixture
def big(na, nf, nt, nj, wide):
    """keyed calibration with long axes (antennas limited to the telescope's four)"""
    return cm.cal(ants=(7, 1, 3, 12)[:na], times=tuple(range(nt)), jones=(-5, -6, -7, -8)[:nj], wide=wide,
                  **(dict(spws=tuple(range(nf))) if wide else dict(
                      freqs=tuple(range(min(nf, 8))) + tuple(range(10, 10 + max(nf - 8, 0))))))


SHAPES = {"ant": (4, 3, 4, 2), "freq": (3, 13, 2, 2), "time": (3, 2, 13, 2), "jones": (3, 3, 3, 4)}


@case(P, bounds=B, main=list(SHAPES), wide=[False, True], has=["neither", "quality", "total"])
def cal_partial_arrays(S, main, wide, has):
    """... also when only some of the optional arrays are there"""
    cal_partial_index(S, main, wide, has)


@case(P, bounds=B, main=list(SHAPES), wide=[False, True])
def cal_partial_index(S, main, wide, has=None):
    """reading subsets of any axes gives exactly those entries"""
    na, nf, nt, nj = SHAPES[main]
    c = cm.symcal(S, big(na, nf, nt, nj, wide), total=has in (None, "total"), quality=has in (None, "quality"))
    some = {"ant": ["none", "two", "one"], "freq": ["none", "two", "one"], "time": ["none", "two", "one"],
            "jones": ["none", "two" if nj > 2 else "one"]}
    some[main] = {"ant": ["one", "two", "irr3", "all", "rev"], "jones": ["one", "two", "irr3", "all", "rev"]}.get(
        main, ["run", "short", "step", "irr", "two", "one", "gap", "all", "rev"])
    if has is not None:
        some = dict.fromkeys(some, ["none", "two" if nj > 2 else "one"])
        some[main] = ["one"]
    sets = dict(SETS, irr3=lambda n: [0, 1, 3])
    pick = {k: sets[S.choice(k, some[k])](n) for k, n in zip(("ant", "freq", "time", "jones"), (na, nf, nt, nj))}
    kw = {}
    if pick["ant"] is not None:
        kw["antenna_nums"] = [int(c.ant_array[i]) for i in pick["ant"]]
    if pick["freq"] is not None:
        if wide:
            kw["spws"] = [int(c.spw_array[i]) for i in pick["freq"]]
        else:
            kw["freq_chans"] = pick["freq"]
    if pick["time"] is not None:
        kw["times"] = [float(c.time_array[i]) for i in pick["time"]]
    if pick["jones"] is not None:
        kw["jones"] = [int(c.jones_array[i]) for i in pick["jones"]]
    (ants, fr, ts, js), vals, meta = pc.table(c)
    with S.scratch() as d:
        fn = _write(c, d)
        new = quiet(UVCal.from_file, fn, **kw, **RD)
    keep = [[k[i] for i in sorted(pick[n])] if pick[n] is not None else k
            for n, k in zip(("ant", "freq", "time", "jones"), (ants, fr, ts, js))]
    nk, nv, nm = pc.table(new)
    S.prove([list(a) for a in nk] == [list(a) for a in keep], f"axes {nk} expected {keep}")
    for k, v in nv.items():
        S.same(v, vals[k], f"{k[0]} value of its place")
    S.prove({k[0] for k in nv} == {k[0] for k in vals}, "arrays present")
    for k, v in nm.items():
        S.prove(v == meta[k], f"{k}")
    S.prove((new.Nants_data, new.Ntimes, new.Njones) == (len(keep[0]), len(keep[2]), len(keep[3])), "sizes")


@case(P, bounds=B, kind=["gain", "wide", "trange", "windows"],
      key=["antenna_names", "frequencies", "spws", "times", "time_range", "lsts", "lst_range", "jones", "mixed"])
def cal_partial_keys(S, kind, key):
    """reading with any selection keyword is the same as reading all and selecting"""
    args = dict(KINDS[kind], times=(0, 1, 2), jones=(-5, -6, -7))
    if kind == "wide":
        args["spws"] = (4, 2, 3)
    if kind == "windows" and key == "spws":
        args["freqs"] = (10, 0, 1)
    c = cm.symcal(S, cm.cal(**args), total=True)
    t = c.time_array if c.time_array is not None else c.time_range[:, 0] + 1e-4
    lst = c.lst_array if c.lst_array is not None else c.lst_range[:, 0] + 1e-4
    kw = {
        "antenna_names": lambda: dict(antenna_names=S.choice("v", [["a1"], ["a7", "a3"], ["a12"], ["zz"]])),
        "frequencies": lambda: dict(frequencies=[float(c.freq_array[i]) for i in S.subset("v", 3, 1)]
                                    if c.freq_array is not None else [1.0e8]),
        "spws": lambda: dict(spws=S.choice("v", [[1], [2], [3, 2], [9]])),
        "times": lambda: dict(times=[float(t[i]) for i in S.subset("v", 3, 1)]),
        "time_range": lambda: dict(time_range=S.choice("v", [[cm.T0 - 1, cm.T0 + 0.0006], [cm.T0 + 0.00046, cm.T0 + 1],
                                                             [cm.T0 + 3, cm.T0 + 4]])),
        "lsts": lambda: dict(lsts=[float(lst[i]) for i in S.subset("v", 3, 1)]),
        "lst_range": lambda: dict(lst_range=S.choice("v", [[float(lst[0]) - 1e-4, float(lst[0]) + 1e-3], [6.2, 0.001]])),
        "jones": lambda: dict(jones=S.choice("v", [["Jee"], [-7, -5], ["Jxy", "Jxx"], ["Jrr"]])),
        "mixed": lambda: dict(antenna_nums=[1, 7], jones=[-6, -7], times=[float(t[0]), float(t[2])]),
    }[key]()
    with S.scratch() as d:
        fn = _write(c, d)
        whole = quiet(UVCal.from_file, fn, **RD)
        e1 = S.raises(lambda: whole.select(run_check=False, **kw), Exception)
        got = []
        e2 = S.raises(lambda: got.append(UVCal.from_file(fn, **kw, **RD)), Exception)
    S.prove((e1 is None) == (e2 is None), f"select: {e1!r}; partial read: {e2!r}")
    if e1 is None:
        _same(S, got[0], cm.snap(whole), f"read({kw})")
        _tel(S, got[0].telescope, cm.snap(whole.telescope), f"read({kw}) telescope")


@case(P, bounds=B, kind=["gain", "delay", "windows"])
def cal_metadata_only(S, kind):
    c = cm.symcal(S, cm.cal(**KINDS[kind]))
    old = cm.snap(c)
    with S.scratch() as d:
        fn = _write(c, d)
        new = quiet(UVCal.from_file, fn, read_data=False, **RD)
        S.prove(new.metadata_only and new.gain_array is None and new.flag_array is None, "metadata only")
        data = ("_gain_array", "_delay_array", "_flag_array", "_quality_array", "_total_quality_array")
        _same(S, new, {k: v for k, v in old.items() if k not in data}, "metadata")
        quiet(new.read, fn, **RD)
    _same(S, new, old, "read later")


@case(P, bounds=B, axis=["antenna", "freq", "time", "jones"], concat=[False, True])
def cal_several(S, axis, concat):
    """reading a list of files is reading each and adding them"""
    full = dict(ants=(1, 3, 7), freqs=(0, 1, 2), times=(0, 1, 2), jones=(-5, -6, -7))
    nm = dict(antenna="ants", freq="freqs", time="times", jones="jones")[axis]
    k = S.pick("k", 2) + 1
    one = cm.symcal(S, cm.cal(**dict(full, **{nm: full[nm][:k]})), "x")
    two = cm.symcal(S, cm.cal(**dict(full, **{nm: full[nm][k:]})), "y")
    swap = S.pick("swap", 2)
    t1, t2 = pc.table(one), pc.table(two)
    with S.scratch() as d:
        fns = [_write(one, d, "one.calh5"), _write(two, d, "two.calh5")]
        if swap:
            fns = fns[::-1]
        new = quiet(UVCal.from_file, fns, **(dict(axis=axis) if concat else {}), **RD)
    nk, nv, _ = pc.table(new)
    for have, a, b, what in zip(nk, t1[0], t2[0], ("antennas", "channels", "times", "jones")):
        S.prove(sorted(have) == sorted(set(a) | set(b)), f"{what}: {have}")
    vals = {**t1[1], **t2[1]}
    S.prove(set(nv) == set(vals), "entries")
    for q, v in nv.items():
        S.same(v, vals[q], f"{q[0]} value of its place")


# ------------------------------------------------------------------------ UVFlag
@case(P, bounds=B, kind=["baseline", "antenna", "waterfall"], mode=["flag", "metric"])
def flag_round_trip(S, kind, mode):
    """everything written is read back, and writing changes nothing in memory"""
    f = pf.mk(S, kind, mode, freqs=S.choice("fr", [(0, 1), (0, 10, 1), (3,)]), wsq=mode == "metric" and bool(S.pick("wsq", 2)))
    how = S.choice("how", ["plain", "extra", "collapsed"])
    f.label = "a label"
    if how == "extra":
        f.extra_keywords = {"A": "text", "B": 3, "C": 2.5, "D": None}
    elif how == "collapsed":
        if f.weights_square_array is not None:
            S.assume(False)
        if mode == "flag":
            f.to_metric(convert_wgts=False)
        quiet(f.collapse_pol)
    old, tel = cm.snap(f), cm.snap(f.telescope)
    with S.scratch() as d:
        fn = os.path.join(d, "a.h5")
        quiet(f.write, fn, data_compression=None)
        _same(S, f, old, "object after writing")
        S.prove(S.raises(lambda: f.write(fn), ValueError) is not None, "overwrote a file")
        new = quiet(UVFlag, fn, run_check=False)
    _same(S, new, old, "read back")
    _tel(S, new.telescope, tel, "read back telescope")


@case(P, bounds=B, kind=["baseline", "antenna", "waterfall"], mode=["flag", "metric"])
def flag_several(S, kind, mode):
    """reading a list of files joins them along time"""
    if kind == "baseline":
        a, b = dict(blts=((7, 1, 0), (1, 3, 0), (3, 7, 1))), dict(blts=((7, 1, 1), (1, 3, 2), (3, 7, 3)))
    else:
        a, b = dict(times=(0, 2)), dict(times=(1,))
    one, two = pf.mk(S, kind, mode, tag="x", **a), pf.mk(S, kind, mode, tag="y", **b)
    (k1, v1, l1), (k2, v2, l2) = pf.table(one), pf.table(two)
    swap = S.pick("swap", 2)
    with S.scratch() as d:
        fns = []
        for n, f in (("one", one), ("two", two)):
            fns.append(os.path.join(d, n + ".h5"))
            quiet(f.write, fns[-1], data_compression=None)
        new = quiet(UVFlag, fns[::-1] if swap else fns, run_check=False)
    pf.consistent(S, new, (k1[0] + k2[0], k1[1], k1[2], k1[3]), {**v1, **v2}, {**l1, **l2}, "several files")
