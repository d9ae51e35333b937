"""Calibration objects: selecting, reordering, looking up, and changing representation."""
import itertools
import warnings

import numpy as np
from symx.harness import case

from pyuvdata.utils.phase_center_catalog import generate_phase_center_cat_entry

from . import common as cm
from .p_flag import quiet, tkey

P = "C15"
B = ("up to 3 antennas, 3 channels or 3 wide spectral windows in 2 windows, 3 times or time ranges, 2 Jones terms; gains, delays, "
     "flags and qualities symbolic; every subset of each axis, requested in any form")
NAMES = ["gain_array", "delay_array", "flag_array", "quality_array"]
TIMES = ["lst_array", "integration_time", "phase_center_id_array", "ref_antenna_array", "time_range", "lst_range"]


def fkeys(c):
    if c.wide_band:
        return [(int(s), tuple(float(x) for x in r)) for s, r in zip(c.spw_array, c.freq_range)]
    return [(int(s), float(f), float(w)) for s, f, w in zip(c.flex_spw_id_array, c.freq_array, c.channel_width)]


def tkeys(c):
    return [tkey(t) for t in (c.time_array if c.time_array is not None else c.time_range[:, 0])]


def jkeys(c):
    return [int(j) for j in c.jones_array]


def table(c):
    ants, fr, ts, js = [int(a) for a in c.ant_array], fkeys(c), tkeys(c), jkeys(c)
    vals = {}
    ix = list(itertools.product(*(list(enumerate(k)) for k in (ants, fr, ts, js))))
    for nm in NAMES:
        v = getattr(c, nm)
        if v is not None:
            for (a, A), (f, F), (t, T), (j, J) in ix:
                vals[nm, A, F, T, J] = v[a, f, t, j]
    if c.total_quality_array is not None:
        for (f, F), (t, T), (j, J) in itertools.product(*(list(enumerate(k)) for k in (fr, ts, js))):
            vals["total_quality_array", F, T, J] = c.total_quality_array[f, t, j]
    meta = {}
    for nm in TIMES:
        v = getattr(c, nm)
        if v is not None:
            for i, t in enumerate(ts):
                meta[nm, t] = np.array(v)[i].tolist()
    if c.flex_jones_array is not None:
        for s, j in zip(c.spw_array, c.flex_jones_array):
            meta["flex_jones_array", int(s)] = int(j)
    return (ants, fr, ts, js), vals, meta


def consistent(S, c, want, vals, meta, msg, spws=None, fill=False):
    keys, got, gmeta = table(c)
    for have, exp, what in zip(keys, want, ("antennas", "channels", "times", "jones")):
        S.prove(sorted(have) == sorted(exp), f"{msg}: {what} {have} expected {exp}")
    S.prove({k[0] for k in got} == {k[0] for k in vals}, f"{msg}: arrays present")
    for k, v in got.items():
        if k in vals:
            S.same(v, vals[k], f"{msg}: {k[0]} of its place")
        else:
            S.prove(fill, f"{msg}: unexpected entry")
            S.same(v, True if k[0] == "flag_array" else 0.0, f"{msg}: {k[0]} where there is no solution")
    for k, v in gmeta.items():
        S.prove(v == meta[k], f"{msg}: {k} is {v}")
    S.prove({k[0] for k in gmeta} == {k[0] for k in meta}, f"{msg}: metadata present")
    S.prove((c.Nants_data, c.Ntimes, c.Njones) == (len(keys[0]), len(keys[2]), len(keys[3])), f"{msg}: sizes")
    sp = list(dict.fromkeys(f[0] for f in keys[1]))
    S.prove(c.Nfreqs == (1 if c.wide_band else len(keys[1])), f"{msg}: Nfreqs")
    S.prove([int(s) for s in c.spw_array] == sp and c.Nspws == len(sp), f"{msg}: spectral windows {c.spw_array}")
    quiet(c.check)


VAR = ["gain", "delay", "widegain", "trange", "sky", "flexjones"]


def mk(S, var, ants=(7, 1, 3), times=(2, 0, 1), freqs=(0, 1, 10), jones=(-5, -6), tag="", total=False, spws=(0, 2, 1)):
    kw = dict(ants=ants, times=times, jones=jones)
    if var in ("delay", "widegain"):
        kw.update(kind="delay" if var == "delay" else "gain", wide=True, spws=spws)
    elif var == "flexjones":
        kw.update(freqs=freqs, jones=(0,))
    else:
        kw.update(freqs=freqs)
    kw["trange"] = var == "trange"
    if var == "sky":
        kw["style"] = "sky"
    c = cm.cal(**kw)
    if var == "sky":
        c.ref_antenna_name = "various"
        c.ref_antenna_array = np.array([(1, 3, 7)[t % 3] for t in times])
        c.phase_center_catalog = {i: generate_phase_center_cat_entry(
            cat_name=f"s{i}", cat_type="sidereal", cat_lon=0.1 * i, cat_lat=0.2, cat_frame="icrs", cat_epoch=2000.0)
            for i in range(2)}
        c.Nphase = 2
        c.phase_center_id_array = np.array([t % 2 for t in times])
    if not c.wide_band:
        c.spw_array = np.array(list(dict.fromkeys(int(x) for x in c.flex_spw_id_array)))
    if var == "flexjones":
        c.flex_jones_array = np.array([{1: -6, 2: -5}.get(s, -7) for s in c.spw_array])
    cm.symcal(S, c, tag, total=total and var != "flexjones")
    return c


# ---------------------------------------------------------------------------- select
def vw(whats, var=VAR):
    return [(v, w) for v in var for w in whats if not (v == "flexjones" and "jones" in w)]


@case(P, bounds=B, vw=vw(["ants", "freqs", "times", "jones", "spws"]))
def select(S, vw):
    var, what = vw
    one = dict(ants=(7, 1), times=(1, 0), freqs=(0,), jones=(-5,), spws=(0,))
    full = dict(ants=dict(ants=(7, 1, 3)), freqs=dict(freqs=(0, 1, 10)), times=dict(times=(2, 0, 1)), jones=dict(jones=(-5, -6)),
                spws=dict(freqs=(0, 10, 11), spws=(0, 2, 1)))[what]
    wide = var in ("delay", "widegain")
    if wide:
        one["spws"] = (2, 1)
    c = mk(S, var, **{**one, **full}, total=True)
    (ants, fr, ts, js), vals, meta = table(c)
    kw = {}
    if what == "ants":
        sub = [ants[i] for i in S.subset("a", 3, 1)]
        if S.pick("names", 2):
            nm = dict(zip((int(n) for n in c.telescope.antenna_numbers), c.telescope.antenna_names))
            kw["antenna_names"] = [nm[a] for a in sub]
        else:
            kw["antenna_nums"] = sub[::-1]
        ants = sub
    elif what == "freqs":
        if wide:
            S.prove(S.raises(lambda: c.select(freq_chans=[0]), ValueError) is not None, "no channels in a wide-band object")
            return
        sub = S.subset("f", 3, 1)
        how = S.choice("how", ["chan", "freq", "both"])
        kw = {"chan": dict(freq_chans=sub[::-1]), "freq": dict(frequencies=[fr[i][1] for i in sub]),
              "both": dict(freq_chans=sub[:1], frequencies=[fr[i][1] for i in sub[1:]] or [fr[sub[0]][1]])}[how]
        fr = [fr[i] for i in sub]
    elif what == "spws":
        ids = sorted({f[0] for f in fr})
        sub = [ids[i] for i in S.subset("s", len(ids), 1)]
        kw["spws"] = sub[::-1]
        fr = [f for f in fr if f[0] in sub]
    elif what == "jones":
        sub = [js[i] for i in S.subset("j", 2, 1)]
        if S.pick("str", 2):
            kw["jones"] = [{-5: "Jxx", -6: "Jnn"}[j] for j in sub]
        else:
            kw["jones"] = sub[::-1]
        js = sub
    else:
        hows = ["times"] + (["pcid", "name"] if var == "sky" else [])
        how = S.choice("how", hows)
        if how == "times":
            sub = S.subset("t", 3, 1)
            kw["times"] = [float(c.time_array[i]) if c.time_array is not None else float(c.time_range[i].mean()) for i in sub]
            ts = [ts[i] for i in sub]
        else:
            sub = S.subset("p", 2, 1)
            kw["phase_center_ids" if how == "pcid" else "catalog_names"] = sub if how == "pcid" else [f"s{i}" for i in sub]
            ts = [t for t in ts if t % 2 in sub]
    inplace = bool(S.pick("inplace", 2))
    before = c.copy()
    res = quiet(c.select, inplace=inplace, **kw)
    out = c if inplace else res
    sp = {f[0] for f in fr}
    meta = {k: v for k, v in meta.items() if k[0] != "flex_jones_array" or k[1] in sp}
    consistent(S, out, (ants, fr, ts, js), vals, meta, "select")
    if not inplace:
        S.same(c.flag_array, before.flag_array, "original untouched")
        S.same(c.ant_array, before.ant_array, "original untouched")


@case(P, bounds=B)
def select_flexjones(S):
    """a Jones selection on a flexible-Jones object keeps the windows of that Jones term"""
    c = mk(S, "flexjones", ants=(7, 1), times=(1, 0), freqs=(0, 1, 10, 20))
    (ants, fr, ts, js), vals, meta = table(c)
    j = S.choice("j", [[-5], [-6], [-6, -5]])
    kw = {}
    if S.pick("chan", 2):
        sub = S.subset("f", 4, 1)
        kw["freq_chans"] = sub
        fr = [fr[i] for i in sub]
    fr = [f for f in fr if meta["flex_jones_array", f[0]] in j]
    err = S.raises(lambda: quiet(c.select, jones=j, **kw), ValueError)
    S.prove((err is not None) == (not fr), f"refused exactly when nothing is left: {err}")
    if fr:
        sp = {f[0] for f in fr}
        meta = {k: v for k, v in meta.items() if k[0] != "flex_jones_array" or k[1] in sp}
        consistent(S, c, (ants, fr, ts, js), vals, meta, "select")


@case(P, bounds=B, ranges=[False, True])
def select_time_range(S, ranges):
    """a range keeps the times in it, or the time ranges that overlap it"""
    c = mk(S, "trange" if ranges else "gain", ants=(7, 1), times=(2, 0, 1), freqs=(0,), jones=(-5,))
    (ants, fr, ts, js), vals, meta = table(c)
    lo = S.real("lo", -0.002, 0.002)
    hi = S.real("hi", -0.002, 0.002)
    S.assume(lo <= hi - 1e-6)
    keep = []
    for t in ts:
        a, b = 0.0005 * t, 0.0005 * t + (0.0004 if ranges else 0)
        for e in (a, b):
            S.assume(abs(lo - e) > 1e-7)
            S.assume(abs(hi - e) > 1e-7)
        if bool(lo < b) and bool(a < hi):
            keep.append(t)
    err = S.raises(lambda: quiet(c.select, time_range=[lo + cm.T0, hi + cm.T0]), ValueError)
    S.prove((err is None) == bool(keep), f"refused exactly when empty: {err}")
    if keep:
        consistent(S, c, (ants, fr, keep, js), vals, meta, "time range")


TWO = 2 * np.pi


@case(P, bounds=B, ranges=[False, True], how=["lsts", "lst_range"])
def select_lst(S, ranges, how):
    """LST selections, also across the wrap at 24 hours"""
    c = mk(S, "trange" if ranges else "gain", ants=(7,), times=(0, 1), freqs=(0,), jones=(-5,))
    (ants, fr, ts, js), vals, meta = table(c)
    wrap = S.pick("objwrap", 2)
    if ranges:
        rg = [(6.1, 0.2) if wrap else (0.5, 1.0), (1.5, 2.0)]
        c.lst_range = np.array(rg)
    else:
        rg = [(x, x) for x in ((6.2, 0.1) if wrap else (0.5, 1.5))]
        c.lst_array = np.array([r[0] for r in rg])
    _, vals, meta = table(c)

    def inside(r, x):
        return bool(x >= r[0]) and bool(x <= r[1]) if r[0] <= r[1] else bool(x >= r[0]) or bool(x <= r[1])

    if how == "lst_range":
        lo, hi = S.real("lo", 0, TWO), S.real("hi", 0, TWO)
        for r in rg:
            for e in r:
                S.assume(abs(lo - e) > 1e-6)
                S.assume(abs(hi - e) > 1e-6)
        S.assume(abs(lo - hi) > 1e-6)
        sel = (lo, hi)
        swrap = bool(lo > hi)
        keep = []
        for t, r in zip(ts, rg):
            if swrap:
                hit = bool(r[0] >= lo) or bool(r[0] <= hi)
            else:
                hit = bool(r[0] >= lo) and bool(r[0] <= hi)
            if hit or inside(r, lo):
                keep.append(t)
        kw = dict(lst_range=[lo, hi])
    else:
        x = S.real("x", 0, TWO)
        keep = []
        for t, r in zip(ts, rg):
            for e in r:
                S.assume(abs(x - e) > 1e-5) if ranges else None
            if ranges:
                if inside(r, x):
                    keep.append(t)
            else:
                if bool(abs(x - r[0]) < 1e-12):
                    keep.append(t)
                else:
                    S.assume(abs(x - r[0]) > 1e-6)
        kw = dict(lsts=[x])
    err = S.raises(lambda: quiet(c.select, run_check=False, **kw), ValueError)
    S.prove((err is None) == bool(keep), f"refused exactly when empty: {err}")
    if err is None:
        got = tkeys(c)
        S.prove(got == keep, f"kept {got}, expected {keep}")
        _, v2, _ = table(c)
        for k, v in v2.items():
            S.same(v, vals[k], k[0])


# ---------------------------------------------------------------------------- reorder
@case(P, bounds=B, vw=vw(["antennas", "times", "jones"]))
def reorder(S, vw):
    var, what = vw
    one = dict(ants=(7, 1), times=(1, 0), freqs=(0,), jones=(-6, -5), spws=(0,))
    one.update(dict(antennas=dict(ants=(3, 7, 1)), times=dict(times=(1, 2, 0)), jones={})[what])
    c = mk(S, var, total=True, **one)
    want, vals, meta = table(c)
    n = dict(antennas=3, times=3, jones=2)[what]
    orders = dict(antennas=["number", "-number", "name", "-name"], times=["time", "-time"],
                  jones=["number", "-number", "name", "-name"])[what]
    perms = [list(p) for p in itertools.permutations(range(n))]
    o = S.pick("order", len(orders) + len(perms))
    arg = orders[o] if o < len(orders) else perms[o - len(orders)]
    if o >= len(orders) and S.pick("np", 2):
        arg = np.array(arg)
    quiet(getattr(c, "reorder_" + what), arg)
    consistent(S, c, want, vals, meta, "reorder")
    have = {"antennas": [int(a) for a in c.ant_array], "times": tkeys(c), "jones": jkeys(c)}[what]
    if o >= len(orders):
        old = {"antennas": want[0], "times": want[2], "jones": want[3]}[what]
        S.prove(have == [old[i] for i in arg], "order as given")
        return
    if "name" in arg and what == "antennas":
        nm = dict(zip((int(x) for x in c.telescope.antenna_numbers), c.telescope.antenna_names))
        have = [nm[a] for a in have]
    elif "name" in arg:
        have = [{-5: "Jee", -6: "Jnn"}[j] for j in have]
    S.prove(have == sorted(have, reverse=arg[0] == "-"), f"sorted {arg}: {have}")


@case(P, bounds=B, var=VAR)
def reorder_freqs(S, var):
    wide = var in ("delay", "widegain")
    c = mk(S, var, ants=(7,), times=(1,), jones=(-5,), freqs=(11, 10, 20, 1, 0), spws=(2, 0, 1), total=True)
    if not wide and S.pick("rev", 2):
        c.freq_array = c.freq_array[::-1].copy()
    want, vals, meta = table(c)
    spo = S.choice("spw", ["number", "-number", "freq", "-freq", None, "inds"])
    cho = S.choice("chan", ["freq", "-freq", None]) if not wide else None
    sel = S.choice("select", [None, 2]) if not wide and cho is not None and spo is None else None
    kw = {}
    n = c.Nspws
    if spo is not None:
        kw["spw_order"] = spo if spo != "inds" else list(range(n))[::-1]
    if cho is not None:
        kw["channel_order"] = cho
    if sel is not None:
        kw["select_spw"] = sel
    old = fkeys(c)
    osp = list(dict.fromkeys(f[0] for f in old))
    quiet(c.reorder_freqs, **kw)
    consistent(S, c, want, vals, meta, "reorder_freqs")
    new = fkeys(c)
    nsp = list(dict.fromkeys(f[0] for f in new))
    fr = (lambda f: np.mean(f[1])) if wide else (lambda f: f[1])
    if spo == "inds":
        S.prove(nsp == osp[::-1], "windows as given")
    elif spo in ("number", "-number") or (wide and spo is None):
        S.prove(nsp == sorted(nsp, reverse=spo == "-number"), f"windows by number {nsp}")
    elif spo is not None:
        m = [np.mean([fr(f) for f in new if f[0] == s]) for s in nsp]
        S.prove(m == sorted(m, reverse=spo == "-freq"), f"windows by frequency {m}")
    elif sel is not None or True:
        S.prove(nsp == osp, "windows unchanged") if (spo is None and not wide) else None
    for s in nsp:
        if wide:
            continue
        ch = [f[1] for f in new if f[0] == s]
        oc = [f[1] for f in old if f[0] == s]
        if cho is None or (sel is not None and s != sel):
            S.prove(ch == oc, "channels of the window unchanged")
        else:
            S.prove(ch == sorted(ch, reverse=cho == "-freq"), f"channels sorted {ch}")


# ---------------------------------------------------------------------------- look-ups
@case(P, bounds=B, var=["gain", "widegain", "sky"])
def getters(S, var):
    """get_gains, get_flags and get_quality return the entries of that antenna and Jones term"""
    nj = S.choice("nj", [(-5, -6), (-6,)])
    c = mk(S, var, jones=nj, times=(1, 0), freqs=(0, 1), spws=(0, 1))
    a = S.choice("ant", [7, 1, 3])
    i = [7, 1, 3].index(a)
    j = S.choice("jp", [None, -6, "Jyy", "Jnn"])
    form = S.choice("form", ["arg", "tuple"])
    for fn, arr in (("get_gains", c.gain_array), ("get_flags", c.flag_array), ("get_quality", c.quality_array)):
        f = getattr(c, fn)
        sq = bool(S.pick("sq" + fn, 2)) if fn == "get_gains" else True
        if j is None:
            r = f(a, squeeze_pol=sq) if form == "arg" else f((a,), squeeze_pol=sq)
            e = arr[i]
            if sq and len(nj) == 1:
                e = e[:, :, 0]
        else:
            r = f(a, j) if form == "arg" else f((a, j))
            e = arr[i][:, :, list(nj).index(-6)]
        S.prove(r.shape == e.shape, f"{fn} shape")
        S.same(r, e, fn)
    S.prove(S.raises(lambda: c.get_gains(5), ValueError) is not None, "unknown antenna")
    S.prove(S.raises(lambda: c.get_flags(7, "Jxy"), ValueError) is not None, "unknown Jones")


# ---------------------------------------------------------------------------- representation
@case(P, bounds=B, conv=["minus", "plus"])
def delay_to_gain(S, conv):
    """delays become exp(-/+ 2 pi i nu tau); flags and qualities are kept for every channel"""
    c = mk(S, "delay", ants=(7, 1), times=(1, 0), jones=(-5, -6), spws=(0,))
    c.delay_array = S.reals("d", c.delay_array.shape, -1e-7, 1e-7)
    tot = bool(S.pick("total", 2))
    if tot:
        c.total_quality_array = S.reals("t", c.delay_array.shape[1:])
    d, f, q = c.delay_array.copy(), c.flag_array.copy(), c.quality_array.copy()
    t = c.total_quality_array.copy() if tot else None
    fr = np.array([1.01e8, 1.05e8])
    quiet(c.convert_to_gain, freq_array=fr, channel_width=np.array([1e6, 2e6]), delay_convention=conv)
    S.prove(c.cal_type == "gain" and not c.wide_band and c.delay_array is None and c.freq_range is None, "type")
    S.prove(c.gain_array.shape == (2, 2, 2, 2) and c.Nfreqs == 2, "shape")
    S.same(c.freq_array, fr, "frequencies")
    sg = -1 if conv == "minus" else 1
    for a, k, ti, j in np.ndindex(2, 2, 2, 2):
        ph = sg * TWO * d[a, 0, ti, j] * fr[k]
        g = c.gain_array[a, k, ti, j]
        S.same(g.real, np.cos(ph), "gain")
        S.same(g.imag, np.sin(ph), "gain")
        S.same(c.flag_array[a, k, ti, j], f[a, 0, ti, j], "flag")
        S.same(c.quality_array[a, k, ti, j], q[a, 0, ti, j], "quality")
        if tot:
            S.same(c.total_quality_array[k, ti, j], t[0, ti, j], "total quality")
    quiet(c.check)


@case(P, bounds=B, var=["gain", "widegain", "delay"])
def flex_jones(S, var):
    """turning Jones terms into spectral windows and back keeps every solution"""
    c = mk(S, var, ants=(7, 1), times=(1, 0), freqs=(0, 1, 10), spws=(1, 2))
    (ants, fr, ts, js), vals, meta = table(c)
    quiet(c.convert_to_flex_jones)
    quiet(c.check)
    S.prove(c.Njones == 1 and int(c.jones_array[0]) == 0 and c.Nspws == 4, "flexible")
    sj = {int(s): int(j) for s, j in zip(c.spw_array, c.flex_jones_array)}
    S.prove(len(sj) == 4, "distinct windows")
    _, got, _ = table(c)
    seen = set()
    for k, v in got.items():
        nm, a, f, t, _ = k
        match = [x for x in fr if x[1:] == f[1:]]
        S.prove(len(match) == 1, "channel known")
        key = nm, a, match[0], t, sj[f[0]]
        S.same(v, vals[key], f"{nm} as window")
        seen.add(key)
    S.prove(seen == set(vals), "every solution kept")
    comb = bool(S.pick("combine", 2))
    quiet(c.remove_flex_jones, combine_spws=comb)
    quiet(c.check)
    S.prove(c.flex_jones_array is None and sorted(jkeys(c)) == [-6, -5], "regular again")
    if comb:
        consistent(S, c, (ants, fr, ts, js), vals, meta, "back again")
    else:
        _, got, _ = table(c)
        S.prove(c.Nspws == 4, "windows kept")
        for k, v in got.items():
            nm, a, f, t, j = k
            match = [x for x in fr if x[1:] == f[1:]][0]
            if j == sj[f[0]]:
                S.same(v, vals[nm, a, match, t, j], f"{nm} in its window")
            elif nm == "flag_array":
                S.same(v, True, "flagged elsewhere")
            else:
                S.same(v, 0.0, "nothing elsewhere")
