"""UVFITS, CalFITS and BeamFITS files return what was written, in whole or in part."""
import os

import numpy as np
from symx.harness import case, fixture

from pyuvdata import UVBeam, UVCal, UVData

from . import common as cm
from . import p_beam as pb
from .p_flag import quiet

P = "C21"
B = ("real FITS files in a scratch directory; 2-6 baseline-times or antennas, 1-6 channels, 1-4 polarizations, 1-3 times; "
     "all visibilities, flags, weights, gains, delays, qualities and beam values symbolic")
RD = dict(run_check=False, check_autos=False, fix_autos=False, run_check_acceptability=False)


def phased(layout, freqs=(0, 1, 2), pols=(-5, -6), spws=1, ncat=1, cats0=0, zero=False):
    """all baseline-times phased, everything distinct"""
    blts = cm.LAYOUTS[layout]
    n = len(blts)
    f = 1e8 + 1e6 * np.array(freqs, dtype=float)
    kw = {}
    if spws > 1:
        w = len(freqs) // spws
        ids = np.repeat(np.arange(spws), w)
        if spws > 1:
            f = f + 1e7 * (ids % 2) - 3e7 * (ids // 2)
        kw = dict(flex_spw_id_array=ids, spw_array=np.arange(spws))
    cat = {cats0 + c: {"cat_name": f"src{c}", "cat_type": "sidereal", "cat_lon": 0.3 + 0.1 * c, "cat_lat": -0.5 + 0.2 * c,
                       "cat_frame": "icrs", "cat_epoch": 2000.0} for c in range(ncat)}
    u = UVData.new(
        freq_array=f, polarization_array=list(pols), telescope=cm.telescope(),
        antpairs=np.array([(a, b) for a, b, _ in blts]), times=np.array([cm.T0 + 0.0005 * t for _, _, t in blts]),
        do_blt_outer=False, integration_time=np.arange(n) + 20.0, channel_width=1e6, empty=True,
        phase_center_catalog=cat, phase_center_id_array=np.array([cats0 + i % ncat for i in range(n)]), **kw)
    u.data_array = u.data_array.astype(np.complex128)
    u.nsample_array = u.nsample_array.astype(np.float64)
    u.uvw_array = np.arange(3 * n).reshape(n, 3) * 1.25 - 4.0
    u.extra_keywords = {"KEYA": 1, "KEYB": "text", "KEYC": 2.5}
    if zero:  # antenna 1 is called 0
        for o, nm in ((u, "ant_1_array"), (u, "ant_2_array"), (u.telescope, "antenna_numbers")):
            setattr(o, nm, np.where(getattr(o, nm) == 1, 0, getattr(o, nm)))
        u.baseline_array = u.antnums_to_baseline(u.ant_1_array, u.ant_2_array)
    return u


make = fixture(phased)


def _sym(S, u, zero=()):
    """symbolic data, flags and weights; the weights are positive but at the places that may be zero"""
    u = cm.sym(S, u, ns=False)
    u.nsample_array = S.reals("n", u.data_array.shape, 0.001, 100)
    for k, i in enumerate(zero):
        u.nsample_array[i] = S.real(f"z{k}", 0, 100)
    return u


def _uv_expected(u):
    """order of polarizations in the file"""
    return sorted(range(u.Npols), key=lambda i: abs(int(u.polarization_array[i])))


KEYED = ("time_array", "lst_array", "ant_1_array", "ant_2_array", "baseline_array", "uvw_array", "integration_time",
         "phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa")
KINDS = {
    "plain": {}, "pols4": dict(pols=(-5, -6, -7, -8)), "polsrev": dict(pols=(-8, -7, -6, -5)), "pol1": dict(pols=(-7,)),
    "stokes": dict(pols=(1, 2, 3)), "circ": dict(pols=(-4, -2, -1, -3)), "down": dict(freqs=(2, 1, 0)),
    "chan1": dict(freqs=(3,)), "spws2": dict(freqs=(0, 1, 2, 3), spws=2), "spws3": dict(freqs=(0, 1, 2), spws=3),
    "cats2": dict(ncat=2), "cats2b": dict(ncat=2, cats0=3), "ant0": dict(zero=True), "spwdown": dict(freqs=(3, 2, 1, 0), spws=2), "spwmix": dict(freqs=(0, 1, 3, 2), spws=2),
    "spwmix2": dict(freqs=(1, 0, 2, 3), spws=2),
}


def _compare(S, new, u, old, msg, tol=1e-9):
    """new is u as the format keeps it"""
    o = _uv_expected(u)
    S.prove(list(new.polarization_array) == [int(u.polarization_array[i]) for i in o], f"{msg}: {new.polarization_array}")
    S.prove((new.Nblts, new.Nfreqs, new.Npols, new.Nspws) == (u.Nblts, u.Nfreqs, u.Npols, u.Nspws), f"{msg}: sizes")
    D, F, N = (old[k][0] for k in ("_data_array", "_flag_array", "_nsample_array"))
    S.same(new.data_array, D.take(o, axis=2), f"{msg}: data")
    S.same(new.nsample_array, N.take(o, axis=2), f"{msg}: nsamples")
    S.same(new.flag_array, (F | (N == 0)).take(o, axis=2), f"{msg}: flags")
    for k in KEYED:
        a, b = getattr(new, k), getattr(u, k)
        if b is None:
            continue
        S.prove(np.shape(a) == np.shape(b), f"{msg}: shape of {k}")
        S.prove(np.max(np.abs(np.asarray(a, dtype=float) - np.asarray(b, dtype=float))) < (1e-8 if k == "time_array" else 1e-6), f"{msg}: {k}")
    S.prove(np.max(np.abs(np.asarray(new.freq_array, dtype=float) - u.freq_array)) < 1e-2, f"{msg}: freq_array {new.freq_array}")
    S.prove(np.max(np.abs(np.asarray(new.channel_width, dtype=float) - u.channel_width)) < 1e-2,
            f"{msg}: channel_width {new.channel_width}")
    num = {int(s): i for i, s in enumerate(u.spw_array)}
    S.prove([int(i) for i in new.flex_spw_id_array] == [num[int(i)] for i in u.flex_spw_id_array], f"{msg}: windows")
    for i in range(u.Nblts):
        a = new.phase_center_catalog[int(new.phase_center_id_array[i])]
        b = u.phase_center_catalog[int(u.phase_center_id_array[i])]
        S.prove(str(a["cat_name"]) == b["cat_name"] and a["cat_type"] == b["cat_type"] and a["cat_frame"] == b["cat_frame"]
                and abs(float(a["cat_lon"]) - b["cat_lon"]) < 1e-12 and abs(float(a["cat_lat"]) - b["cat_lat"]) < 1e-12,
                f"{msg}: phase center {i}: {a}")
    for k in ("vis_units", "pol_convention", "extra_keywords"):
        S.prove(getattr(new, k) == getattr(u, k), f"{msg}: {k} {getattr(new, k)}")


def _tel(S, new, old, msg):
    t, o = new.telescope, old.telescope
    S.prove(t.name == o.name and t.instrument == o.instrument and t.x_orientation == o.x_orientation, f"{msg}: telescope")
    S.prove([str(i) for i in t.antenna_names] == list(o.antenna_names), f"{msg}: antenna names")
    S.prove([int(i) for i in t.antenna_numbers] == list(o.antenna_numbers), f"{msg}: antenna numbers")
    S.prove(np.max(np.abs(np.asarray(t.antenna_positions, dtype=float) - o.antenna_positions)) < 1e-3, f"{msg}: antenna positions")
    if o.antenna_diameters is None:
        S.prove(t.antenna_diameters is None, f"{msg}: diameters")
    else:
        S.prove(np.array_equal(np.asarray(t.antenna_diameters, dtype=float), o.antenna_diameters), f"{msg}: diameters")
    S.prove(max(abs(float(getattr(t.location, c).to_value("m") - getattr(o.location, c).to_value("m"))) for c in "xyz") < 1e-3,
            f"{msg}: location")


@case(P, bounds=B, tier="thorough", layout=["rect_tb", "rect_bt", "onebl"], kind=list(KINDS))
def uv_round_trip_more(S, layout, kind):
    """... more layouts of baselines and times"""
    uv_round_trip(S, layout, kind)


@case(P, bounds=B, layout=["irr", "autos_u"], kind=list(KINDS))
def uv_round_trip(S, layout, kind):
    """everything the format keeps is read back, and writing changes nothing in memory"""
    how = S.choice("how", ["plain", "more", "lst"])
    u = _sym(S, make(layout, **KINDS[kind]), [(0, 0, 0)] if how == "plain" else [])
    if how == "more":
        u.telescope.antenna_diameters = np.arange(4) + 3.5
        u.pol_convention, u.vis_units = "sum", "Jy"
        u.data_array = u.data_array.astype(np.complex64)
    old = cm.snap(u)
    with S.scratch() as d:
        fn = os.path.join(d, "a.uvfits")
        quiet(u.write_uvfits, fn, run_check=False, write_lst=how == "lst")
        for p, (v, _) in old.items():
            if p != "_telescope":
                cm.same_val(S, getattr(u, p).value, v, f"object after writing: {p[1:]}")
        new = quiet(UVData.from_file, fn, **RD)
    _compare(S, new, u, old, "read back")
    _tel(S, new, u, "read back")


KEYS = ["antenna_nums", "antenna_names", "bls", "ant_str", "times", "time_range", "lsts", "freq_chans", "frequencies",
        "polarizations", "blt_inds", "phase_center_ids", "catalog_names", "three", "three_f", "three_p"]


@case(P, bounds=B, key=KEYS, kind=["plain", "pols4", "spws2"])
def uv_partial(S, key, kind):
    """reading part of a file gives the same as reading everything and selecting"""
    kw0 = dict(KINDS[kind], ncat=2)
    if kind == "plain":
        kw0["freqs"] = (0, 1, 2, 3)
    u = _sym(S, make("irr", **kw0))
    n = u.Nblts
    kw = {
        "antenna_nums": lambda: dict(antenna_nums=S.choice("v", [[1, 3], [7, 1], [1], [99]])),
        "antenna_names": lambda: dict(antenna_names=S.choice("v", [["a1", "a3"], ["a7", "a1"], ["zz"]])),
        "bls": lambda: dict(bls=S.choice("v", [[(1, 3)], [(3, 1)], [(1, 7), (1, 3)], [(3, 7, "ee")], [(12, 12)]])),
        "ant_str": lambda: dict(ant_str=S.choice("v", ["cross", "1_3", "auto", "1"])),
        "times": lambda: dict(times=[float(t) for i, t in enumerate(np.unique(u.time_array)) if S.pick(f"t{i}", 2)]),
        "time_range": lambda: dict(time_range=S.choice("v", [[cm.T0 - 1, cm.T0 + 0.0007], [cm.T0 + 0.0001, cm.T0 + 1]])),
        "lsts": lambda: dict(lsts=[float(np.unique(u.lst_array)[0])]),
        "freq_chans": lambda: dict(freq_chans=S.choice("v", [[0], [1, 2], [2, 0], [3], [0, 3], [0, 1, 2, 3]])),
        "frequencies": lambda: dict(frequencies=[float(u.freq_array[i]) for i in S.subset("v", u.Nfreqs, 1)]),
        "polarizations": lambda: dict(polarizations=S.choice("v", [[-5], [-6], [-6, -5], ["xx"], [-8]])),
        "blt_inds": lambda: dict(blt_inds=S.subset("v", n, 1)),
        "phase_center_ids": lambda: dict(phase_center_ids=S.choice("v", [[1], [2], [7]])),
        "catalog_names": lambda: dict(catalog_names=S.choice("v", ["src0", ["src1"], "none"])),
        "three": lambda: dict(blt_inds=[n - 1], freq_chans=S.choice("f", [[1, 2], [0, 2, 3]]), polarizations=[-6]),
        "three_f": lambda: dict(blt_inds=[0, 2, 3], freq_chans=[2], polarizations=[-5]),
        "three_p": lambda: dict(blt_inds=list(range(1, n)), freq_chans=[0, 1, 3], polarizations=[-6]),
    }[key]()
    kw["keep_all_metadata"] = bool(S.pick("keep", 2))
    with S.scratch() as d:
        fn = os.path.join(d, "a.uvfits")
        quiet(u.write_uvfits, fn, run_check=False)
        whole = quiet(UVData.from_file, fn, **RD)
        e1 = S.raises(lambda: quiet(whole.select, run_check=False, **kw), Exception)
        got = []
        e2 = S.raises(lambda: got.append(quiet(UVData.from_file, fn, **kw, **RD)), Exception)
    S.prove((e1 is None) == (e2 is None), f"select: {e1!r}; partial read: {e2!r}")
    if e1 is None:
        for p, (v, _) in cm.snap(whole).items():
            if p not in ("_telescope", "_filename", "_history", "_blts_are_rectangular", "_time_axis_faster_than_bls"):
                cm.same_val(S, getattr(got[0], p).value, v, f"read({kw}): {p[1:]}")
        _tel(S, got[0], whole, f"read({kw})")


@case(P, bounds=B)
def uv_metadata(S):
    """metadata first, data later"""
    u = _sym(S, make("irr", ncat=2))
    with S.scratch() as d:
        fn = os.path.join(d, "a.uvfits")
        quiet(u.write_uvfits, fn, run_check=False)
        m = quiet(UVData.from_file, fn, read_data=False, **RD)
        S.prove(m.metadata_only and m.data_array is None, "metadata only")
        w = quiet(UVData.from_file, fn, **RD)
    for p, (v, _) in cm.snap(w).items():
        if p not in ("_telescope", "_data_array", "_flag_array", "_nsample_array"):
            cm.same_val(S, getattr(m, p).value, v, f"metadata: {p[1:]}")


# what the format cannot hold is refused, or the file holds it
@case(P, bounds=B, what=["spacing", "width", "pols", "wsize", "order", "inter", "wpols"])
def uv_cannot(S, what):
    """an object that was accepted for writing is read back as it was"""
    kw = {"spacing": dict(freqs=(0, 1, 3)), "width": dict(), "pols": dict(pols=(-5, -6, -8)),
          "wsize": dict(freqs=(0, 1, 2, 3), spws=2), "order": dict(freqs=(0, 1, 2, 3), spws=2),
          "inter": dict(freqs=(0, 1, 2, 3), spws=2), "wpols": dict(pols=(-6, -5))}[what]
    u = _sym(S, make("rect_tb", **kw))
    if what == "width":
        u.channel_width = np.array([1e6, 2e6, 1e6])
    elif what == "wsize":
        u.flex_spw_id_array = np.array([0, 0, 0, 1])
    elif what == "order":
        u.spw_array = np.array([1, 0])
    elif what == "inter":
        u.flex_spw_id_array = np.array([0, 1, 0, 1])
    old = cm.snap(u)
    with S.scratch() as d:
        fn = os.path.join(d, "a.uvfits")
        err = S.raises(lambda: quiet(u.write_uvfits, fn, check_autos=False, run_check_acceptability=False), ValueError, IndexError)
        if err is not None:
            S.cover("refused")
            S.prove(what != "wpols", f"refused: {err}")
            return
        new = quiet(UVData.from_file, fn, **RD)
    if what == "order":
        # windows are renumbered in the order of spw_array
        F, O = np.asarray(new.freq_array, dtype=float), np.asarray(u.freq_array)
        for i in range(4):
            j = [j for j in range(4) if abs(F[j] - O[i]) < 1]
            S.prove(len(j) == 1, f"channel {i}: {F}")
            S.same(new.data_array[:, j[0]], old["_data_array"][0][:, i], f"data of channel {i}")
        return
    _compare(S, new, u, old, "read back")


# ------------------------------------------------------------------ CalFITS
CK = {
    "gain": {}, "pols4": dict(jones=(-5, -6, -7, -8)), "jrev": dict(jones=(-6, -5)), "jgap": dict(jones=(-5, -7)),
    "jone": dict(jones=(-8,)), "down": dict(freqs=(2, 1, 0)), "chan1": dict(freqs=(3,)), "skip": dict(freqs=(0, 2, 4)),
    "time1": dict(times=(1,)), "times3": dict(times=(0, 1, 2)), "tback": dict(times=(2, 1, 0)), "allants": dict(ants=(12, 3, 1, 7)),
    "sky": dict(style="sky"), "trange": dict(trange=True, times=(1,)), "delay": dict(kind="delay", wide=True, spws=(0,)),
    "delay1": dict(kind="delay", wide=True, spws=(0,), trange=True, times=(0,)),
    "delay3": dict(kind="delay", wide=True, spws=(0,), times=(0, 1, 2), jones=(-5, -6, -7, -8)),
    # the format cannot hold these
    "uneven": dict(freqs=(0, 1, 3)), "unevent": dict(times=(0, 1, 3)), "unevenj": dict(jones=(-5, -6, -8)),
    "windows": dict(freqs=(0, 1, 10)), "twodelay": dict(kind="delay", wide=True), "tranges": dict(trange=True), "vary": {},
    "varyw": {}, "ant0": {}, "ant0t": dict(kind="delay", wide=True, spws=(0,)),
}
REFUSED = ("uneven", "unevent", "unevenj", "windows", "twodelay", "tranges", "vary", "varyw")
CAL_KEEPS = ("ant_array", "jones_array", "cal_type", "cal_style", "gain_convention", "gain_scale", "pol_convention",
             "ref_antenna_name", "sky_catalog", "diffuse_model", "observer", "git_origin_cal", "git_hash_cal", "Nsources",
             "extra_keywords", "Ntimes", "Nfreqs", "Njones", "Nants_data", "Nspws", "wide_band")
CAL_NEAR = {"time_array": 1e-8, "time_range": 1e-8, "lst_array": 1e-6, "lst_range": 1e-6, "integration_time": 1e-6,
            "freq_array": 1e-2, "channel_width": 1e-2, "freq_range": 1e-2}
CAL_DATA = ("gain_array", "delay_array", "flag_array", "quality_array", "total_quality_array")


def _calobj(S, kind, **k):
    c = cm.symcal(S, cm.cal(**CK[kind]), **k)
    if kind != "vary":
        c.integration_time = np.full(c.Ntimes, S.choice("int", [10.0, 43.2]))
    if c.freq_array is not None:
        c.channel_width = np.full(c.Nfreqs, 1e6)
    if kind.startswith("ant0"):
        c.ant_array = np.where(c.ant_array == 1, 0, c.ant_array)
        c.telescope = c.telescope.copy()
        c.telescope.antenna_numbers = np.where(c.telescope.antenna_numbers == 1, 0, c.telescope.antenna_numbers)
    if kind == "varyw":
        c.channel_width = np.array([1e6, 2e6, 1e6])
    return c


@case(P, bounds=B, kind=list(CK))
def cal_round_trip(S, kind):
    """everything the format keeps is read back, and writing changes nothing in memory; what it cannot hold is refused"""
    c = _calobj(S, kind, quality=bool(S.pick("q", 2)), total=bool(S.pick("t", 2)))
    if S.pick("full", 2):
        c.observer, c.git_origin_cal, c.git_hash_cal = "me", "here", "abc"
        c.diffuse_model, c.gain_scale, c.pol_convention = "gsm", "Jy", "sum"
        c.baseline_range = [10.0, 500.0]
        c.extra_keywords = {"A": "text", "B": 3, "C": 2.5}
    old = cm.snap(c)
    tel = c.telescope.copy()
    with S.scratch() as d:
        fn = os.path.join(d, "a.calfits")
        err = S.raises(lambda: quiet(c.write_calfits, fn, run_check=False), ValueError)
        S.prove((err is not None) == (kind in REFUSED), f"writing: {err}")
        for p, (v, _) in old.items():
            if p != "_telescope":
                cm.same_val(S, getattr(c, p).value, v, f"object after writing: {p[1:]}")
        if err is not None:
            return
        new = quiet(UVCal.from_file, fn, run_check=False)
        meta = quiet(UVCal.from_file, fn, run_check=False, read_data=False)
    S.prove(meta.metadata_only and meta.flag_array is None, "metadata only")
    for p in CAL_DATA:
        a, b = getattr(new, p), getattr(c, p)
        S.prove((a is None) == (b is None), f"read back: {p}")
        if b is not None:
            S.prove(np.shape(a) == np.shape(b), f"read back: shape of {p}: {np.shape(a)}")
            S.same(a, b, f"read back: {p}")
    for o, msg in ((new, "read back"), (meta, "metadata")):
        for p in CAL_KEEPS:
            a, b = getattr(o, p), getattr(c, p)
            S.prove(np.array_equal(np.asarray(a), np.asarray(b)), f"{msg}: {p}: {a}")
        for p, tol in CAL_NEAR.items():
            a, b = getattr(o, p), getattr(c, p)
            if p == "channel_width" and c.freq_array is None:
                continue
            S.prove((a is None) == (b is None), f"{msg}: {p}: {a}")
            if b is not None:
                S.prove(np.shape(a) == np.shape(b) and np.max(np.abs(np.asarray(a, dtype=float) - b)) < tol, f"{msg}: {p}: {a}")
        S.prove(c.baseline_range is None or [float(x) for x in o.baseline_range] == [10.0, 500.0], f"{msg}: baseline_range")
        _tel2(S, o.telescope, tel, msg)


def _tel2(S, t, o, msg):
    class W:
        pass
    a, b = W(), W()
    a.telescope, b.telescope = t, o
    _tel(S, a, b, msg)


@case(P, bounds=B, key=["antenna_nums", "antenna_names", "times", "freq_chans", "frequencies", "jones", "two"])
def cal_partial(S, key):
    """reading part of a file gives the same as reading everything and selecting"""
    c = _calobj(S, "times3" if key in ("times", "two") else "pols4" if key == "jones" else "gain", total=True)
    t = c.time_array
    kw = {
        "antenna_nums": lambda: dict(antenna_nums=S.choice("v", [[1], [7, 3], [12], [99]])),
        "antenna_names": lambda: dict(antenna_names=S.choice("v", [["a1"], ["a7", "a3"], ["zz"]])),
        "times": lambda: dict(times=[float(t[i]) for i in S.subset("v", 3, 1)]),
        "freq_chans": lambda: dict(freq_chans=S.subset("v", 3, 1)),
        "frequencies": lambda: dict(frequencies=[float(c.freq_array[i]) for i in S.subset("v", 3, 1)]),
        "jones": lambda: dict(jones=S.choice("v", [[-5], [-6, -8], [-7, -6, -5], ["jxx"], [-1]])),
        "two": lambda: dict(antenna_nums=[7, 1], freq_chans=S.choice("v", [[0, 2], [1]]), times=[float(t[2])]),
    }[key]()
    with S.scratch() as d:
        fn = os.path.join(d, "a.calfits")
        quiet(c.write_calfits, fn, run_check=False)
        whole = quiet(UVCal.from_file, fn, run_check=False)
        e1 = S.raises(lambda: quiet(whole.select, run_check=False, **kw), Exception)
        got = []
        e2 = S.raises(lambda: got.append(quiet(UVCal.from_file, fn, run_check=False, **kw)), Exception)
    S.prove((e1 is None) == (e2 is None), f"select: {e1!r}; partial read: {e2!r}")
    if e1 is None:
        for p, (v, _) in cm.snap(whole).items():
            if p not in ("_telescope", "_filename", "_history"):
                cm.same_val(S, getattr(got[0], p).value, v, f"read({kw}): {p[1:]}")


# ------------------------------------------------------------------ BeamFITS
BK = ["efield", "power", "cross", "hpxe", "hpxp"]
BEAM_KEEPS = ("telescope_name", "feed_name", "feed_version", "model_name", "model_version", "x_orientation", "data_normalization",
              "beam_type", "antenna_type", "pixel_coordinate_system", "nside", "ordering", "extra_keywords", "reference_impedance",
              "Nfreqs", "Npols", "Nfeeds", "Naxes1", "Naxes2", "Npixels", "Naxes_vec")


def _beam(S, kind, **k):
    b = pb.mk(S, kind, **k)
    b.bandpass_array = S.reals("bp", b.bandpass_array.shape)
    return b


def _beamsame(S, new, b, msg, freqs=slice(None), ax1=slice(None), ax2=slice(None), tol=1e-9):
    """new is b restricted to the given places"""
    def cut(x, last):
        return x[..., ax2, :][..., ax1] if last else x
    hp = b.pixel_coordinate_system == "healpix"
    D = b.data_array[..., freqs, :] if hp else cut(b.data_array[..., freqs, :, :], True)
    S.prove(np.shape(new.data_array) == np.shape(D), f"{msg}: shape of the data: {np.shape(new.data_array)}")
    S.same(new.data_array, D, f"{msg}: data")
    if b.basis_vector_array is not None:
        V = b.basis_vector_array if hp else cut(b.basis_vector_array, True)
        S.prove(np.shape(new.basis_vector_array) == np.shape(V)
                and np.max(np.abs(np.asarray(new.basis_vector_array, dtype=float) - V)) < tol, f"{msg}: basis vectors")
    else:
        S.prove(new.basis_vector_array is None, f"{msg}: basis vectors")
    S.same(new.bandpass_array, b.bandpass_array[freqs], f"{msg}: bandpass")
    for nm in ("receiver_temperature_array", "loss_array", "mismatch_array", "s_parameters"):
        o, a = getattr(b, nm), getattr(new, nm)
        S.prove((a is None) == (o is None) and (o is None or np.shape(a) == o[..., freqs].shape and
                np.max(np.abs(np.asarray(a, dtype=float) - o[..., freqs]), initial=0.0) < tol), f"{msg}: {nm}: {a}")
    for nm, k, t in (("freq_array", freqs, 1e-3), ("axis1_array", ax1, tol), ("axis2_array", ax2, tol), ("pixel_array", slice(None), tol)):
        o, a = getattr(b, nm), getattr(new, nm)
        S.prove((a is None) == (o is None) and (o is None or np.shape(a) == o[k].shape and
                np.max(np.abs(np.asarray(a, dtype=float) - o[k])) < t), f"{msg}: {nm}: {a}")
    for nm in ("feed_array", "polarization_array"):
        o, a = getattr(b, nm), getattr(new, nm)
        S.prove((a is None) == (o is None) and (o is None or [str(i) for i in a] == [str(i) for i in o]), f"{msg}: {nm}: {a}")


@case(P, bounds=B, kind=BK + ["phased", "uneven", "uneven1", "uneven2", "unevenp"])
def beam_round_trip(S, kind):
    """everything the format keeps is read back, and writing changes nothing in memory; what it cannot hold is refused"""
    base = kind if kind in pb.KINDS else "power"
    e = base in ("efield", "hpxe", "phased")
    kw = dict(opt=bool(S.pick("opt", 2)))
    if kind not in pb.KINDS:
        kw.update({"uneven": dict(freqs=(0, 1, 3)), "uneven1": dict(a1=(0, 1, 3)), "uneven2": dict(a2=(0, 2, 3)),
                   "unevenp": dict(pols=(-5, -6, -8))}[kind])
    else:
        kw["freqs"] = S.choice("freqs", [(0, 1), (2,), (0, 2, 4), (2, 1, 0)])
        if e:
            kw["feeds"] = S.choice("feeds", [("x", "y"), ("y", "x"), ("y",)])
        else:
            kw["pols"] = S.choice("pols", [(-5, -7), (-7,)] if base == "cross" else [(-5, -6), (-6, -5), (-6,), (1, 2, 3, 4)])
        if not base.startswith("hpx"):
            kw["a1"], kw["a2"] = S.choice("axes", [((0, 1, 2), (0, 1)), ((1,), (2,)), ((0, 1), (2, 1, 0))])
    b = _beam(S, base, **kw)
    if S.pick("full", 2):
        b.extra_keywords = {"A": "text", "B": 3, "C": 2.5}
        b.reference_impedance, b.feed_name, b.model_version = 50.0, "feed", "v2"
    if base == "hpxp" and S.pick("nest", 2):
        b.ordering = "nested"
    old = {p: (v.copy() if isinstance(v, np.ndarray) else v) for p, v in ((p, getattr(b, p).value) for p in b)}
    with S.scratch() as d:
        fn = os.path.join(d, "a.beamfits")
        err = S.raises(lambda: quiet(b.write_beamfits, fn, run_check=False), ValueError)
        S.prove((err is not None) == (kind not in BK), f"writing: {err}")
        for p, v in old.items():
            if isinstance(v, np.ndarray):
                cm.same_val(S, getattr(b, p).value, v, f"object after writing: {p[1:]}")
        if err is not None:
            return
        new = quiet(UVBeam.from_file, fn, run_check=False)
    for p in BEAM_KEEPS:
        a, o = getattr(new, p), getattr(b, p)
        S.prove(a == o, f"read back: {p}: {a}")
    _beamsame(S, new, b, "read back")


@case(P, bounds=B, kind=BK, what=["freq", "axis1", "axis2", "all"], down=[False, True])
def beam_ranges(S, kind, what, down):
    """reading ranges of frequencies or angles gives exactly what lies inside"""
    hp = kind.startswith("hpx")
    o = (lambda t: t[::-1]) if down else (lambda t: t)
    n1, n2, nf = (3 if what in (w, "all") else 2 for w in ("axis1", "axis2", "freq"))
    if what == "all":
        n1 = n2 = nf = 2
    if hp and what != "freq":
        b = _beam(S, kind)
        with S.scratch() as d:
            fn = os.path.join(d, "a.beamfits")
            quiet(b.write_beamfits, fn, run_check=False)
            for kw in [dict(az_range=(0, 90))] * (what != "axis2") + [dict(za_range=(0, 90))] * (what != "axis1"):
                err = S.raises(lambda kw=kw: quiet(UVBeam.from_file, fn, run_check=False, **kw), ValueError)
                S.prove(err is not None, f"{kw} for a HEALPix beam is refused")
        return
    kw = {} if hp else dict(a1=o(tuple(range(n1))), a2=o(tuple(range(n2))))
    b = _beam(S, kind, freqs=o(tuple(range(nf))), opt=what == "freq", **kw)
    rng, keep = {}, {}
    for w, nm, ax, k, gap in (("freq", "freq_range", "freq_array", 1.0, 0.5), ("axis1", "az_range", "axis1_array", 180 / np.pi, 1e-6),
                              ("axis2", "za_range", "axis2_array", 180 / np.pi, 1e-6)):
        if what not in (w, "all"):
            continue
        v = [float(x) * k for x in getattr(b, ax)]
        step = max(abs(v[0] - v[1]), 1.0)
        lo = S.real(nm + "0", min(v) - step, max(v) + step)
        hi = S.real(nm + "1", min(v) - step, max(v) + step)
        S.assume(lo <= hi)
        for x in v:
            for y in (lo, hi):
                S.assume((y > x + gap) | (y < x - gap))
        rng[nm] = (lo, hi)
        keep[w] = [bool((lo <= x) & (x <= hi)) for x in v]
    with S.scratch() as d:
        fn = os.path.join(d, "a.beamfits")
        quiet(b.write_beamfits, fn, run_check=False)
        got = []
        err = S.raises(lambda: got.append(quiet(UVBeam.from_file, fn, run_check=False, **rng)), IndexError, ValueError)
    if not all(any(k) for k in keep.values()):
        S.prove(err is not None, "an empty range is refused")
        return
    S.prove(err is None, f"refused: {err!r}")
    ix = {w: np.nonzero(k)[0] for w, k in keep.items()}
    _beamsame(S, got[0], b, f"ranges {list(ix.items())}", freqs=ix.get("freq", slice(None)), ax1=ix.get("axis1", slice(None)),
              ax2=ix.get("axis2", slice(None)))
    nb = got[0]
    S.prove(nb.Nfreqs == len(nb.freq_array) and (hp or nb.Naxes1 == len(nb.axis1_array) and nb.Naxes2 == len(nb.axis2_array)), "sizes")


@case(P, bounds=B, kind=BK, what=["freq", "px"], through=["read", "read_beamfits"])
def beam_several(S, kind, what, through):
    """reading a list of files is reading each and adding them"""
    nm = "freqs" if what == "freq" else "px" if kind.startswith("hpx") else S.choice("ax", ["a1", "a2"])
    full = {"freqs": (0, 1), "px": (3, 7, 1), "a1": (0, 1), "a2": (0, 1)}[nm]
    b1, b2 = (pb.mk(S, kind, tag=t, **{nm: part}) for t, part in (("x", full[:1]), ("y", full[1:])))
    with S.scratch() as d:
        fns = [os.path.join(d, f) for f in ("one.beamfits", "two.beamfits")]
        for b, f in zip((b1, b2), fns):
            quiet(b.write_beamfits, f, run_check=False)
        r1, r2 = (quiet(UVBeam.from_file, f, run_check=False) for f in fns)
        new = UVBeam()
        quiet(getattr(new, through), fns, run_check=False)
    r1 = quiet(r1.__add__, r2)
    _beamsame(S, new, r1, "read several")
