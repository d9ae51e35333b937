"""Shared fixtures: small concrete pyuvdata objects whose data become symbolic."""
import numpy as np
from astropy.coordinates import EarthLocation
from symx.harness import fixture

from pyuvdata import Telescope, UVBeam, UVCal, UVData, UVFlag

ANTS = [1, 3, 7, 12]
NAMES = ["a1", "a3", "a7", "a12"]
T0 = 2459122.415  # the LSTs pass 24 h between the first two times
TIMES = [T0, T0 + 0.0005, T0 + 0.001]
POLS4 = [-5, -6, -7, -8]


@fixture
def telescope(n=4):
    loc = EarthLocation.from_geodetic(lat=-30.7, lon=21.4, height=1000.0)
    ap = {a: np.array([11.0 * i, 5.0 * i * i - 3.0 * i, 0.25 * i]) for i, a in enumerate(ANTS[:n])}
    return Telescope.new(
        name="tt", instrument="tt", location=loc, antenna_positions=ap,
        antenna_names=NAMES[:n], antenna_numbers=ANTS[:n], x_orientation="east",
        antenna_diameters=[14.0 + i for i in range(n)])


LAYOUTS = {
    # (ant1, ant2, time index)
    "rect_tb": [(1, 3, 0), (1, 7, 0), (3, 7, 0), (1, 3, 1), (1, 7, 1), (3, 7, 1)],
    "rect_bt": [(1, 3, 0), (1, 3, 1), (1, 7, 0), (1, 7, 1)],
    "irr": [(3, 1, 1), (1, 7, 0), (7, 12, 2), (1, 3, 0), (1, 7, 2)],
    "autos": [(1, 1, 0), (1, 3, 0), (3, 3, 0), (3, 1, 1), (1, 1, 1)],
    # no baseline present in both orientations
    "irr_u": [(3, 1, 1), (1, 7, 0), (7, 12, 2), (3, 1, 0), (1, 7, 2)],
    "autos_u": [(1, 1, 0), (1, 3, 0), (3, 3, 0), (7, 3, 1), (1, 1, 1)],
    "single": [(1, 3, 0)],
    "pair": [(1, 3, 0), (1, 7, 0)],
    "cross3": [(1, 3, 0), (1, 7, 0), (3, 7, 0)],
    "onebl": [(1, 3, 0), (1, 3, 1), (1, 3, 2)],
    "onebl4": [(1, 3, 0), (1, 3, 1), (1, 3, 2), (1, 3, 3)],
    "two_t": [(1, 3, 0), (1, 7, 0), (1, 3, 1), (1, 7, 1)],
}


@fixture
def uvd(layout="rect_tb", nfreqs=3, pols=(-5, -6), nspws=1, ncat=1, phased=False):
    blts = LAYOUTS[layout]
    times = np.array([T0 + 0.0005 * t for _, _, t in blts])
    freqs = np.array([1.0e8 + 1.0e6 * i for i in range(nfreqs)])
    kw = {}
    if nspws > 1:
        ids = np.array([1 + (i * nspws) // nfreqs for i in range(nfreqs)])
        kw = dict(flex_spw_id_array=ids, spw_array=np.arange(1, nspws + 1))
    cat = None
    ids = None
    if phased or ncat > 1:
        cat = {}
        for c in range(ncat):
            if phased and (c == 0 or phased == "all"):
                cat[c] = {"cat_name": f"src{c}", "cat_type": "sidereal", "cat_lon": 0.3 + 0.1 * c,
                          "cat_lat": -0.5, "cat_frame": "icrs", "cat_epoch": 2000.0}
            else:
                cat[c] = {"cat_name": f"zen{c}", "cat_type": "unprojected"}
        ids = np.array([i % ncat for i in range(len(blts))])
    obj = UVData.new(
        freq_array=freqs, polarization_array=list(pols), telescope=telescope(),
        antpairs=np.array([(a, b) for a, b, _ in blts]), times=times, do_blt_outer=False,
        integration_time=np.array([43.2 for i in range(len(blts))]),
        channel_width=1.0e6, empty=True, phase_center_catalog=cat,
        phase_center_id_array=ids, **kw)
    obj.data_array = obj.data_array.astype(np.complex128)
    obj.nsample_array = obj.nsample_array.astype(np.float64)
    # distinct values for every per-blt quantity, so a mix-up is visible
    n = obj.Nblts
    obj.uvw_array = obj.uvw_array + 0.0
    obj.scan_number_array = np.arange(n) + 100
    obj.extra_keywords = {"K": 1}
    return obj


def sym(S, obj, tag="", data=True, flags=True, ns=True):
    """give the object symbolic data, flags and nsamples"""
    sh = obj.data_array.shape
    if data:
        obj.data_array = S.cplxs(tag + "d", sh)
    if flags:
        obj.flag_array = S.bools(tag + "f", sh)
    if ns:
        obj.nsample_array = S.reals(tag + "n", sh, 0, 100)
    return obj


def snap(obj):
    """values of all parameters (arrays copied), by name"""
    out = {}
    for p in obj:
        par = getattr(obj, p)
        v = par.value
        if isinstance(v, np.ndarray):
            v = v.copy()
        elif isinstance(v, (list, dict)):
            v = type(v)(v)
        out[p] = (v, par.form)
    return out


def same_val(S, a, b, msg):
    if a is None or b is None:
        S.prove(a is None and b is None, msg + " (None)")
    elif isinstance(a, (str, bool, dict)) or isinstance(b, (str, dict)):
        S.prove(a == b, msg)
    elif isinstance(a, list) and a and isinstance(a[0], str):
        S.prove(list(a) == list(b), msg)
    elif isinstance(a, np.ndarray) and a.dtype.kind in "US":
        S.prove(a.shape == np.shape(b) and bool(np.all(a == b)), msg)
    elif isinstance(a, (np.ndarray, list, int, float, np.generic)) or hasattr(a, "dtype"):
        S.same(a, b, msg)


def check_subset(S, new, old, sel, skip=(), msg="subset"):
    """every array of ``new`` is the ``sel`` (axis name -> index list) part of ``old``'s"""
    for p, (v, form) in old.items():
        if p in skip or v is None or not isinstance(form, tuple):
            continue
        par = getattr(new, p)
        if not any(ax in sel for ax in form):
            continue
        exp = v
        for i, ax in enumerate(form):
            if ax in sel and sel[ax] is not None:
                if isinstance(exp, list):
                    exp = [exp[j] for j in sel[ax]]
                else:
                    exp = exp.take(sel[ax], axis=i)
        same_val(S, par.value, exp, f"{msg}: {p[1:]}")


# ---------------------------------------------------------------- keyed objects
# Objects whose every metadata value is a function of its key, so that results
# can be checked element by element against where they must have come from.

CAT = {
    "zen": {0: {"cat_name": "zen0", "cat_type": "unprojected"}},
    "two": {0: {"cat_name": "zen0", "cat_type": "unprojected"},
            1: {"cat_name": "zen1", "cat_type": "unprojected"}},
    "src": {0: {"cat_name": "src0", "cat_type": "sidereal", "cat_lon": 0.3, "cat_lat": -0.5,
                "cat_frame": "icrs", "cat_epoch": 2000.0}},
}


def chan(f):
    """channel key -> (spw, frequency, width); keys 0-9 are spw 1, 10-19 spw 2"""
    return 1 + f // 10, 1.0e8 + 1.0e6 * f, 1.0e6 * (1 + 0.01 * f)


@fixture
def keyed(blts, freqs, pols, cat="zen", shift=False):
    ch = [chan(f) for f in freqs]
    if shift:  # second window below the first
        ch = [(s, f - 5.0e6 if s == 2 else f, w) for s, f, w in ch]
    spws = []
    for c in ch:
        if c[0] not in spws:
            spws.append(c[0])
    kw = dict(flex_spw_id_array=np.array([c[0] for c in ch]), spw_array=np.array(spws))
    ids = None
    if cat != "zen":
        ids = np.array([(b[0] + b[1]) // 4 % len(CAT[cat]) for b in blts])
    times = np.array([T0 + 0.0005 * t for _, _, t in blts])
    obj = UVData.new(
        freq_array=np.array([c[1] for c in ch]), polarization_array=list(pols),
        telescope=telescope(), antpairs=np.array([(a, b) for a, b, _ in blts]), times=times,
        do_blt_outer=False,
        integration_time=np.array([40.0 + t + 0.1 * a + 0.01 * b for a, b, t in blts]),
        channel_width=np.array([c[2] for c in ch]), empty=True,
        phase_center_catalog={k: dict(v) for k, v in CAT[cat].items()} if cat != "zen" else None,
        phase_center_id_array=ids, **kw)
    obj.data_array = obj.data_array.astype(np.complex128)
    obj.nsample_array = obj.nsample_array.astype(np.float64)
    return obj


def blt_keys(u):
    return [(int(a), int(b), int(round((float(t) - T0) / 0.0005)))
            for a, b, t in zip(u.ant_1_array, u.ant_2_array, u.time_array)]


def chan_keys(u):
    return [(int(s), round(float(f))) for s, f in zip(u.flex_spw_id_array, u.freq_array)]


def pol_keys(u):
    return [int(p) for p in u.polarization_array]


class Source:
    """key -> element tables of one object (taken before an operation)"""

    def __init__(self, u, meta_only=False):
        self.b, self.c, self.p = blt_keys(u), chan_keys(u), pol_keys(u)
        self.bi = {k: i for i, k in enumerate(self.b)}
        self.ci = {k: i for i, k in enumerate(self.c)}
        self.pi = {k: i for i, k in enumerate(self.p)}
        if not meta_only:
            self.d, self.f, self.n = u.data_array.copy(), u.flag_array.copy(), u.nsample_array.copy()
        self.meta = {}
        for nm in BLT_META:
            v = getattr(u, nm)
            self.meta[nm] = None if v is None else v.copy()
        self.cat = {k: dict(v) for k, v in u.phase_center_catalog.items()}
        self.cw = u.channel_width.copy()

    def at(self, b, c, p):
        if b in self.bi and c in self.ci and p in self.pi:
            i = self.bi[b], self.ci[c], self.pi[p]
            return self.d[i], self.f[i], self.n[i]
        return None


BLT_META = ["uvw_array", "lst_array", "integration_time", "baseline_array",
            "phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa"]


def stack(S, items, dt):
    o = np.empty(len(items), dtype=object)
    for i, v in enumerate(items):
        o[i] = v
    return S._wrap(o, dt)


def check_keyed(S, res, srcs, blts, chans, pols, msg, elem=None, order=None):
    """res holds exactly the given keys, each element from the first source having it

    elem(b, c, p) overrides where an element comes from; missing ones are
    zero, flagged, with no samples.
    """
    B, F, Q = blt_keys(res), chan_keys(res), pol_keys(res)
    S.prove(sorted(B) == sorted(blts), f"{msg}: baseline-times {B} expected {sorted(blts)}")
    S.prove(sorted(F) == sorted(chans), f"{msg}: channels {F}")
    S.prove(sorted(Q) == sorted(pols), f"{msg}: polarizations {Q}")
    if order is not None:
        S.prove((B, F, Q) == tuple(map(list, order)), f"{msg}: order {B} {F} {Q}")
    S.prove(res.Nblts == len(B) and res.Nfreqs == len(F) and res.Npols == len(Q), f"{msg}: sizes")
    S.prove(res.Nspws == len({c[0] for c in F}) and sorted(res.spw_array) == sorted({c[0] for c in F}),
            f"{msg}: spws")
    S.prove(res.Ntimes == len({b[2] for b in B}), f"{msg}: Ntimes")
    S.prove(res.Nbls == len({b[:2] for b in B}), f"{msg}: Nbls")
    S.prove(res.Nants_data == len({a for b in B for a in b[:2]}), f"{msg}: Nants_data")
    if srcs and hasattr(srcs[0], "d"):
        S.prove(res.data_array.shape == (len(B), len(F), len(Q)), f"{msg}: data shape")
        S.prove(res.flag_array.shape == (len(B), len(F), len(Q)), f"{msg}: flag shape")
        S.prove(res.nsample_array.shape == (len(B), len(F), len(Q)), f"{msg}: nsample shape")
        ed, ef, en = [], [], []
        for b in B:
            for c in F:
                for p in Q:
                    v = elem(b, c, p) if elem else None
                    if v is None:
                        for s in srcs:
                            v = s.at(b, c, p)
                            if v is not None:
                                break
                    d, f, n = v if v is not None else (0.0, True, 0.0)
                    ed.append(d)
                    ef.append(f)
                    en.append(n)
        S.same(res.data_array.reshape(-1), stack(S, ed, np.complex128), f"{msg}: visibilities")
        S.same(res.flag_array.reshape(-1), stack(S, ef, np.bool_), f"{msg}: flags")
        S.same(res.nsample_array.reshape(-1), stack(S, en, np.float64), f"{msg}: nsamples")
    for nm in BLT_META:
        v = getattr(res, nm)
        rows = []
        for b in B:
            for s in srcs:
                if b in s.bi:
                    rows.append(s.meta[nm][s.bi[b]])
                    break
        S.same(v, np.array(rows), f"{msg}: {nm}")
    S.same(res.channel_width, np.array([next(s.cw[s.ci[c]] for s in srcs if c in s.ci) for c in F]),
           f"{msg}: channel_width")


def check_layout(S, u, msg, lookups=True):
    """ordering flags describe the data and baseline lookups find exactly the right entries"""
    K = list(zip([int(a) for a in u.ant_1_array], [int(b) for b in u.ant_2_array]))
    T = [float(t) for t in u.time_array]
    n = len(K)
    for (a, b), bl in zip(K, u.baseline_array):
        S.prove(int(u.antnums_to_baseline(a, b)) == int(bl), f"{msg}: baseline number of {(a, b)}")
    if u.blts_are_rectangular:
        nb, nt = len(set(K)), len(set(T))
        S.prove(n == nb * nt, f"{msg}: called rectangular, but the number of baseline-times is not")
        if u.time_axis_faster_than_bls:
            ok = all(K[i] == K[i // nt * nt] and T[i] == T[i % nt] for i in range(n))
        else:
            ok = all(T[i] == T[i // nb * nb] and K[i] == K[i % nb] for i in range(n))
        S.prove(ok, f"{msg}: called rectangular, but is not: {K} {T}")
    if lookups:
        S.prove(sorted(u.get_antpairs()) == sorted(set(K)), f"{msg}: get_antpairs")
        S.prove(sorted(int(a) for a in u.get_ants()) == sorted({x for k in K for x in k}),
                f"{msg}: get_ants")
        for ap in sorted(set(K)):
            ind = u.antpair2ind(ap[0], ap[1])
            got = [] if ind is None else list(np.arange(n)[ind])
            S.prove(got == [i for i in range(n) if K[i] == ap], f"{msg}: antpair2ind({ap}) = {ind}")


# -------------------------------------------------------------- calibration objects
@fixture
def cal(ants=(1, 3, 7), freqs=(0, 1, 2), times=(0, 1), jones=(-5, -6), kind="gain", wide=False,
        trange=False, style="redundant", spws=(0, 1)):
    """keyed calibration object; kind gain or delay; wide: spectral windows instead of channels"""
    kw = {}
    if trange:
        kw["time_range"] = np.array([[T0 + 0.0005 * t, T0 + 0.0005 * t + 0.0004] for t in times])
    else:
        kw["time_array"] = np.array([T0 + 0.0005 * t for t in times])
    if wide:
        kw["freq_range"] = np.array([[1.0e8 + 1.0e7 * s, 1.0e8 + 1.0e7 * s + 8.0e6] for s in spws])
    else:
        ch = [chan(f) for f in freqs]
        kw.update(freq_array=np.array([c[1] for c in ch]), channel_width=np.array([c[2] for c in ch]),
                  flex_spw_id_array=np.array([c[0] for c in ch]))
    if style == "sky":
        kw.update(ref_antenna_name="a3", sky_catalog="cat")
    c = UVCal.new(cal_style=style, gain_convention="divide", jones_array=np.array(jones), cal_type=kind,
                  integration_time=np.array([10.0 + t for t in times]), telescope=telescope(),
                  ant_array=np.array(ants), empty=True, **kw)
    if wide and tuple(spws) != tuple(range(len(spws))):
        c.spw_array = np.array(spws)
    return c


def symcal(S, c, tag="", quality=True, total=False, flags=True, lim=100):
    """symbolic gains/delays, flags and qualities"""
    sh = c.flag_array.shape
    if c.cal_type == "gain":
        c.gain_array = S.cplxs(tag + "g", sh, lim)
    else:
        c.delay_array = S.reals(tag + "g", sh)
    if flags:
        c.flag_array = S.bools(tag + "f", sh)
    if quality:
        c.quality_array = S.reals(tag + "q", sh)
    if total:
        c.total_quality_array = S.reals(tag + "t", sh[1:])
    return c
