"""UVH5 files return what was written, in whole or in part."""
import os

import numpy as np
from symx.harness import case, fixture

from . import common as cm

from pyuvdata import UVData
from pyuvdata.uvdata import FastUVH5Meta
from pyuvdata.utils import tools

P = "C19"
B = ("real HDF5 files in a scratch directory; 4-12 baseline-times, 1-12 channels, 1-4 polarizations; "
     "every visibility, flag and weight symbolic; every listed kind of index set and dtype")

SKIP = {"_filename", "_history", "_scan_number_array"}


def _same(S, new, old, msg, skip=()):
    for p, (v, _) in old.items():
        if p in SKIP or p in skip or p == "_telescope":
            continue
        got = getattr(new, p).value
        if p == "_data_array" and v is not None:
            S.prove(np.shape(got) == np.shape(v), f"{msg}: shape of {p[1:]} {np.shape(got)}")
        if p == "_nsample_array" and v is not None:
            S.same(got, v, f"{msg}: nsample_array", tol=1e-4)
            continue
        if p == "_extra_keywords" or p == "_phase_center_catalog":
            S.prove(sorted(got) == sorted(v), f"{msg}: keys of {p[1:]}")
            for k in v:
                if isinstance(v[k], dict):
                    S.prove(sorted(got[k]) == sorted(v[k]), f"{msg}: keys of {p[1:]}")
                    for q in v[k]:
                        S.prove(_eq(got[k][q], v[k][q]), f"{msg}: {p[1:]} {k} {q}: {got[k][q]}")
                else:
                    S.prove(_eq(got[k], v[k]), f"{msg}: {p[1:]} {k}: {got[k]}")
            continue
        cm.same_val(S, got, v, f"{msg}: {p[1:]}")


def _eq(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(b, str):
        return isinstance(a, str) and a == b
    return bool(np.all(np.asarray(a) == np.asarray(b)))


def _tel(S, new, old, msg):
    for p, (v, _) in old.items():
        cm.same_val(S, getattr(new, p).value, v, f"{msg}: {p[1:]}") if p != "_location" else S.prove(
            max(abs(float(getattr(new.location, c).to_value("m") - getattr(v, c).to_value("m")))
                for c in "xyz") < 1e-6, f"{msg}: location")


def _full(u):
    """all the optional metadata"""
    u.eq_coeffs = np.arange(4 * u.Nfreqs).reshape(4, u.Nfreqs) + 0.5
    u.eq_coeffs_convention = "divide"
    u.dut1 = -0.25
    u.earth_omega = 361.0
    u.gst0 = 1.5
    u.rdate = "2020-01-02"
    u.timesys = "UTC"
    u.uvplane_reference_time = 7
    u.blt_order = ("time", "baseline")
    u._blt_order.form = (2,)
    u.pol_convention = "avg"
    u.vis_units = "Jy"
    u.extra_keywords = {"A": "text", "B": 3, "C": 2.5, "D": None, "long key": True}
    return u


@case(P, bounds=B, layout=["rect_tb", "irr", "rect_bt", "autos_u"],
      kind=["plain", "full", "spws", "cats"])
def round_trip(S, layout, kind):
    """everything written is read back, and writing changes nothing in memory"""
    kw = {"spws": dict(nspws=2, nfreqs=3), "cats": dict(ncat=2, phased=True)}.get(kind, {})
    u = cm.sym(S, cm.uvd(layout, pols=S.choice("pols", [(-5, -6), (-5, -6, -7, -8), (1,), (-1, -2)]), **kw))
    if kind == "full":
        _full(u)
    if S.pick("rect", 2):
        u.set_rectangularity(force=True)
    dt = S.choice("dt", [None, "c16", "c8"])
    old, tel = cm.snap(u), cm.snap(u.telescope)
    with S.scratch() as d:
        fn = os.path.join(d, "a.uvh5")
        u.write_uvh5(fn, data_write_dtype=dt, run_check=False, chunks=S.choice("ch", [True, None, (2, 1, 1)]),
                     **(dict(flags_compression=None, nsample_compression=None)))
        _same(S, u, old, "object after writing")
        err = S.raises(lambda: u.write_uvh5(fn, run_check=False), IOError)
        S.prove(err is not None, "overwrote a file without clobber")
        new = UVData.from_file(fn, run_check=False, fix_autos=False, check_autos=False)
    if dt != "c8":
        _same(S, new, old, "read back")
    else:
        S.same(new.data_array, u.data_array, "read back: single-precision data", tol=1e-3)
        _same(S, new, old, "read back", skip=("_data_array",))
    _tel(S, new.telescope, tel, "read back telescope")


# ------------------------------------------------------------------ partial reads
BIG = {"blt": (12, 4, 3), "freq": (5, 22, 1), "pol": (4, 3, 4)}
SETS = {
    "none": lambda n: None,
    "run": lambda n: list(range(1, n - 1)),
    "short": lambda n: list(range(n // 3, n // 3 + 3)) if n > 4 else [0, 1],
    "step": lambda n: list(range(1, n, 2)),
    "irr": lambda n: [0, 2, 3] + ([n - 2] if n > 5 else []),
    "two": lambda n: sorted({n // 3, n - 1}),
    "one": lambda n: [n - 1],
    "gap": lambda n: [i for i in range(n) if i != n // 2],
    "gap2": lambda n: [i for i in range(n - 1) if i != n // 2],
    "all": lambda n: list(range(n)),
    "rev": lambda n: list(range(n))[::-1][:n - 1],
}


@fixture
def big(nb, nf, npol):
    blts = [(a, b, t) for t in range(4) for a, b in ((1, 3), (7, 1), (3, 7))][:nb]
    u = cm.keyed(tuple(blts), tuple(range(nf if nf < 10 else 10)) + tuple(range(10, nf)),
                 (-5, -6, -7, -8)[:npol])
    return u


def _write(S, u, d, name="a.uvh5", **kw):
    fn = os.path.join(d, name)
    u.write_uvh5(fn, run_check=False, flags_compression=None, nsample_compression=None, **kw)
    return fn


RD = dict(run_check=False, check_autos=False, fix_autos=False, run_check_acceptability=False)


@case(P, bounds=B, main=["blt", "freq", "pol"], multidim=[False, True])
def partial_index(S, main, multidim):
    """reading index subsets of any axes gives exactly those entries"""
    nb, nf, npol = BIG[main]
    u = cm.sym(S, big(nb, nf, npol))
    wide = ["run", "short", "step", "irr", "two", "one", "gap", "gap2", "all", "rev"]
    some = ["none", "one", "irr", "two"]
    names = {"blt": some, "freq": some, "pol": some}
    names[main] = wide if main != "pol" else ["one", "two", "irr", "short", "all", "rev"]
    if npol == 1:
        names["pol"] = ["none"]
    if npol == 3:
        names["pol"] = ["none", "two", "one"]
    if nf == 3:
        names["freq"] = ["none", "two", "one"]
    b = SETS[S.choice("b", names["blt"])](nb)
    f = SETS[S.choice("f", names["freq"])](nf)
    p = SETS[S.choice("p", names["pol"])](npol)
    old = cm.snap(u)
    kw = {}
    if b is not None:
        kw["blt_inds"] = b
    if f is not None:
        kw["freq_chans"] = f
    if p is not None:
        kw["polarizations"] = [int(u.polarization_array[i]) for i in p]
    with S.scratch() as d:
        fn = _write(S, u, d)
        new = UVData.from_file(fn, multidim_index=multidim, **kw, **RD)
    for c, k in zip("bfp", (b, f, p)):
        if k is not None:
            S.cover(f"{c}{len(k)}")
    _part(S, new, old, b, f, p, "partial read")


@case(P, bounds="every set of 8 of the entries of one axis, in two parts", axis=["blt", "freq"], dt=["c16", "ri4"])
def any_parts(S, axis, dt):
    """any set of entries and the rest of them, written in two parts, are at their places"""
    n = 7 if axis == "freq" else 6
    u = cm.keyed(tuple((a, b, t) for t in range(3) for a, b in ((1, 3), (7, 1)))[:n if axis == "blt" else 2],
                 tuple(range(n if axis == "freq" else 2)), (-5,))
    sh = u.data_array.shape
    if dt == "ri4":
        u.data_array = S.ints("re", sh, -1000, 1000) * (1 + 0j) + S.ints("im", sh, -1000, 1000) * 1j
    else:
        u.data_array = S.cplxs("d", sh)
    u.flag_array, u.nsample_array = S.bools("f", sh), S.reals("n", sh, 0, 100)
    one = S.subset("s", n, 1)
    rest = [i for i in range(n) if i not in one]
    D, F, N = u.data_array, u.flag_array, u.nsample_array
    old = cm.snap(u)
    dtype = np.dtype([("r", "i4"), ("i", "i4")]) if dt == "ri4" else dt
    kw, ax = ("blt_inds", 0) if axis == "blt" else ("freq_chans", 1)
    with S.scratch() as d:
        fn = os.path.join(d, "a.uvh5")
        u.initialize_uvh5_file(fn, data_write_dtype=dtype, flags_compression=None, nsample_compression=None)
        for k in (one, rest):
            if k:
                part = [x.take(k, axis=ax) for x in (D, F, N)]
                u.write_uvh5_part(fn, data_array=part[0], flag_array=part[1], nsample_array=part[2],
                                  check_header=False, **{kw: k})
        new = UVData.from_file(fn, **RD)
    _same(S, new, old, f"in parts {one}, {rest}")


@case(P, bounds="every set of entries of an axis of 8", axis=["blt", "freq"], multidim=[False, True])
def any_read(S, axis, multidim):
    """reading any set of entries of an axis"""
    n = 8
    u = cm.sym(S, big(n, 2, 1) if axis == "blt" else big(2, n, 1))
    k = S.subset("s", n, 1)
    old = cm.snap(u)
    with S.scratch() as d:
        fn = _write(S, u, d)
        new = UVData.from_file(fn, multidim_index=multidim, **{"blt_inds" if axis == "blt" else "freq_chans": k}, **RD)
    _part(S, new, old, k if axis == "blt" else None, k if axis == "freq" else None, None, f"{axis} {k}")


@case(P, bounds="up to 7 indices with any increasing values; every limit on the number of slices", n=[1, 2, 3, 5, 7],
      form=["list", "array"])
def slices(S, n, form):
    """the slices of a set of indices cover these indices in order, and nothing else"""
    ind = [S.int("i0", 0, 1000)]
    for j in range(1, n):
        ind.append(ind[-1] + S.int(f"g{j}", 1, 1000))
    arg = ind if form == "list" else cm.stack(S, ind, np.int64)
    kw = S.choice("kw", [{}, dict(max_nslice_frac=0.5), dict(max_nslice=1, return_index_on_fail=True),
                         dict(max_nslice=2, return_index_on_fail=True)])
    sl, ok = tools._convert_to_slices(arg, **kw)
    if not isinstance(sl[0], slice):
        S.prove(not ok and len(sl) == 1, "indices returned though slices do")
        for a, b in zip(sl[0], ind):
            S.same(a, b, "index")
        return
    got = []
    for s in sl:
        i = s.start
        while i < s.stop:
            got.append(i)
            i = i + (1 if s.step is None else s.step)
            if len(got) > n:
                break
    S.prove(len(got) == n, f"{len(got)} indices from {n}")
    for a, b in zip(got, ind):
        S.same(a, b, "index")
    if ok and kw.get("max_nslice"):
        S.prove(len(sl) <= kw["max_nslice"], "number of slices")


def _part(S, new, old, b, f, p, msg):
    sel = {k: sorted(v) for k, v in (("Nblts", b), ("Nfreqs", f), ("Npols", p)) if v is not None}
    full = {"Nblts": list(range(len(old["_time_array"][0]))), "Nfreqs": list(range(len(old["_freq_array"][0]))),
            "Npols": list(range(len(old["_polarization_array"][0])))}
    full.update(sel)
    S.prove((new.Nblts, new.Nfreqs, new.Npols) == tuple(len(full[k]) for k in ("Nblts", "Nfreqs", "Npols")),
            f"{msg}: sizes {new.Nblts} {new.Nfreqs} {new.Npols}")
    cm.check_subset(S, new, old, full, skip=SKIP | {"_nsample_array"}, msg=msg)
    S.same(new.nsample_array, old["_nsample_array"][0].take(full["Nblts"], axis=0).take(
        full["Nfreqs"], axis=1).take(full["Npols"], axis=2), f"{msg}: nsample_array", tol=1e-4)
    t = {float(old["_time_array"][0][i]) for i in full["Nblts"]}
    k = {int(old["_baseline_array"][0][i]) for i in full["Nblts"]}
    S.prove(new.Ntimes == len(t) and new.Nbls == len(k), f"{msg}: Ntimes, Nbls")
    w = {int(old["_flex_spw_id_array"][0][i]) for i in full["Nfreqs"]}
    S.prove(new.Nspws == len(w) and {int(x) for x in new.spw_array} == w, f"{msg}: windows")


KEYS = ["antenna_nums", "antenna_names", "bls", "bls3", "ant_str", "times", "time_range", "lsts", "lst_range",
        "phase_center_ids", "catalog_names", "frequencies", "pol_str", "mixed"]


@case(P, bounds=B, key=KEYS)
def partial_keys(S, key):
    """reading with any selection keyword is the same as reading all and selecting"""
    u = cm.sym(S, cm.uvd("irr_u", 3, (-5, -6, -7, -8), ncat=2))
    t, lst = u.time_array, u.lst_array
    kw = {
        "antenna_nums": lambda: dict(antenna_nums=S.choice("v", [[1, 3], [1, 7, 3], [7, 12], [1, 3, 7, 12], [12], [99]])),
        "antenna_names": lambda: dict(antenna_names=S.choice("v", [["a1", "a3"], ["a12", "a7"]])),
        "bls": lambda: dict(bls=S.choice("v", [[(1, 3)], (3, 1), [(1, 7), (12, 7)], [(1, 12)]])),
        "bls3": lambda: dict(bls=S.choice("v", [[(1, 3, "xx")], [(3, 1, "xy"), (1, 7, "xx")], (1, 7, "yx")])),
        "ant_str": lambda: dict(ant_str=S.choice("v", ["auto", "cross", "1_3", "1x_7y", "-1_3", "1x_3y,1x_7x"])),
        "times": lambda: dict(times=[float(t[i]) for i in S.subset("v", 3, 1)]),
        "time_range": lambda: dict(time_range=S.choice("v", [[cm.T0 - 1, cm.T0 + 0.0006], [cm.T0 + 0.0004, cm.T0 + 1],
                                                             [cm.T0 + 5, cm.T0 + 6]])),
        "lsts": lambda: dict(lsts=[float(lst[i]) for i in S.subset("v", 3, 1)]),
        "lst_range": lambda: dict(lst_range=S.choice("v", [[float(lst[0]) - 1e-4, float(lst[0]) + 1e-4], [6.2, 0.001]])),
        "phase_center_ids": lambda: dict(phase_center_ids=S.choice("v", [0, 1, [0, 1], [5]])),
        "catalog_names": lambda: dict(catalog_names=S.choice("v", ["zen0", ["zen1"], "zzz"])),
        "frequencies": lambda: dict(frequencies=[float(u.freq_array[i]) for i in S.subset("v", 3, 1)]),
        "pol_str": lambda: dict(polarizations=S.choice("v", [["xx"], ["yx", "xy"], ["ee", "nn"], ["rr"]])),
        "mixed": lambda: dict(antenna_nums=[1, 3, 7], freq_chans=[0, 2], polarizations=[-5, -8],
                              phase_center_ids=S.choice("v", [0, 1])),
    }[key]()
    multi = bool(S.pick("multi", 2))
    keep = bool(S.pick("keep", 2))
    if key == "times":
        kw["times"] = sorted(set(kw["times"]))
    with S.scratch() as d:
        fn = _write(S, u, d)
        whole = UVData.from_file(fn, **RD)
        e1 = S.raises(lambda: whole.select(run_check=False, keep_all_metadata=keep, **kw), Exception)
        got = []
        e2 = S.raises(lambda: got.append(UVData.from_file(fn, multidim_index=multi, keep_all_metadata=keep,
                                                          **kw, **RD)), Exception)
    S.prove((e1 is None) == (e2 is None), f"select: {e1!r}; partial read: {e2!r}")
    if e1 is not None:
        S.cover("refused")
        return
    new = got[0]
    _same(S, new, cm.snap(whole), f"read({kw})", skip=("_blts_are_rectangular", "_time_axis_faster_than_bls"))
    cm.check_layout(S, new, f"read({kw})", lookups=False)
    _tel(S, new.telescope, cm.snap(whole.telescope), f"read({kw}) telescope")


@case(P, bounds=B, dt=["i4", "f4", "f8", "i2"])
def compound(S, dt):
    """data stored as pairs of integers or floats"""
    u = cm.uvd("irr_u", 3, (-5, -6, -7))
    re, im = S.ints("re", u.data_array.shape, -1000, 1000), S.ints("im", u.data_array.shape, -1000, 1000)
    u.data_array = re * (1 + 0j) + im * 1j
    old = cm.snap(u)
    dtype = np.dtype([("r", dt), ("i", dt)])
    how = S.choice("how", ["whole", "part", "multi", "c8"])
    kw = {}
    if how in ("part", "multi"):
        kw = dict(blt_inds=S.choice("b", [[0, 1, 3], [2], [1, 4]]), freq_chans=S.choice("f", [[0, 2], [1]]))
        if S.pick("p", 2):
            kw["polarizations"] = [-5, -7]
    with S.scratch() as d:
        fn = _write(S, u, d, data_write_dtype=dtype)
        new = UVData.from_file(fn, data_array_dtype=np.complex64 if how == "c8" else np.complex128,
                               multidim_index=how == "multi", **kw, **RD)
    if dt[0] == "i":
        S.prove(new.data_array.dtype == (np.complex64 if how == "c8" else np.complex128), "dtype")
    _part(S, new, old, kw.get("blt_inds"), kw.get("freq_chans"),
          [0, 2] if "polarizations" in kw else None, "compound")


@case(P, bounds=B, layout=["rect_tb", "irr"])
def metadata_only(S, layout):
    """read_data=False gives the metadata and no data; it can be loaded later"""
    u = cm.sym(S, cm.uvd(layout, 2, (-5, -6), ncat=2))
    old = cm.snap(u)
    with S.scratch() as d:
        fn = _write(S, u, d)
        new = UVData.from_file(fn, read_data=False, **RD)
        S.prove(new.metadata_only and new.data_array is None, "metadata only")
        _same(S, new, {k: v for k, v in old.items() if k not in ("_data_array", "_flag_array", "_nsample_array")},
              "metadata")
        new.read(fn, **RD)
    _same(S, new, old, "read later")


# ------------------------------------------------------------------ partial writes
PARTS = {
    "one": lambda n: [list(range(n))],
    "halves": lambda n: [list(range(n // 2)), list(range(n // 2, n))],
    "odd": lambda n: [list(range(0, n, 2)), list(range(1, n, 2))],
    "irr": lambda n: [[0, 1, 3], [i for i in range(n) if i not in (0, 1, 3)]],
}


@case(P, bounds=B, bpart=list(PARTS), fpart=list(PARTS), dt=["c16", "c8", "rf8", "ri4"])
def in_parts(S, bpart, fpart, dt):
    """a file initialised and then filled in parts holds what the parts held"""
    u = cm.uvd("irr_u", 4, (-5, -6, -7, -8))
    u.scan_number_array = None  # not part of the format
    sh = u.data_array.shape
    if dt == "ri4":
        u.data_array = S.ints("re", sh, -1000, 1000) * (1 + 0j) + S.ints("im", sh, -1000, 1000) * 1j
    else:
        u.data_array = S.cplxs("d", sh)
    u.flag_array = S.bools("f", sh)
    u.nsample_array = S.reals("n", sh, 0, 100)
    ppart = S.choice("ppart", list(PARTS))
    todo = [(b, f, p) for b in PARTS[bpart](5) for f in PARTS[fpart](4) for p in PARTS[ppart](4)]
    if S.pick("order", 2):
        todo = todo[::-1]
    dtype = {"rf8": np.dtype([("r", "f8"), ("i", "f8")]), "ri4": np.dtype([("r", "i4"), ("i", "i4")])}.get(dt, dt)
    D, F, N = u.data_array, u.flag_array, u.nsample_array
    old = cm.snap(u)
    with S.scratch() as d:
        fn = os.path.join(d, "a.uvh5")
        u.initialize_uvh5_file(fn, data_write_dtype=dtype, flags_compression=None, nsample_compression=None)
        for n, (b, f, p) in enumerate(todo):
            part = [x.take(b, axis=0).take(f, axis=1).take(p, axis=2) for x in (D, F, N)]
            u.write_uvh5_part(fn, data_array=part[0], flag_array=part[1], nsample_array=part[2], blt_inds=b,
                              freq_chans=f, polarizations=[int(u.polarization_array[i]) for i in p],
                              check_header=n == 0, run_check_acceptability=False)
        new = UVData.from_file(fn, **RD)
    _same(S, u, old, "object after writing parts")
    if dt == "c8":
        S.same(new.data_array, D, "single-precision data", tol=1e-3)
        _same(S, new, old, "in parts", skip=("_data_array",))
    else:
        _same(S, new, old, "in parts")


@case(P, bounds=B, key=["bls", "times", "antenna_nums", "pols", "freqs", "ids"])
def part_keys(S, key):
    """a part is written exactly where its selection keywords point, and nowhere else"""
    u = cm.sym(S, cm.uvd("irr_u", 3, (-5, -6), ncat=2))
    u.scan_number_array = None  # not part of the format
    sh = u.data_array.shape
    a1, a2, t = u.ant_1_array, u.ant_2_array, u.time_array
    b, f, p = list(range(5)), [0, 1, 2], [0, 1]
    if key == "bls":
        k = S.choice("k", [(1, 3), (1, 7), (12, 7)])
        kw, b = dict(bls=[k]), [i for i in range(5) if {a1[i], a2[i]} == set(k)]
    elif key == "times":
        k = S.pick("k", 5)
        kw, b = dict(times=[float(t[k])]), [i for i in range(5) if t[i] == t[k]]
    elif key == "antenna_nums":
        k = S.choice("k", [[1, 3], [1, 7, 12]])
        kw, b = dict(antenna_nums=k), [i for i in range(5) if a1[i] in k and a2[i] in k]
    elif key == "pols":
        kw, p = dict(polarizations=["yy"]), [1]
    elif key == "freqs":
        f = S.subset("k", 3, 1)
        kw = dict(frequencies=[float(u.freq_array[i]) for i in f])
    else:
        k = S.pick("k", 2)
        kw, b = dict(phase_center_ids=[k]), [i for i in range(5) if u.phase_center_id_array[i] == k]
    psh = (len(b), len(f), len(p))
    D, F, N = S.cplxs("xd", psh), S.bools("xf", psh), S.reals("xn", psh, 0, 100)
    ed, ef, en = u.data_array.copy(), u.flag_array.copy(), u.nsample_array.copy()
    for i, x in enumerate(b):
        for j, y in enumerate(f):
            for m, z in enumerate(p):
                ed[x, y, z], ef[x, y, z], en[x, y, z] = D[i, j, m], F[i, j, m], N[i, j, m]
    with S.scratch() as d:
        fn = _write(S, u, d)
        bad = S.pick("bad", 2)
        if bad:  # wrong shape: refused, file unchanged
            err = S.raises(lambda: u.write_uvh5_part(fn, data_array=D[:, :, :0], flag_array=F[:, :, :0],
                                                     nsample_array=N[:, :, :0], run_check_acceptability=False,
                                                     **kw), AssertionError)
            S.prove(err is not None, "wrong shape accepted")
            ed, ef, en = u.data_array, u.flag_array, u.nsample_array
        else:
            u.write_uvh5_part(fn, data_array=D, flag_array=F, nsample_array=N, run_check_acceptability=False, **kw)
        new = UVData.from_file(fn, **RD)
    S.same(new.data_array, ed, "visibilities of the file")
    S.same(new.flag_array, ef, "flags of the file")
    S.same(new.nsample_array, en, "nsamples of the file", tol=1e-4)


@case(P, bounds=B)
def part_mismatch(S):
    """a part for an object with other metadata is refused; object and file stay as they were"""
    u = cm.sym(S, cm.uvd("irr_u", 2, (-5, -6)))
    v = cm.uvd("irr_u", 2, (-5, -6))
    v = cm.sym(S, v, "v")
    what = S.choice("what", ["uvw", "freq", "ants", "int", "keys", "same"])
    if what == "uvw":
        v.uvw_array = v.uvw_array + 3.0
    elif what == "freq":
        v.freq_array = v.freq_array + 5.0e3
    elif what == "ants":
        v.telescope.antenna_positions = v.telescope.antenna_positions + 1.0
    elif what == "int":
        v.integration_time = v.integration_time * 2
    elif what == "keys":
        v.extra_keywords = {"K": 2}
    v.scan_number_array = None
    old, mem = cm.snap(u), cm.snap(v)
    with S.scratch() as d:
        fn = _write(S, u, d)
        err = S.raises(lambda: v.write_uvh5_part(
            fn, data_array=v.data_array, flag_array=v.flag_array, nsample_array=v.nsample_array,
            run_check_acceptability=False), AssertionError)
        S.prove((err is None) == (what == "same"), f"{what}: {err!r}")
        _same(S, v, mem, "object in memory")
        new = UVData.from_file(fn, **RD)
    if what == "same":
        old.update({k: mem[k] for k in ("_data_array", "_flag_array", "_nsample_array")})
    _same(S, new, old, "file")


# ------------------------------------------------------------------ several files
@case(P, bounds=B, axis=["blt", "freq", "pol"], concat=[False, True])
def several(S, axis, concat):
    """reading a list of files is reading each and adding them"""
    blts = [(1, 3, 0), (7, 1, 0), (1, 3, 1), (7, 1, 1)]
    fr, po = [0, 1, 2, 3], [-5, -6, -7, -8]
    ab, af, ap = [(blts, fr, po)] * 3
    keys = dict(blt=(blts[:2], fr, po, blts[2:], fr, po), freq=(blts, fr[:2], po, blts, fr[2:], po),
                pol=(blts, fr, po[:2], blts, fr, po[2:]))[axis]
    one = cm.sym(S, cm.keyed(tuple(keys[0]), tuple(keys[1]), tuple(keys[2])), "x")
    two = cm.sym(S, cm.keyed(tuple(keys[3]), tuple(keys[4]), tuple(keys[5])), "y")
    src = [cm.Source(one), cm.Source(two)]
    swap = S.pick("swap", 2)
    with S.scratch() as d:
        fns = [_write(S, one, d, "one.uvh5"), _write(S, two, d, "two.uvh5")]
        if swap:
            fns = fns[::-1]
        kw = dict(axis="polarization" if axis == "pol" else axis) if concat else {}
        new = UVData.from_file(fns, **kw, **RD)
    new.nsample_array = _near(S, new, src)
    cm.check_keyed(S, new, src, blts, [cm.chan(f)[0:1] + (round(cm.chan(f)[1]),) for f in fr], po, "several files")


def _near(S, new, src):
    """check the single-precision nsamples with their tolerance, then use the exact ones"""
    B_, C_, Q_ = cm.blt_keys(new), cm.chan_keys(new), cm.pol_keys(new)
    exp = []
    for b in B_:
        for c in C_:
            for q in Q_:
                v = next((s.at(b, c, q) for s in src if s.at(b, c, q) is not None), (0, True, 0.0))
                exp.append(v[2])
    e = cm.stack(S, exp, np.float64).reshape(new.nsample_array.shape)
    S.same(new.nsample_array, e, "nsamples", tol=1e-4)
    return e


# ------------------------------------------------------------------ quick metadata
@case(P, bounds="concrete metadata; layouts with regular and irregular axes; every pair and polarization key",
      layout=["rect_tb", "rect_bt", "irr", "autos", "single", "onebl", "pair"])
def fast_meta(S, layout):
    """FastUVH5Meta agrees with the object written"""
    u = cm.uvd(layout, 2, (-5, -7))
    u.extra_keywords = {"A": "text", "B": 3, "D": None}
    if S.pick("rect", 2):
        u.set_rectangularity(force=True)
    x = S.real("x", 1, 2)  # one solver variable, so that the case is decided like the others
    u.data_array = u.data_array * x
    with S.scratch() as d:
        fn = _write(S, u, d)
        m = FastUVH5Meta(fn)
        S.prove(m.Nblts == u.Nblts and m.Nbls == u.Nbls and m.Ntimes == u.Ntimes and m.Nfreqs == u.Nfreqs
                and m.Npols == u.Npols, "sizes")
        for nm in ("ant_1_array", "ant_2_array", "time_array", "lst_array", "baseline_array", "uvw_array",
                   "freq_array", "integration_time", "polarization_array", "channel_width"):
            S.same(getattr(m, nm), getattr(u, nm), nm)
        K = list(zip([int(a) for a in u.ant_1_array], [int(b) for b in u.ant_2_array]))
        S.prove(sorted((int(a), int(b)) for a, b in m.antpairs) == sorted(set(K)), f"antpairs {m.antpairs}")
        S.prove(sorted(float(t) for t in m.times) == sorted({float(t) for t in u.time_array}), "times")
        S.prove(sorted(float(t) for t in m.lsts) == sorted({float(t) for t in u.lst_array}), "lsts")
        S.prove(sorted(int(b) for b in m.unique_baseline_array) == sorted({int(b) for b in u.baseline_array}),
                "unique baselines")
        S.prove({int(a) for a in m.unique_ants} == {x for k in K for x in k}, "antennas")
        S.prove(list(m.pols) == ["ee", "en"], f"pols {m.pols}")
        S.prove(m.extra_keywords == u.extra_keywords, "extra keywords")
        n, T = len(K), [float(t) for t in u.time_array]
        if m.blts_are_rectangular:
            nb, nt = len(set(K)), len(set(T))
            if m.time_axis_faster_than_bls:
                ok = all(K[i] == K[i // nt * nt] and T[i] == T[i % nt] for i in range(n))
            else:
                ok = all(T[i] == T[i // nb * nb] and K[i] == K[i % nb] for i in range(n))
            S.prove(n == nb * nt and ok, "called rectangular, but is not")
        for a in cm.ANTS:
            for b in cm.ANTS:
                S.prove(bool(m.has_key((a, b))) == ((a, b) in K or (b, a) in K), f"has_key({a}, {b})")
                for q in ("ee", "en", "ne", "nn"):
                    e = ((a, b) in K and q in m.pols) or ((b, a) in K and q[::-1] in m.pols)
                    S.prove(bool(m.has_key((a, b, q))) == e, f"has_key({a}, {b}, {q})")
        m.close()
