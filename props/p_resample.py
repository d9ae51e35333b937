"""Resampling in time: upsample_in_time, downsample_in_time, resample_in_time."""
import contextlib
import io
import warnings

import numpy as np
from symx.harness import case, fixture

from . import common as cm

P = "C09"
B = ("up to 6 baseline-times on 2 baselines, 1-2 channels, 1-2 polarizations, integration times from "
     "7 layouts; visibilities, flags, sample counts symbolic; max/min_int_time symbolic, except within "
     "1e-3 relative of a tie that is not exact; astrometry concrete")
C_LIGHT = 299792458.0
# (ant1, ant2, time in units of 43.2 s, integration time in s)
LAY = {
    "even": [(1, 3, 0, 10.0), (1, 7, 0, 10.0), (1, 3, 1, 10.0), (1, 7, 1, 10.0), (1, 3, 2, 10.0), (1, 7, 2, 10.0)],
    "mixed": [(1, 3, 0, 8.0), (1, 7, 0, 24.0), (1, 3, 1, 8.0), (1, 3, 2, 4.0), (1, 7, 2, 24.0), (1, 3, 3, 4.0)],
    "mixed3": [(1, 3, 2, 4.0), (1, 7, 0, 24.0), (1, 3, 1, 8.0), (1, 3, 0, 8.0)],
    "lone": [(3, 1, 1, 12.0), (1, 7, 2, 6.0), (1, 7, 1, 6.0)],
    "onebl": [(1, 3, 0, 6.0), (1, 3, 1, 12.0), (1, 3, 2, 6.0)],
    "part": [(1, 3, 0, 8.0), (1, 7, 0, 16.0), (1, 3, 1, 8.0), (1, 7, 1, 8.0)],
    "two": [(1, 7, 0, 16.0), (1, 3, 0, 16.0), (1, 3, 1, 16.0), (1, 7, 1, 16.0)],
}
SRC = {0: dict(cat_name="s0", cat_type="sidereal", cat_lon=0.3, cat_lat=-0.5, cat_frame="icrs", cat_epoch=2000.0),
       3: dict(cat_name="s3", cat_type="sidereal", cat_lon=0.4, cat_lat=-0.4, cat_frame="icrs", cat_epoch=2000.0)}


@fixture
def base(lay, nf, pols, cat):
    rows = LAY[lay]
    u = cm.keyed(tuple(r[:3] for r in rows), tuple(range(nf)), pols, "src" if cat != "zen" else "zen")
    if cat == "src2":
        u.phase_center_catalog = {k: dict(v) for k, v in SRC.items()}
        u.Nphase = 2
        u.phase_center_id_array = np.array([0 if r[1] == 3 else 3 for r in rows])
    elif cat == "mixed":   # baseline 1-3 unprojected, baseline 1-7 sidereal
        u.unproject_phase(select_mask=np.array([r[1] == 3 for r in rows]))
    elif cat == "drift2":
        for nm, lat, b in (("D1", 1.5, 3), ("D2", 1.3, 7)):
            u.phase(lon=0.0, lat=lat, cat_name=nm, cat_type="driftscan", phase_frame="altaz",
                    select_mask=np.array([r[1] == b for r in rows]))
    elif cat == "drift":
        u.phase(lon=0.0, lat=1.5, cat_name="D1", cat_type="driftscan", phase_frame="altaz")
    u.integration_time = np.array([r[3] for r in rows])
    u.scan_number_array = np.array([100 * r[1] + r[2] for r in rows])
    u._set_app_coords_helper()
    t = u.copy(metadata_only=True)
    t.set_uvws_from_antenna_positions()
    u.uvw_array = t.uvw_array
    return u


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def rowkeys(u):
    return [(int(a), int(b), float(t)) for a, b, t in zip(u.ant_1_array, u.ant_2_array, u.time_array)]


class In:
    def __init__(self, u, meta=False):
        self.k = rowkeys(u)
        self.it = [float(x) for x in u.integration_time]
        self.sc = [int(x) for x in u.scan_number_array]
        self.ids = [u.phase_center_catalog[int(i)]["cat_name"] for i in u.phase_center_id_array]
        self.cat = {v["cat_name"]: dict(v) for v in u.phase_center_catalog.values()}
        self.meta = meta
        self.w0 = [float(w) for w in u.uvw_array[:, 2]]
        if not meta:
            self.d, self.f, self.n = u.data_array.copy(), u.flag_array.copy(), u.nsample_array.copy()


def check_out(S, u, want, src, msg, order, minor, rot=None):
    """want: list of (ant1, ant2, time, int_time, scan, source name, data, flag, nsample)"""
    got = rowkeys(u)
    S.prove(u.Nblts == len(want) and len(got) == len(want), f"{msg}: {len(got)} baseline-times, not {len(want)}")
    left = list(range(len(want)))
    to = []
    for a, b, t in got:
        m = [i for i in left if want[i][:2] == (a, b) and abs(want[i][2] - t) < 1e-9]
        S.prove(len(m) >= 1, f"{msg}: unexpected baseline-time {(a, b, t - cm.T0)}")
        to.append(m[0])
        left.remove(m[0])
    w = [want[i] for i in to]
    S.same(u.integration_time, np.array([x[3] for x in w]), f"{msg}: integration times")
    S.prove([int(s) for s in u.scan_number_array] == [x[4] for x in w], f"{msg}: scan numbers")
    nm = [u.phase_center_catalog[int(i)]["cat_name"] for i in u.phase_center_id_array]
    S.prove(nm == [x[5] for x in w], f"{msg}: phase centers {nm}")
    S.prove({k["cat_name"]: k for k in u.phase_center_catalog.values()} == src.cat, f"{msg}: catalog")
    S.prove(u.Ntimes == len({x[2] for x in got}), f"{msg}: Ntimes")
    S.prove(u.Nbls == len({x[:2] for x in got}), f"{msg}: Nbls")
    # metadata that follow from times, baselines and phase centers
    t = u.copy(metadata_only=True)
    quiet(t.set_lsts_from_time_array)
    S.same(u.lst_array, t.lst_array, f"{msg}: lsts")
    t._set_app_coords_helper()
    for p in ("phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa"):
        S.same(getattr(u, p), getattr(t, p), f"{msg}: {p}", tol=1e-6)
    t.uvw_array = np.zeros_like(t.uvw_array)
    t.set_uvws_from_antenna_positions()
    S.same(u.uvw_array, t.uvw_array, f"{msg}: uvws", tol=1e-5)
    if not src.meta:
        sh = (len(w),) + src.d.shape[1:]
        S.prove(u.data_array.shape == sh and u.flag_array.shape == sh and u.nsample_array.shape == sh,
                f"{msg}: shapes")
        S.same(u.flag_array, np.stack([x[7] for x in w]), f"{msg}: flags")
        S.same(u.nsample_array, np.stack([x[8] for x in w]), f"{msg}: nsamples")
        for i, x in enumerate(w):
            d = x[6] if rot is None else rot(i, x[6], t)
            S.same(u.data_array[i], d, f"{msg}: visibilities of {x[:2]} at {x[2] - cm.T0}",
                   **({} if rot is None else {"tol": 1e-5}))
    # order
    bl = [int(x) for x in u.baseline_array]
    tm = [x[2] for x in got]
    a1, a2 = [x[0] for x in got], [x[1] for x in got]
    ks = {"time": tm, "baseline": bl, "ant1": a1, "ant2": a2}
    if order in ks:
        nxt = minor if minor else {"time": "baseline", "baseline": "time", "ant1": "ant2", "ant2": "ant1"}[order]
        seq = list(zip(ks[order], ks[nxt]))
        S.prove(seq == sorted(seq), f"{msg}: not in {order}, {nxt} order")
    cm.check_layout(S, u, msg)


def up_oracle(S, src, mx, summing):
    """each integration longer than mx becomes equal parts no longer than mx"""
    out = []
    for i, (a, b, t) in enumerate(src.k):
        T = src.it[i]
        n = 1
        while not (T <= n * mx * (1 + 1e-7)):
            n += 1
        dt = T / n
        for j in range(n):
            tt = t + (j + 0.5 - n / 2) * dt / 86400.0
            d = f = s = None
            if not src.meta:
                d, f, s = src.d[i], src.f[i], src.n[i]
                if summing and n > 1:
                    d = d / n
            out.append((a, b, tt, dt, src.sc[i], src.ids[i], d, f, s, i))
    return out


def gaps(S, v, ties):
    for t in sorted(set(ties)):
        if bool(v == t):
            return
        S.assume(abs(v - t) > 2e-3 * max(t, 1.0))


ORD = [("time", "baseline"), ("baseline", "time"), ("ant1", "ant2"), ("ant2", None)]


@case(P, bounds=B, lay=["mixed", "lone", "two"], cat=["src", "zen"], rng=[(3.0, 7.0), (7.0, 30.0)])
def upsample(S, lay, cat, rng):
    """longer integrations are split evenly, nothing else changes"""
    u = base(lay, 1, (-5,), cat)
    meta = rng == (7.0, 30.0) and S.pick("meta", 2)
    if meta:
        u = u.copy(metadata_only=True)
    else:
        cm.sym(S, u)
    src = In(u, meta)
    mx = S.real("max", *rng)
    its = set(src.it)
    gaps(S, mx, [t / n for t in its for n in range(1, 9)])
    summing = bool(S.pick("summing", 2))
    o, m = ORD[0] if rng[0] < 5 else ORD[S.pick("order", 4)]
    if not any(bool(mx < t) for t in its):
        before = u.copy()
        quiet(u.upsample_in_time, mx, blt_order=o, minor_order=m)
        S.prove(u == before, "nothing to do, but changed")
        return
    quiet(u.upsample_in_time, mx, blt_order=o, minor_order=m, summing_correlator_mode=summing,
          allow_drift=cat == "zen")
    check_out(S, u, up_oracle(S, src, mx, summing), src, f"upsample {lay}", o, m)


@case(P, bounds=B, close=[0, 1])
def upsample_close(S, close):
    """integrations within tolerance of the maximum are kept as they are"""
    u = base("mixed", 1, (-5,), "src")
    u.integration_time[2] = 8.0004 if close else 7.9996
    cm.sym(S, u)
    src = In(u)
    mx = 8.0
    want = [x if src.it[x[9]] > 9 else None for x in up_oracle(S, src, mx, False)]
    want = [x for x in want if x] + [
        (*src.k[i], src.it[i], src.sc[i], src.ids[i], src.d[i], src.f[i], src.n[i]) for i in range(6) if src.it[i] < 9]
    quiet(u.upsample_in_time, mx)
    check_out(S, u, want, src, "upsample", "time", "baseline")


def down_oracle(S, src, mn, navg, ragged, summing, rotin=None):
    out = []
    bls = sorted({k[:2] for k in src.k})
    for bl in bls:
        idx = sorted((i for i, k in enumerate(src.k) if k[:2] == bl), key=lambda i: src.k[i][2])
        if mn is not None and all(bool(src.it[i] >= mn) for i in idx):
            groups, keep = [[i] for i in idx], True
        else:
            groups, cur, tot, keep = [], [], 0.0, False
            for i in idx:
                cur.append(i)
                tot += src.it[i]
                if (len(cur) >= navg) if mn is None else bool(tot >= mn):
                    groups.append(cur)
                    cur, tot = [], 0.0
            if cur and ragged:
                groups.append(cur)
        for g in groups:
            T = sum(src.it[i] for i in g)
            t = cm.T0 + sum((src.k[i][2] - cm.T0) * src.it[i] for i in g) / T
            d = f = s = None
            if not src.meta:
                fl = [src.f[i] for i in g]
                f = fl[0]
                for x in fl[1:]:
                    f = f & x
                d = np.empty(src.d.shape[1:], dtype=object)
                s = np.empty(src.d.shape[1:], dtype=object)
                for c in range(d.shape[0]):
                    for p in range(d.shape[1]):
                        good = [i for i in g if not bool(src.f[i, c, p])] or g
                        dd = {i: src.d[i, c, p] if rotin is None else src.d[i, c, p] * rotin[i][c] for i in g}
                        if summing:
                            d[c, p] = sum(dd[i] for i in good)
                        elif len(good) == 1:
                            d[c, p] = dd[good[0]]
                        else:
                            d[c, p] = (sum(dd[i] * (src.n[i, c, p] * src.it[i]) for i in good)
                                       / sum(src.n[i, c, p] * src.it[i] for i in good))
                        s[c, p] = sum(src.n[i, c, p] * src.it[i] for i in good) / T
                if keep:
                    d, s = src.d[g[0]] if rotin is None else src.d[g[0]] * rotin[g[0]][:, None], src.n[g[0]]
                else:
                    d, s = S._wrap(d, np.complex128), S._wrap(s, np.float64)
            out.append((*bl, t, T, src.sc[g[0]], src.ids[g[0]], d, f, s, g))
    return out


def _sums(src):
    out = set()
    for bl in {k[:2] for k in src.k}:
        idx = sorted((i for i, k in enumerate(src.k) if k[:2] == bl), key=lambda i: src.k[i][2])
        for i in range(len(idx)):
            for j in range(i + 1, len(idx) + 1):
                out.add(sum(src.it[k] for k in idx[i:j]))
    return out


def dsym(S, u, flags=True):
    u.data_array = S.cplxs("d", u.data_array.shape)
    u.nsample_array = S.reals("n", u.data_array.shape, 0.1, 10)
    if flags:
        u.flag_array = S.bools("f", u.data_array.shape)


@case(P, bounds=B, lay=["mixed3", "lone", "onebl"], summing=[False, True], flags=[True])
@case(P, bounds=B, lay=["even", "mixed"], summing=[False, True], flags=[True], tier="thorough")
@case(P, bounds=B, lay=["even", "mixed", "lone", "onebl"], summing=[False, True], flags=[False])
def downsample_min(S, lay, summing, flags):
    """consecutive integrations of a baseline are averaged until min_int_time is reached"""
    u = base(lay, 1, (-5,), "src")
    dsym(S, u, flags)
    src = In(u)
    mn = S.real("min", 3.0, 35.0)
    sums = _sums(src)
    gaps(S, mn, sums)
    ragged = bool(S.pick("ragged", 2))
    o, m = ORD[0] if flags else ORD[S.pick("order", 4)]
    if all(bool(mn <= t) for t in set(src.it)):
        before = u.copy()
        quiet(u.downsample_in_time, min_int_time=mn)
        S.prove(u == before, "nothing to do, but changed")
        return
    want = down_oracle(S, src, mn, None, ragged, summing)
    S.assume(len(want) > 0)
    quiet(u.downsample_in_time, min_int_time=mn, keep_ragged=ragged, summing_correlator_mode=summing,
          blt_order=o, minor_order=m)
    check_out(S, u, want, src, f"downsample {lay}", o, m)


@case(P, bounds=B, lay=["mixed3", "lone"], navg=[2, 3], summing=[False, True], flags=[True])
@case(P, bounds=B, lay=["even", "mixed"], navg=[2, 3], summing=[False, True], flags=[True], tier="thorough")
@case(P, bounds=B, lay=["even", "mixed", "lone"], navg=[2, 3], summing=[False, True], flags=[False])
def downsample_n(S, lay, navg, summing, flags):
    """groups of n consecutive integrations of each baseline are averaged"""
    u = base(lay, 1, (-5,), "src")
    ragged = bool(S.pick("ragged", 2))
    meta = not flags and S.pick("meta", 2)
    if meta:
        u = u.copy(metadata_only=True)
    else:
        dsym(S, u, flags)
    src = In(u, meta)
    o, m = ORD[0] if flags else ORD[S.pick("order", 4)]
    want = down_oracle(S, src, None, navg, ragged, summing)
    S.assume(len(want) > 0)
    quiet(u.downsample_in_time, n_times_to_avg=navg, keep_ragged=ragged, summing_correlator_mode=summing,
          blt_order=o, minor_order=m)
    check_out(S, u, want, src, f"downsample {lay}", o, m)


@case(P, bounds=B, shape=["1x2", "2x1"])
def downsample_axes(S, shape):
    """channels and polarizations are averaged independently"""
    nf, pols = (1, (-5, -6)) if shape == "1x2" else (2, (-5,))
    u = base("onebl", nf, pols, "src")
    dsym(S, u)
    src = In(u)
    want = down_oracle(S, src, None, 2, True, False)
    quiet(u.downsample_in_time, n_times_to_avg=2)
    check_out(S, u, want, src, "downsample", "time", "baseline")


def _phasors(u, t0=None):
    """exp(-2 pi i w nu/c) from the current phasing to zenith at t0, for unprojected/driftscan rows"""
    a = u.copy(metadata_only=True)
    ty = np.array([a.phase_center_catalog[int(i)]["cat_type"] for i in a.phase_center_id_array])
    m = (ty == "unprojected") | (ty == "driftscan")
    w0 = np.where(ty == "unprojected", 0.0, np.asarray(a.uvw_array[:, 2], dtype=float))
    b = a.copy()
    quiet(b.phase_to_time, t0, select_mask=m)
    dw = np.where(m, np.asarray(b.uvw_array[:, 2], dtype=float) - w0, 0.0)
    nu = np.asarray(u.freq_array, dtype=float)
    return np.exp(-2j * np.pi * dw[:, None] * nu[None, :] / C_LIGHT)


@case(P, bounds=B, cat=["zen", "drift", "mixed", "drift2"], op=["up", "down", "down_n"], lay=["two", "part"])
def phased(S, cat, op, lay):
    """unprojected and driftscan data are resampled at a fixed sky position, others as they are"""
    u = base(lay, 1, (-5,), cat)
    u.data_array = S.cplxs("d", u.data_array.shape)
    src = In(u)
    drift = bool(S.pick("allow_drift", 2))
    t0 = float(np.min(u.time_array)) if op != "up" else float(u.time_array[0])
    ph = np.ones((4, 1), dtype=complex) if drift else _phasors(u, t0)
    if op == "up":
        want = [(*x[:6], x[6] * ph[x[9]][:, None], *x[7:]) for x in up_oracle(S, src, 8.0, False)]
        quiet(u.upsample_in_time, 8.0, allow_drift=drift)
    else:
        mn, n = (32.0 if lay == "two" else 16.0, None) if op == "down" else (None, 2)
        want = down_oracle(S, src, mn, n, True, False, ph)
        kw = dict(min_int_time=mn) if op == "down" else dict(n_times_to_avg=n)
        quiet(u.downsample_in_time, allow_drift=drift, **kw)

    def rot(i, d, t):
        if drift:
            return d
        if not hasattr(t, "_ph"):
            t._ph = np.conj(_phasors(t, t0))
        return d * t._ph[i][:, None]
    check_out(S, u, want, src, f"{op} {cat}", "time", "baseline", rot)


@case(P, bounds=B)
def two_centers(S):
    """phase centers are kept apart"""
    u = base("even", 1, (-5,), "src2")
    dsym(S, u, False)
    u.phase_center_id_array = np.array([0, 3, 0, 3, 3, 3])
    u._set_app_coords_helper()
    src = In(u)
    op = S.choice("op", ["up", "down"])
    if op == "up":
        quiet(u.upsample_in_time, 5.0)
        check_out(S, u, up_oracle(S, src, 5.0, False), src, "upsample", "time", "baseline")
        return
    err = S.raises(lambda: quiet(u.downsample_in_time, n_times_to_avg=3), ValueError)
    S.prove(err is not None, "averaged over two phase centers")
    u = base("even", 1, (-5,), "src2")
    u.data_array, u.nsample_array = src.d, src.n
    u.phase_center_id_array = np.array([0, 3, 0, 3, 3, 3])
    u._set_app_coords_helper()
    want = down_oracle(S, src, None, 2, True, False)
    quiet(u.downsample_in_time, n_times_to_avg=2)
    check_out(S, u, want, src, "downsample", "time", "baseline")


@case(P, bounds=B, lay=["mixed", "even"])
def resample(S, lay):
    """resample_in_time up- and downsamples what is at least a factor of two off"""
    u = base(lay, 1, (-5,), "src")
    dsym(S, u, False)
    src = In(u)
    tgt = S.real("target", 4.0, 22.0)
    gaps(S, tgt, _sums(src) | {t / n for t in set(src.it) for n in range(1, 9)} | {2 * t for t in src.it})
    mode = S.pick("mode", 3)
    kw = [{}, {"only_downsample": True}, {"only_upsample": True}][mode]
    lo, hi = min(src.it), max(src.it)
    down = bool(tgt >= 2 * lo) and mode != 2
    upp = bool(hi >= 2 * tgt) and mode != 1
    before = u.copy()
    summing = bool(S.pick("summing", 2))
    ragged = bool(S.pick("ragged", 2))
    if not (down or upp):
        quiet(u.resample_in_time, tgt, **kw)
        S.prove(u == before, "nothing to do, but changed")
        return
    if down:
        want = down_oracle(S, src, tgt, None, ragged, summing)
        S.assume(len(want) > 0)
        mid = src
        if upp:
            mid = In.__new__(In)
            mid.__dict__.update(src.__dict__)
            mid.k, mid.it = [x[:3] for x in want], [x[3] for x in want]
            mid.sc, mid.ids = [x[4] for x in want], [x[5] for x in want]
            mid.d, mid.f, mid.n = (np.stack([x[q] for x in want]) for q in (6, 7, 8))
            want = up_oracle(S, mid, tgt, summing)
    else:
        want = up_oracle(S, src, tgt, summing)
    quiet(u.resample_in_time, tgt, keep_ragged=ragged, summing_correlator_mode=summing, blt_order="baseline",
          minor_order="time", **kw)
    check_out(S, u, want, src, "resample", "baseline", "time")


@case(P, bounds=B)
def refused(S):
    """impossible requests are refused"""
    u = base("mixed", 1, (-5,), "src")
    bad = [lambda: u.downsample_in_time(), lambda: u.downsample_in_time(min_int_time=20.0, n_times_to_avg=2),
           lambda: u.downsample_in_time(n_times_to_avg=1.5), lambda: u.downsample_in_time(min_int_time=24.0 * 101),
           lambda: u.upsample_in_time(4.0 / 101)]
    before = u.copy()
    i = S.pick("which", len(bad))
    S.prove(S.raises(lambda: quiet(bad[i]), ValueError) is not None, "accepted")
    S.prove(u == before, "changed by a refused request")
