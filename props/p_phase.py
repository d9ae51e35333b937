"""Phasing: projected baseline coordinates and visibility phases."""
from unittest import mock

import numpy as np
from symx.harness import case

from pyuvdata.utils import phasing as ph

from . import common as cm

P = "C07"
B = ("up to 3 baseline-times, 3 antennas; antenna positions, uvws, visibilities, every angle (hour "
     "angle, declination, position angle, latitude, longitude) symbolic; equal angles only where "
     "they are the same symbol; astrometry (astropy, ERFA) replaced by arbitrary values")
C_LIGHT = 299792458.0


def _trig(x):
    return np.cos(x), np.sin(x)


def rot(ra, dec, pa, lst, lon, v):
    """uvw of the ECEF-oriented vector v for a phase center at ra, dec (textbook form)"""
    ch, sh = _trig(lst - ra - lon)
    cd, sd = _trig(dec)
    x, y, z = v
    u = sh * x + ch * y
    w = cd * ch * x - cd * sh * y + sd * z
    n = -sd * ch * x + sd * sh * y + cd * z
    if pa is not None:
        cp, sp = _trig(pa)
        u, n = cp * u - sp * n, sp * u + cp * n
    return [u, n, w]


def unrot(ra, dec, pa, lst, lon, uvw):
    """inverse of rot"""
    u, n, w = uvw
    if pa is not None:
        cp, sp = _trig(pa)
        u, n = cp * u + sp * n, -sp * u + cp * n
    ch, sh = _trig(lst - ra - lon)
    cd, sd = _trig(dec)
    x = sh * u - sd * ch * n + cd * ch * w
    y = ch * u + sd * sh * n - cd * sh * w
    z = cd * n + sd * w
    return [x, y, z]


def arr1(S, items):
    return cm.stack(S, list(items), np.float64)


def mat(S, rows):
    o = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            o[i, j] = v
    return S._wrap(o, np.float64)


ANTS = [4, 0, 9]
PAIRS = [(4, 0), (0, 9), (9, 4)]


def _setup(S, n=3, share="free"):
    """per-blt symbolic lst, ra, dec, pa; which ones are shared is explored"""
    opts = {"same": [0, 0, 0], "ab": [0, 0, 1], "abb": [0, 1, 1], "free": [0, 1, 2],
            "aba": [0, 1, 0]}
    def ang(nm, pat):
        v = {k: S.angle(f"{nm}{k}") for k in sorted(set(opts[pat][:n]))}
        return [v[k] for k in opts[pat][:n]]
    return ang, opts


def _apart(S, *lists):
    """hour angles differ unless they are the same combination"""
    n = len(lists[0])
    for i in range(n):
        for j in range(i):
            if any(a[i] is not a[j] for a in lists) and len(lists) > 1:
                S.assume(lists[0][i] - lists[1][i] != lists[0][j] - lists[1][j])


PAT = [("same", "same", "same", "free"), ("same", "same", "free", "same"),
       ("same", "free", "same", "same"), ("free", "same", "same", "same"),
       ("ab", "abb", "abb", "ab"), ("abb", "ab", "same", "aba"), ("free", "free", "free", "free")]


@case(P, bounds=B, pat=list(range(len(PAT))), use_pa=[True, False])
def uvw_from_antennas(S, pat, use_pa):
    """uvws from antenna positions are the rotated baseline vectors"""
    pt = PAT[pat]
    ang, _ = _setup(S)
    lst, ra, dec = ang("lst", pt[0]), ang("ra", pt[1]), ang("dec", pt[2])
    pa = ang("pa", pt[3]) if use_pa else None
    _apart(S, lst, ra)
    lat, lon = S.angle("lat"), S.angle("lon")
    for i in range(3):
        S.assume(lst[i] - ra[i] - lon != 0.0)
    pos = S.reals("pos", (3, 3))
    a1, a2 = np.array([p[0] for p in PAIRS]), np.array([p[1] for p in PAIRS])
    got = ph.calc_uvw(
        app_ra=arr1(S, ra), app_dec=arr1(S, dec), frame_pa=None if pa is None else arr1(S, pa),
        lst_array=arr1(S, lst), use_ant_pos=True, antenna_positions=pos,
        antenna_numbers=np.array(ANTS), ant_1_array=a1, ant_2_array=a2, telescope_lat=lat,
        telescope_lon=lon)
    exp = []
    for i, (p, q) in enumerate(PAIRS):
        v = [pos[ANTS.index(q), k] - pos[ANTS.index(p), k] for k in range(3)]
        exp.append(rot(ra[i], dec[i], pa[i] if use_pa else None, lst[i], lon, v))
    S.same(got, mat(S, exp), "uvw from antenna positions")


@case(P, bounds=B)
def enu_from_antennas(S):
    """unprojected coordinates are the east, north, up components"""
    lat, lon = S.angle("lat"), S.angle("lon")
    pos = S.reals("pos", (3, 3))
    a1, a2 = np.array([p[0] for p in PAIRS]), np.array([p[1] for p in PAIRS])
    kw = {}
    if S.pick("lst", 2):
        kw = dict(lst_array=arr1(S, [S.angle(f"lst{i}") for i in range(3)]))
    got = ph.calc_uvw(use_ant_pos=True, antenna_positions=pos, antenna_numbers=np.array(ANTS),
                      ant_1_array=a1, ant_2_array=a2, telescope_lat=lat, telescope_lon=lon,
                      to_enu=True, **kw)
    cl, sl = _trig(lat)
    co, so = _trig(lon)
    exp = []
    for p, q in PAIRS:
        x, y, z = [pos[ANTS.index(q), k] - pos[ANTS.index(p), k] for k in range(3)]
        exp.append([-so * x + co * y, -sl * co * x - sl * so * y + cl * z,
                    cl * co * x + cl * so * y + sl * z])
    S.same(got, mat(S, exp), "east, north, up")


@case(P, bounds=B, frm=["enu", "uvw"], to=["enu", "uvw", "uvw_same_pos"], n=[1, 2])
def uvw_from_uvw(S, frm, to, n):
    """new uvws from old ones: rotate back to the fixed frame, then to the new center"""
    ang, _ = _setup(S, n)
    lst = ang("lst", "free")
    lat = S.angle("lat")
    old = S.reals("uvw", (n, 3))
    kw, exp = {}, []
    ora, odec, opa = ang("ora", "free"), ang("odec", "free"), ang("opa", "free")
    if frm == "uvw" or S.pick("extra", 2):
        kw.update(old_app_ra=arr1(S, ora), old_app_dec=arr1(S, odec), old_frame_pa=arr1(S, opa))
    if frm == "uvw" and to == "uvw_same_pos":
        nra, ndec = ora, odec
    else:
        nra, ndec = ang("nra", "free"), ang("ndec", "free")
    npa = ang("npa", "free")
    for i in range(n):
        if frm == "enu":
            v = unrot(lst[i], lat, None, lst[i], 0.0, [old[i, k] for k in range(3)])
        else:
            v = unrot(ora[i], odec[i], opa[i], lst[i], 0.0, [old[i, k] for k in range(3)])
        if to == "enu":
            exp.append(rot(lst[i], lat, None, lst[i], 0.0, v))
        else:
            exp.append(rot(nra[i], ndec[i], npa[i], lst[i], 0.0, v))
    if to != "enu":
        kw.update(app_ra=arr1(S, nra), app_dec=arr1(S, ndec), frame_pa=arr1(S, npa))
    got = ph.calc_uvw(uvw_array=old, use_ant_pos=False, lst_array=arr1(S, lst), telescope_lat=lat,
                      from_enu=frm == "enu", to_enu=to == "enu", **kw)
    S.same(got, mat(S, exp), f"uvw from {frm} to {to}")
    l2 = [sum(got[i, k] * got[i, k] for k in range(3)) - sum(old[i, k] * old[i, k] for k in range(3))
          for i in range(n)]
    S.same(arr1(S, l2), np.zeros(n), "baseline length kept")


# --------------------------------------------------------------- whole objects
SRC = {"A": (5.9, -0.5, "icrs", 2000.0), "B": (0.4, 0.2, "icrs", 2000.0),
       "C": (1.4, -0.3, "fk5", 2000.0)}


class Sky:
    """stand-in for the astrometry: an arbitrary direction and position angle for every
    source and time; unprojected data point at zenith"""

    def __init__(self, S, u, lst):
        self.S, self.u, self.tab, self.lst = S, u, {}, lst
        self.lat = u.telescope.location.lat.rad

    def get(self, src, t):
        k = (src, t)
        if k not in self.tab:
            nm = f"{src}{t}"
            self.tab[k] = [self.S.angle(q + nm) for q in ("ra", "dec")] + [{}]
        return self.tab[k]

    def pa(self, src, t, frame):
        e = self.get(src, t)
        if frame in (None, "altaz"):
            return 0.0
        if frame not in e[2]:
            e[2][frame] = self.S.angle(f"pa{src}{t}{frame}")
        return e[2][frame]

    def tkey(self, time):
        return int(round((float(time) - cm.T0) / 0.0005))

    def app(self, *, lon_coord, lat_coord, coord_type="sidereal", time_array=None, lst_array=None,
            **kw):
        if coord_type == "unprojected":
            return lst_array.copy(), np.zeros(len(time_array)) + self.lat
        src = [k for k, v in SRC.items() if v[:2] == (float(lon_coord), float(lat_coord))]
        self.S.prove(len(src) == 1, f"asked for the wrong coordinates {lon_coord} {lat_coord}")
        if not src:
            raise ValueError("coordinates")
        self.last = src[0]
        rows = [self.get(src[0], self.tkey(t)) for t in time_array]
        return (cm.stack(self.S, [r[0] for r in rows], np.float64),
                cm.stack(self.S, [r[1] for r in rows], np.float64))

    def frame_pa(self, *, time_array, app_ra, app_dec, ref_frame, **kw):
        out = []
        for i, t in enumerate(time_array):
            tk = self.tkey(t)
            hit = [s for (s, q), v in self.tab.items() if q == tk and str(v[0]) == str(app_ra[i])
                   and str(v[1]) == str(app_dec[i])]
            if self.last in hit:
                hit = [self.last]
            out.append(self.pa(hit[0], tk, ref_frame) if hit else 0.0)
        return cm.stack(self.S, out, np.float64)

    def patch(self):
        return mock.patch.multiple(ph, calc_app_coords=self.app, calc_frame_pos_angle=self.frame_pa)


BLTS = ((1, 3, 0), (3, 7, 1), (7, 1, 1))


class World:
    """what every baseline should look like: path independent"""

    def __init__(self, S, nf=1, consistent=True):
        self.S = S
        u = self.u = cm.sym(S, cm.keyed(BLTS, tuple(range(nf)), (-5,)))
        self.lst_t = {t: S.angle(f"lst{t}") for t in (0, 1)}
        u.lst_array = cm.stack(S, [self.lst_t[b[2]] for b in BLTS], np.float64)
        u.phase_center_app_ra = u.lst_array.copy()
        self.lat, self.lon = u.telescope.location.lat.rad, u.telescope.location.lon.rad
        self.nums = [int(a) for a in u.telescope.antenna_numbers]
        self.setpos(S.reals("pos", (4, 3)))
        u.telescope.antenna_positions = self.pos.copy()
        self.sky = Sky(S, u, self.lst_t)
        self.at = [None] * 3
        u.uvw_array = mat(S, [self.uvw(i) for i in range(3)])
        self.d0, self.f0, self.n0 = u.data_array.copy(), u.flag_array.copy(), u.nsample_array.copy()
        self.names = {}
        self.src = cm.Source(u)

    def setpos(self, pos):
        self.pos = pos

    def vec(self, i):
        a, b = self.nums.index(BLTS[i][0]), self.nums.index(BLTS[i][1])
        return [self.pos[b, k] - self.pos[a, k] for k in range(3)]

    def uvw(self, i):
        t = BLTS[i][2]
        if self.at[i] is None:
            return rot(0.0, self.lat, None, 0.0, self.lon, self.vec(i))
        r = self.sky.get(self.at[i], t)
        return rot(r[0], r[1], self.sky.pa(self.at[i], t, SRC[self.at[i]][2]), self.lst_t[t],
                   self.lon, self.vec(i))

    def check(self, msg, uvw=None, ref=None):
        S, u = self.S, self.u
        want = [self.uvw(i) for i in range(3)] if uvw is None else uvw
        S.same(u.uvw_array, mat(S, want), f"{msg}: uvw")
        ra, dec, pa = [], [], []
        for i in range(3):
            t = BLTS[i][2]
            s = self.at[i]
            if s is None:
                ra.append(self.lst_t[t])
                dec.append(self.lat)
                pa.append(0.0)
            else:
                r = self.sky.get(s, t)
                ra.append(r[0])
                dec.append(r[1])
                pa.append(self.sky.pa(s, t, SRC[s][2]))
        S.same(u.phase_center_app_ra, arr1(S, ra), f"{msg}: app_ra")
        S.same(u.phase_center_app_dec, arr1(S, dec), f"{msg}: app_dec")
        S.same(u.phase_center_frame_pa, arr1(S, pa), f"{msg}: frame_pa")
        w = [0.0 if self.at[i] is None else want[i][2] for i in range(3)]
        if ref is not None:
            w = [w[i] if self.at[i] is None else w[i] - ref[i] for i in range(3)]
        fac = np.exp((-2j * np.pi / C_LIGHT) * arr1(S, w)[:, None, None]
                     * u.freq_array[None, :, None])
        S.same(u.data_array, self.d0 * fac, f"{msg}: visibility phases")
        S.same(u.flag_array, self.f0, f"{msg}: flags")
        S.same(u.nsample_array, self.n0, f"{msg}: nsamples")
        for i in range(3):
            e = u.phase_center_catalog.get(int(u.phase_center_id_array[i]))
            S.prove(e is not None, f"{msg}: phase center id of entry {i} not in the catalog")
            if e is None:
                continue
            s = self.at[i]
            if s is None:
                S.prove(e["cat_type"] == "unprojected", f"{msg}: entry {i} should be unprojected")
            else:
                S.prove((e["cat_type"], e["cat_lon"], e["cat_lat"], e["cat_frame"]) ==
                        ("sidereal",) + SRC[s][:3] and e["cat_name"] == self.names.get(s, s),
                        f"{msg}: catalog entry of {i}: {e}")
        S.prove(u.Nphase == len(u.phase_center_catalog), f"{msg}: Nphase")
        S.prove(cm.blt_keys(u) == self.src.b and cm.chan_keys(u) == self.src.c, f"{msg}: axes")
        S.same(u.lst_array, arr1(S, [self.lst_t[b[2]] for b in BLTS]), f"{msg}: lst")

    def do_phase(self, s, mask, ap, name=None, **kw):
        lon, lat, frame, epoch = SRC[s]
        if name:
            self.names[s] = name
        m = None if mask is None else np.array(mask)
        args = dict(lon=lon, lat=lat, phase_frame=frame, epoch=epoch)
        args.update(kw)
        with self.sky.patch():
            self.u.phase(cat_name=self.names.get(s, s), use_ant_pos=ap, select_mask=m, **args)
        for i in range(3):
            if mask is None or mask[i]:
                self.at[i] = s

    def do_unproject(self, mask, ap):
        m = None if mask is None else np.array(mask)
        with self.sky.patch():
            self.u.unproject_phase(use_ant_pos=ap, select_mask=m)
        for i in range(3):
            if mask is None or mask[i]:
                self.at[i] = None


def _mask(S, nm, empty=False):
    m = [bool(S.pick(f"{nm}{i}", 2)) for i in range(3)]
    S.assume(empty or any(m))
    return m


START = ["none", "A", "A.", ".B", "AB"]


def _start(S, W, start):
    if start == "A":
        W.do_phase("A", None, True)
    elif start == "A.":
        W.do_phase("A", [True, False, True], True)
    elif start == ".B":
        W.do_phase("B", [False, True, False], False)
    elif start == "AB":
        W.do_phase("A", None, False)
        W.do_phase("B", [True, True, False], True)
    elif start == "AC":
        W.do_phase("C", None, True)
        W.do_phase("A", [False, True, False], True, cleanup_old_sources=False)


@case(P, bounds=B, start=START, ap=[True, False])
def phase(S, start, ap):
    """phasing any part of the data from any state"""
    W = World(S, 2 if start == "A" else 1)
    _start(S, W, start)
    W.check("before")
    form = S.pick("form", 3)
    if form == 0:
        W.do_phase("B", None, ap)
    elif form == 1:
        W.do_phase("C", None, ap, cleanup_old_sources=bool(S.pick("cl", 2)))
    else:
        W.do_phase("B", _mask(S, "m"), ap)
    W.check("after phase")


@case(P, bounds=B, start=START, ap=[True, False])
def unproject(S, start, ap):
    """unprojecting any part of the data from any state"""
    W = World(S, 2 if start == "A" else 1)
    _start(S, W, start)
    how = S.pick("how", 3)
    if how == 0:
        W.do_unproject(None, ap)
    elif how == 1:
        W.do_unproject(_mask(S, "m", True), ap)
    else:
        m = _mask(S, "m")
        with W.sky.patch():
            W.u.phase(cat_name="drift", cat_type="unprojected", phase_frame="altaz",
                      use_ant_pos=ap, select_mask=np.array(m))
        for i in range(3):
            if m[i]:
                W.at[i] = None
    W.check("after unprojecting")


@case(P, bounds=B, ap=[True, False])
def lookup(S, ap):
    """phasing by name to a catalog entry uses that entry's coordinates and frame"""
    W = World(S)
    s = S.choice("src", ["A", "C"])
    _start(S, W, "AC")
    m = [None, _mask(S, "m")][S.pick("mk", 2)]
    fr = S.choice("frame", ["icrs", "fk5", "altaz"])
    W.do_phase(s, m, ap, lookup_name=True, lon=0.0, lat=0.0, phase_frame=fr, epoch=2000.0)
    W.check(f"after phase to {s} by name")


@case(P, bounds=B)
def same_name(S):
    """a new position under a name in use leaves the data phased to the old one consistent"""
    W = World(S)
    W.do_phase("A", None, True, name="src")
    W.do_phase("B", _mask(S, "m"), True, name="src")
    W.check("two centers with one name")


@case(P, bounds=B, start=["none", "A", "A.", "AB"])
def antenna_positions(S, start):
    """new antenna positions: uvws and phases follow, unprojected phases stay"""
    W = World(S)
    _start(S, W, start)
    new = S.reals("new", (2, 3))
    which = S.choice("which", [(1, 7), (3, 12)])
    pos = W.pos.copy()
    for j, a in enumerate(which):
        for k in range(3):
            pos[W.nums.index(a), k] = new[j, k]
            S.assume(new[j, k] - W.pos[W.nums.index(a), k] != 0.0)
    delta = bool(S.pick("delta", 2))
    W.u.update_antenna_positions({a: new[j] for j, a in enumerate(which)}, delta_antpos=delta)
    W.setpos(pos)
    S.same(W.u.telescope.antenna_positions, pos, "antenna positions")
    W.check("new positions")


@case(P, bounds=B, start=["none", "A", "A.", "AB"])
def reset_uvws(S, start):
    """uvws recalculated from antenna positions: phases follow the change in w"""
    W = World(S)
    _start(S, W, start)
    bad = S.reals("bad", (3, 3))
    W.u.uvw_array = bad.copy()
    # data as phased with the given (different) w terms
    upd = bool(S.pick("upd", 2))
    old = W.u.data_array.copy()
    W.u.set_uvws_from_antenna_positions(update_vis=upd)
    want = [W.uvw(i) for i in range(3)]
    S.same(W.u.uvw_array, mat(S, want), "uvw")
    w = [want[i][2] - bad[i, 2] if W.at[i] is not None and upd else 0.0 for i in range(3)]
    fac = np.exp((-2j * np.pi / C_LIGHT) * arr1(S, w)[:, None, None]
                 * W.u.freq_array[None, :, None])
    S.same(W.u.data_array, old * fac, "visibility phases")


@case(P, bounds=B, frm=["none", "A"], to=["B", "unproject"])
def given_uvws(S, frm, to):
    """use_ant_pos=False: the present uvws (whatever they are) are rotated, phases follow"""
    W = World(S)
    _start(S, W, frm)
    bad = S.reals("bad", (3, 3))
    W.u.uvw_array = bad.copy()
    m = _mask(S, "m")
    old = W.u.data_array.copy()
    at0 = list(W.at)
    fixed = []
    for i in range(3):
        t, v = BLTS[i][2], [bad[i, k] for k in range(3)]
        if at0[i] is None:
            fixed.append(unrot(0.0, W.lat, None, 0.0, W.lon, v))
        else:
            r = W.sky.get("A", t)
            fixed.append(unrot(r[0], r[1], W.sky.pa("A", t, "icrs"), W.lst_t[t], W.lon, v))
    if to == "B":
        W.do_phase("B", m, False)
    else:
        W.do_unproject(m, False)
    W.vec = lambda i: fixed[i]
    want = [W.uvw(i) if m[i] else [bad[i, k] for k in range(3)] for i in range(3)]
    w1 = [0.0 if W.at[i] is None else want[i][2] for i in range(3)]
    w0 = [0.0 if at0[i] is None else bad[i, 2] for i in range(3)]
    S.same(W.u.uvw_array, mat(S, want), "uvw")
    fac = np.exp((-2j * np.pi / C_LIGHT) * arr1(S, [a - b for a, b in zip(w1, w0)])[:, None, None]
                 * W.u.freq_array[None, :, None])
    S.same(W.u.data_array, old * fac, "visibility phases")


@case(P, bounds=B)
def metadata_only(S):
    """without visibilities the coordinates change just the same"""
    W = World(S)
    u2 = W.u.copy(metadata_only=True)
    m = _mask(S, "m")
    with W.sky.patch():
        u2.phase(cat_name="A", lon=SRC["A"][0], lat=SRC["A"][1], select_mask=np.array(m))
    for i in range(3):
        if m[i]:
            W.at[i] = "A"
    S.same(u2.uvw_array, mat(S, [W.uvw(i) for i in range(3)]), "uvw")


@case(P, bounds="5 coordinates (any values), offsets and frame angles arbitrary")
def position_angle(S):
    """one position angle per (ra, dec, time), measured from south to north of the position,
    also next to the poles"""
    off = 0.01
    n = 3
    ra = [S.real(f"ra{i}", 0, 6.28) for i in range(n)]
    dec = [S.real(f"dec{i}", -1.57, 1.57) for i in range(n)]
    pat = S.choice("pat", [(0, 0, 0, 1, 1, 1), (0, 0, 1, 1, 0, 1), (0, 1, 0, 1, 0, 1),
                           (0, 1, 2, 0, 1, 2)])
    ras = [ra[0], ra[1], ra[pat[0] and 1]]
    ti = [cm.T0 + 0.5 * pat[3 + i] for i in range(3)]
    rai = [ra[pat[i]] for i in range(3)]
    deci = [dec[pat[(i + 1) % 3]] for i in range(3)]
    for i in range(n):
        for j in range(i):
            S.assume(abs(ra[i] - ra[j]) > 1e-3)
            S.assume(abs(abs(ra[i] - ra[j]) - np.pi) > 1e-3)
            S.assume(abs(dec[i] - dec[j]) > 1e-3)
            S.assume(abs(dec[i] + dec[j]) < np.pi - 0.05)
        S.assume((dec[i] + off > np.pi / 2 + 1e-6) | (dec[i] + off < np.pi / 2 - 1e-6))
        S.assume((dec[i] - off < -np.pi / 2 - 1e-6) | (dec[i] - off > -np.pi / 2 + 1e-6))
    seen = {}

    def sid(*, time_array, app_ra, app_dec, coord_frame, **kw):
        k = len(time_array) // 2
        S.prove(coord_frame == "fk5", "frame passed on")
        for i in range(k):
            seen[i] = (app_ra[i], app_dec[i], app_ra[k + i], app_dec[k + i], time_array[i])
        return app_ra, app_dec

    calls = []

    def pas(a, b, c, d):
        out = []
        for i in range(len(a)):
            out.append(S.real(f"pa{len(calls)}", -3.1, 3.1))
            calls.append((seen[i], out[-1]))
        return cm.stack(S, out, np.float64)

    with mock.patch.object(ph, "calc_sidereal_coords", sid), \
            mock.patch.object(ph, "erfa", mock.Mock(pas=pas)):
        got = ph.calc_frame_pos_angle(
            time_array=np.array(ti), app_ra=arr1(S, rai), app_dec=arr1(S, deci),
            telescope_loc=None, ref_frame="fk5", ref_epoch=2000.0, offset_pos=off)
    twopi = 2 * np.pi
    for i in range(3):
        over, under = bool(deci[i] + off > np.pi / 2), bool(deci[i] - off < -np.pi / 2)
        upd = np.pi - (deci[i] + off) if over else deci[i] + off
        dnd = -np.pi - (deci[i] - off) if under else deci[i] - off
        other = rai[i] + np.pi
        if bool(other >= twopi):
            other = other - twopi
        upr, dnr = (other if over else rai[i]), (other if under else rai[i])
        hit = 0
        for (r1, d1, r2, d2, t), v in calls:
            ok = [abs(r1 - dnr) < 1e-6, abs(d1 - dnd) < 1e-6, abs(r2 - upr) < 1e-6,
                  abs(d2 - upd) < 1e-6]
            if t == ti[i] and all(bool(o) for o in ok):
                hit += 1
                S.same(got[i], -v, "position angle")
        S.prove(hit == 1, f"position angle of entry {i} measured {hit} times")


@case(P, bounds="3 entries, every pattern of repeated times; transformed directions arbitrary",
      ctype=["sidereal", "sidereal_fk5", "ephem", "ephem_fk5", "unprojected", "driftscan"])
def app_coords(S, ctype):
    """each entry gets the apparent direction of its own time"""
    pat = S.choice("pat", [(0, 0, 0), (0, 1, 2), (2, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 0), (1, 2, 0)])
    T = [cm.T0 + 0.25 * k for k in range(3)]
    times = np.array([T[k] for k in pat])
    lst = S.reals("lst", 3, 0, 6.28)
    ra, dec = S.reals("ra", 3, 0, 6.28), S.reals("dec", 3, -1.5, 1.5)
    frame = "fk5" if ctype.endswith("fk5") else "icrs"
    base = ctype.split("_")[0]
    mid = {}

    def icrs(*, time_array, ra, dec, telescope_loc, **kw):
        k = [T.index(t) for t in time_array]
        r = np.broadcast_to(np.asarray(ra), (len(k),)) if np.ndim(ra) == 0 else ra
        if frame == "fk5":
            for i, j in enumerate(k):
                S.prove(abs(float(r[i]) - (10.0 + j)) < 1e-9, "frame transform result used in order")
        return (cm.stack(S, [ra_[j] for j in k], np.float64),
                cm.stack(S, [dec_[j] for j in k], np.float64))

    def sid(*, longitude, latitude, in_coord_frame, out_coord_frame, in_coord_epoch, time_array):
        S.prove(in_coord_frame == "fk5" and out_coord_frame == "icrs", "frames passed on")
        k = [T.index(t) for t in time_array]
        return np.array([10.0 + j for j in k]), np.array([20.0 + j for j in k])

    ra_, dec_ = ra, dec
    kw = {}
    if base == "ephem":
        kw = dict(coord_times=np.array(T), lon_coord=np.array([0.1, 0.2, 0.3]),
                  lat_coord=np.array([0.3, 0.2, 0.1]), coord_type="ephem", coord_frame=frame)
    elif base == "sidereal":
        kw = dict(lon_coord=0.1, lat_coord=0.2, coord_type="sidereal", coord_frame=frame)
    elif base == "unprojected":
        kw = dict(lon_coord=0.0, lat_coord=np.pi / 2, coord_type=base, coord_frame="altaz")
    else:
        kw = dict(lon_coord=0.0, lat_coord=np.pi / 2 - 0.2, coord_type=base, coord_frame="altaz")
    lsts = cm.stack(S, [lst[k] for k in pat], np.float64)
    loc = cm.telescope().location
    with mock.patch.multiple(ph, transform_icrs_to_app=icrs, transform_sidereal_coords=sid):
        gr, gd = ph.calc_app_coords(time_array=times, lst_array=lsts, telescope_loc=loc, **kw)
    if base in ("sidereal", "ephem"):
        S.same(gr, cm.stack(S, [ra[k] for k in pat], np.float64), "apparent ra")
        S.same(gd, cm.stack(S, [dec[k] for k in pat], np.float64), "apparent dec")
    elif base == "unprojected":
        S.same(gr, lsts, "zenith ra")
        S.same(gd, np.full(3, loc.lat.rad), "zenith dec")
    else:
        # due north of zenith: on the meridian, 0.2 rad north
        want = []
        for i in range(3):
            want.append(gd[i] - (loc.lat.rad + 0.2))
            d = gr[i] - lsts[i]
            S.prove((abs(d) < 1e-6) | (abs(abs(d) - 2 * np.pi) < 1e-6), "drift scan ra")
        S.same(arr1(S, want), np.zeros(3), "drift scan dec")
