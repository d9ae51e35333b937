"""Applying calibration solutions to visibilities."""
import numpy as np
from symx.harness import case

from pyuvdata import Telescope
from pyuvdata.utils import uvcalibrate

from . import common as cm
from .p_cal import table
from .p_flag import quiet

P = "C17"
B = ("up to 5 baseline-times on 3 antennas with autos, 3 times, 2 channels, 4 polarizations; all visibilities and flags and three solution flags "
     "symbolic; gains symbolic on one baseline, otherwise distinct fixed complex numbers with chosen zeros; delays symbolic")
BLTS = ((1, 3, 0), (7, 1, 0), (7, 7, 0), (7, 1, 1), (1, 3, 2))
FEED = {-5: (-5, -5), -6: (-6, -6), -7: (-5, -6), -8: (-6, -5)}
NUM = {1: 7, 3: 1, 7: 3, 12: 12}  # the calibration's numbers of the same antennas


def cal_tel(renumber):
    if not renumber:
        return cm.telescope()
    t = cm.telescope()
    o = [2, 0, 3, 1]
    pos = np.asarray(t.antenna_positions)
    return Telescope.new(name="tt", instrument="tt", location=t.location, x_orientation="east",
                         antenna_positions=pos[o], antenna_names=[cm.NAMES[i] for i in o],
                         antenna_numbers=[NUM[cm.ANTS[i]] for i in o], antenna_diameters=[14.0] * 4)


def mkcal(S, ants=(7, 1, 3), times=(0, 1, 2), freqs=(0, 1), jones=(-5, -6), renumber=False, zero=None, trange=False, flags=True,
          tag="c"):
    c = cm.cal(ants=ants, times=times, freqs=freqs, jones=jones, trange=trange)
    if renumber:
        c.telescope = cal_tel(True)
        c.ant_array = np.array([NUM[a] for a in ants])
    sh = c.flag_array.shape
    n = np.arange(c.gain_array.size).reshape(sh)
    g = (1.0 + 0.25 * n) * np.where(n % 2, 1.0, -1.0) + 1j * (0.5 + 0.125 * n * np.where(n % 3, 1.0, -1.0))
    if zero is not None:
        g[zero] = 0.0
    c.gain_array = g
    if flags is True:  # a few symbolic flags: the code branches on each
        fl = np.zeros(sh, dtype=bool)
        where = [(0, 0, 0, 0), (1 % sh[0], sh[1] - 1, 1 % sh[2], sh[3] - 1), (sh[0] - 1, 0, sh[2] - 1, 0)]
        b = S.bools(tag + "f", (len(where),))
        fl = fl | (b[0] & False)
        for i, w in enumerate(where):
            fl[w] = b[i]
        c.flag_array = fl
    c.quality_array = None
    return c


def expected(S, u, c, renumber, prop, flip, undo, data, flags, single=False, rng=False):
    """(data, flags) element by element"""
    (ants, fr, ts, js), vals, _ = table(c)
    out = {}
    back = {v: k for k, v in NUM.items()}
    ca = {back[a] if renumber else a: a for a in ants}
    for b, (a1, a2, t) in enumerate(BLTS[:u.Nblts] if not hasattr(u, "_keys") else u._keys):
        for k, f in enumerate(u.freq_array):
            F = [x for x in fr if abs(x[1] - float(f)) < 1.0][0]
            T = ts[0] if single else t
            for p, pol in enumerate(int(x) for x in u.polarization_array):
                d, fl = data[b, k, p], flags[b, k, p]
                j1, j2 = FEED[pol]
                if a1 not in ca or a2 not in ca:
                    out[b, k, p] = d, True
                    continue
                K1, K2 = (ca[a1], F, T, j1), (ca[a2], F, T, j2)
                g1, g2 = vals[("gain_array",) + K1], vals[("gain_array",) + K2]
                m = vals[("flag_array",) + K1] | vals[("flag_array",) + K2]
                g = np.conj(g1) * g2 if flip else g1 * np.conj(g2)
                mult = (c.gain_convention == "multiply") != undo
                new = d * g if mult else (d / g if not _zero(g) else None)
                if prop:
                    if _zero(g):
                        out[b, k, p] = d, True
                    else:
                        out[b, k, p] = np.where(m, d, new).item() if _sym(m) else (d if m else new), fl | m
                else:
                    out[b, k, p] = new, fl
    return out


def _sym(x):
    return not isinstance(x, (bool, np.bool_))


def _zero(g):
    return isinstance(g, (complex, float, np.number)) and abs(g) < 1e-8


def check(S, r, exp, msg):
    for i, (d, f) in exp.items():
        S.same(r.flag_array[i], f, f"{msg}: flag of {i}")
        if d is not None:
            S.same(r.data_array[i], d, f"{msg}: visibility of {i}")


def run(S, u, c, **kw):
    return quiet(uvcalibrate, u, c, **kw)


@case(P, bounds=B, conv=["divide", "multiply"], undo=[False, True], flip=[False, True])
def symbolic_gains(S, conv, undo, flip):
    """one cross and one auto baseline with symbolic gains"""
    u = cm.keyed(((1, 3, 0), (3, 1, 1)), (0,), (-5, -7))
    u.data_array = S.cplxs("d", u.data_array.shape)
    data, flags = u.data_array.copy(), u.flag_array.copy()
    u.flag_array[1, 0, 1] = True
    flags = u.flag_array.copy()
    c = cm.cal(ants=(3, 1), times=(0, 1), freqs=(0,), jones=(-6, -5))
    c.gain_array = S.cplxs("g", c.gain_array.shape, 10)
    c.quality_array = None
    c.gain_convention = conv
    for g in c.gain_array.reshape(-1):
        S.assume(g.real * g.real + g.imag * g.imag >= 0.01)
    (ants, fr, ts, js), vals, _ = table(c)
    run(S, u, c, prop_flags=False, undo=undo, flip_gain_conj=flip)
    mult = (conv == "multiply") != undo
    for b, (a1, a2, t) in enumerate(((1, 3, 0), (3, 1, 1))):
        for p, (j1, j2) in enumerate((FEED[-5], FEED[-7])):
            g1, g2 = vals["gain_array", a1, fr[0], t, j1], vals["gain_array", a2, fr[0], t, j2]
            g = np.conj(g1) * g2 if flip else g1 * np.conj(g2)
            d = data[b, 0, p]
            S.same(u.data_array[b, 0, p], d * g if mult else d / g, "calibrated")
    S.same(u.flag_array, flags, "flags")


@case(P, bounds=B, pf=[True, False], order=["same", "times", "freqs", "data", "renumber", "extra"])
def places(S, pf, order):
    """each visibility is corrected by the gains of its own antennas, feeds, time and channel"""
    uf = (1, 0) if order == "data" else (0, 1)
    u = cm.sym(S, cm.keyed(BLTS, uf, (-5, -7) if order != "extra" else (-8, -6)), ns=False)
    data, flags = u.data_array.copy(), u.flag_array.copy()
    kw = {"same": {}, "times": dict(times=(2, 0, 1)), "freqs": dict(freqs=(1, 0)), "data": {}, "renumber": dict(renumber=True),
          "extra": dict(times=(0, 3, 1, 2), freqs=(0, 1, 2), ants=(12, 7, 1, 3))}[order]
    zero = (0, 0, 0, 1) if pf and S.pick("zero", 2) else None
    c = mkcal(S, zero=zero, **kw)
    if S.pick("mult", 2):
        c.gain_convention = "multiply"
    undo = bool(S.pick("undo", 2))
    old = c.copy()
    inplace = bool(S.pick("inplace", 2))
    r = run(S, u, c, prop_flags=pf, undo=undo, inplace=inplace)
    r = u if inplace else r
    exp = expected(S, u, old, order == "renumber", pf, False, undo, data, flags)
    check(S, r, exp, "places")
    S.same(c.flag_array, old.flag_array, "solutions untouched")
    S.prove(c.Ntimes == old.Ntimes and c.Nfreqs == old.Nfreqs, "solutions untouched")
    if not inplace:
        S.same(u.data_array, data, "original untouched")
        S.same(u.flag_array, flags, "original untouched")


@case(P, bounds=B)
def missing(S):
    """visibilities of antennas without solutions are flagged and unchanged, or refused"""
    u = cm.sym(S, cm.keyed(BLTS, (0,), (-5, -7)), ns=False)
    data, flags = u.data_array.copy(), u.flag_array.copy()
    ants = S.choice("ants", [(7, 1), (3,), (12,)])
    c = mkcal(S, ants=ants, freqs=(0,))
    if S.pick("check", 2):
        S.prove(S.raises(lambda: run(S, u, c), ValueError) is not None, "missing antennas refused")
        S.same(u.data_array, data, "nothing done")
        return
    run(S, u, c, ant_check=False)
    check(S, u, expected(S, u, c, False, True, False, False, data, flags), "missing")


@case(P, bounds=B, kind=["array", "range"])
def one_time(S, kind):
    """a single solution applies to every time if it covers them or time_check is off"""
    u = cm.sym(S, cm.keyed(BLTS, (0,), (-5,)), ns=False)
    data, flags = u.data_array.copy(), u.flag_array.copy()
    t = S.choice("t", [0, 5])
    c = mkcal(S, times=(t,), freqs=(0,), trange=kind == "range")
    cover = kind == "range" and t == 0
    if kind == "range":
        c.time_range = np.array([[cm.T0 - 0.0001, cm.T0 + (0.0012 if cover else 0.0007)]])
        c.lst_range = None
        c.set_lsts_from_time_array()
    tc = bool(S.pick("check", 2))
    err = S.raises(lambda: run(S, u, c, time_check=tc), ValueError)
    S.prove((err is not None) == (tc and not cover), f"{err}")
    if err is None:
        check(S, u, expected(S, u, c, False, True, False, False, data, flags, single=True), "one time")


@case(P, bounds=B)
def ranges(S):
    """several time ranges: each visibility is corrected by the range that holds its time"""
    u = cm.sym(S, cm.keyed(BLTS, (0, 1), (-5,)), ns=False)
    data, flags = u.data_array.copy(), u.flag_array.copy()
    o = S.choice("order", [(0, 1, 2), (2, 0, 1)])
    c = mkcal(S, times=o, trange=True)
    run(S, u, c)
    check(S, u, expected(S, u, c, False, True, False, False, data, flags), "ranges")
    v = cm.keyed(BLTS + ((1, 3, 3),), (0, 1), (-5,))
    S.prove(S.raises(lambda: run(S, v, c), ValueError) is not None, "uncovered time refused")


@case(P, bounds=B, what=["time", "freq", "feed", "wide", "stokes", "fewer"])
def refuses(S, what):
    """solutions that do not cover the data are refused"""
    u = cm.sym(S, cm.keyed(BLTS, (0, 1), (1, 2) if what == "stokes" else (-5, -6)), ns=False)
    data = u.data_array.copy()
    kw = dict(time=dict(times=(0, 1, 3)), freq=dict(freqs=(0, 2)), feed=dict(jones=(-5,)), fewer=dict(times=(0, 1)))
    if what == "wide":
        c = cm.cal(wide=True, spws=(0,))
    else:
        c = mkcal(S, **kw.get(what, {}))
    S.prove(S.raises(lambda: run(S, u, c), ValueError, NotImplementedError) is not None, "refused")
    S.same(u.data_array, data, "nothing done")


@case(P, bounds=B, conv=["minus", "plus"])
def delays(S, conv):
    """delay solutions act as gains exp(-/+ 2 pi i nu tau)"""
    u = cm.keyed(((1, 3, 0), (7, 1, 1)), (1, 0), (-5, -7))
    u.data_array = S.cplxs("d", u.data_array.shape)
    data = u.data_array.copy()
    c = cm.cal(ants=(7, 1, 3), times=(1, 0), jones=(-5, -6), kind="delay", wide=True, spws=(0,))
    c.freq_range = np.array([[0.9e8, 1.2e8]])
    c.quality_array = None
    c.delay_array = S.reals("tau", c.delay_array.shape, -1e-7, 1e-7)
    dl = c.delay_array.copy()
    run(S, u, c, prop_flags=False, delay_convention=conv)
    sg = -1 if conv == "minus" else 1
    for b, (a1, a2, t) in enumerate(((1, 3, 0), (7, 1, 1))):
        for k, f in enumerate(float(x) for x in u.freq_array):
            for p, pol in enumerate((-5, -7)):
                j1, j2 = FEED[pol]
                t1 = dl[[7, 1, 3].index(a1), 0, [1, 0].index(t), [-5, -6].index(j1)]
                t2 = dl[[7, 1, 3].index(a2), 0, [1, 0].index(t), [-5, -6].index(j2)]
                g = np.exp(1j * (sg * 2 * np.pi * t1 * f)) * np.conj(np.exp(1j * (sg * 2 * np.pi * t2 * f)))
                S.same(u.data_array[b, k, p], data[b, k, p] / g, "delay")
    S.prove(c.cal_type == "delay", "solutions untouched")
    S.same(c.delay_array, dl, "solutions untouched")


@case(P, bounds=B, undo=[False, True])
def conventions(S, undo):
    """units and polarization conventions: sum and avg differ by a factor 2"""
    u = cm.keyed(((1, 3, 0),), (0,), (-5, -6))
    u.data_array = S.cplxs("d", u.data_array.shape)
    d = u.data_array.copy()
    c = cm.cal(ants=(3, 1), times=(0,), freqs=(0,))
    c.gain_array = np.ones(c.gain_array.shape, dtype=complex) * 2.0
    c.quality_array = None
    scale = S.choice("scale", [None, "Jy", "K str"])
    c.gain_scale = scale
    c.pol_convention = S.choice("calconv", [None, "sum", "avg"]) if scale else None
    u.vis_units = "Jy" if undo else "uncalib"
    u.pol_convention = S.choice("datconv", [None, "sum", "avg"])
    ck = S.choice("ckw", [None, "sum", "avg"])
    dk = S.choice("dkw", [None, "sum", "avg"])
    bad = undo and scale is not None and scale != "Jy"
    bad |= ck is not None and c.pol_convention is not None and ck != c.pol_convention
    bad |= (not undo) and u.pol_convention is not None
    bad |= undo and dk is not None and u.pol_convention is not None and dk != u.pol_convention
    cc = ck or c.pol_convention or dk or u.pol_convention
    dc = dk or (u.pol_convention if undo else None) or cc
    err = S.raises(lambda: run(S, u, c, undo=undo, uvc_pol_convention=ck, uvd_pol_convention=dk), ValueError)
    S.prove((err is not None) == bool(bad), f"refusal {err}")
    if err is not None:
        S.same(u.data_array, d, "nothing done")
        return
    fac = 4.0 if undo else 0.25
    if scale is not None and cc != dc:
        two = 2.0 if cc == "sum" else 0.5
        fac = fac * (1 / two if undo else two)
    S.same(u.data_array, d * fac, "scaled")
    S.prove(u.vis_units == ("uncalib" if undo else (scale or "uncalib")), f"units {u.vis_units}")
    if scale is not None:
        S.prove(u.pol_convention == (None if undo else dc), "convention")
