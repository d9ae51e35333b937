"""UVBeam: select, combine, normalize, convert to power, read frequencies and areas."""
import itertools

import numpy as np
from symx.harness import case, fixture

from pyuvdata import UVBeam

from .p_flag import quiet

P = "C18"
B = ("beams of up to 3 azimuths x 3 zenith angles or 4 HEALPix pixels, 3 frequencies, 2 feeds or 4 polarizations, phased arrays of "
     "2 elements; data, bandpass and couplings symbolic; basis vectors and per-frequency metadata distinct fixed numbers")
KINDS = ["efield", "power", "cross", "hpxe", "hpxp", "phased"]
FQ = ("receiver_temperature_array", "loss_array", "mismatch_array")
SPARS = 4


def az(i):
    return 0.1 + 0.2 * i


def za(i):
    return 0.05 + 0.1 * i


def fr(i):
    return 1.0e8 + 1.0e6 * i


def bvec(k, c, p):
    """basis vector component c of axis k at pixel p, of length below 1"""
    x = 0.1 + 0.13 * (p % 7)
    return (x, 0.35 + 0.03 * (p % 5))[c] if k == 0 else (-0.35 - 0.02 * (p % 3), x)[c]


def pix(kind, i, j=None):
    return (i,) if kind.startswith("hpx") else (i, j)


def num(key):
    return key[0] if len(key) == 1 else key[0] + 5 * key[1]


@fixture
def beam(kind, feeds, pols, freqs, a1, a2, px, opt):
    kw = dict(telescope_name="t", data_normalization="physical", freq_array=np.array([fr(f) for f in freqs]), x_orientation="east")
    e = kind in ("efield", "hpxe", "phased")
    if e:
        kw["feed_array"] = np.array(feeds)
    else:
        kw["polarization_array"] = np.array(pols)
    if kind.startswith("hpx"):
        kw.update(nside=1 if len(px) == 12 else 2, healpix_pixel_array=np.array(px))
    else:
        kw.update(axis1_array=np.array([az(i) for i in a1]), axis2_array=np.array([za(i) for i in a2]))
    if kind == "phased":
        kw.update(element_location_array=np.array([[0.0, 1.0], [2.0, 3.0]]))
    b = UVBeam.new(**kw)
    if e:
        bv = np.zeros(b.basis_vector_array.shape)
        for k, c in itertools.product(range(2), range(2)):
            if kind == "hpxe":
                bv[k, c] = [bvec(k, c, p) for p in px]
            else:
                bv[k, c] = [[bvec(k, c, i + 5 * j) for i in a1] for j in a2]
        b.basis_vector_array = bv
    if opt:
        for n, nm in enumerate(FQ):
            setattr(b, nm, np.array([10.0 * n + f + 0.5 for f in freqs]))
        b.s_parameters = np.array([[0.1 * i + 0.01 * f for f in freqs] for i in range(SPARS)])
    return b


def mk(S, kind, tag="", feeds=("x", "y"), pols=(-5, -6), freqs=(0, 1), a1=(0, 1), a2=(0, 1), px=(3, 7, 1), opt=False, sym=True,
       flip=False):
    if kind == "cross" and -7 not in pols:
        pols = tuple(-7 if p == -6 else p for p in pols)
    b = beam(kind, tuple(feeds), tuple(pols), tuple(freqs), tuple(a1), tuple(a2), tuple(px), opt)
    if sym:
        e = kind in ("efield", "hpxe", "phased")
        b.data_array = (S.cplxs if e or -7 in pols else S.reals)(tag + "d", b.data_array.shape)
        for i, p in enumerate(pols):
            if not e and -7 in pols and p != -7:  # the powers of single feeds are real and not negative
                b.data_array[:, i] = S.reals(f"{tag}a{i}_", b.data_array[:, i].shape, 0, 100) + 0j
        if kind == "phased":
            b.coupling_matrix = S.cplxs(tag + "c", b.coupling_matrix.shape)
    b.bandpass_array = np.array([2.0 + 0.5 * f for f in freqs])
    return b


def keys(b):
    e = b.beam_type == "efield"
    ps = [str(f) for f in b.feed_array] if e else [int(p) for p in b.polarization_array]
    fs = [round((float(f) - 1.0e8) / 1.0e6) for f in b.freq_array]
    if b.pixel_coordinate_system == "healpix":
        return ps, fs, [(int(p),) for p in b.pixel_array], None
    return (ps, fs, [round((float(x) - 0.1) / 0.2) for x in b.axis1_array], [round((float(x) - 0.05) / 0.1) for x in b.axis2_array])


def table(b):
    ps, fs, a1, a2 = K = keys(b)
    vals = {}
    loc = [((i,), k) for i, k in enumerate(a1)] if a2 is None else [
        ((j, i), (k, m)) for j, m in enumerate(a2) for i, k in enumerate(a1)]
    for v in range(b.Naxes_vec):
        for (p, Pk), (f, Fk), (ix, X) in itertools.product(enumerate(ps), enumerate(fs), loc):
            vals["data_array", v, Pk, Fk, X] = b.data_array[(v, p, f) + ix]
        if b.basis_vector_array is not None:
            for c in range(2):
                for ix, X in loc:
                    vals["basis_vector_array", v, c, X] = b.basis_vector_array[(v, c) + ix]
    for nm in ("bandpass_array",) + FQ:
        if getattr(b, nm) is not None:
            for f, Fk in enumerate(fs):
                vals[nm, Fk] = getattr(b, nm)[f]
    if b.s_parameters is not None:
        for (f, Fk), i in itertools.product(enumerate(fs), range(SPARS)):
            vals["s_parameters", i, Fk] = b.s_parameters[i, f]
    if b.antenna_type == "phased_array":
        for (m, n), (p, Pk), (q, Qk), (f, Fk) in itertools.product(itertools.product(range(2), range(2)), enumerate(ps),
                                                                  enumerate(ps), enumerate(fs)):
            vals["coupling_matrix", m, n, Pk, Qk, Fk] = b.coupling_matrix[m, n, p, q, f]
    return K, vals


def consistent(S, b, want, vals, msg, fill=False, order=True):
    K, got = table(b)
    for have, exp, what in zip(K, want, ("feeds/polarizations", "frequencies", "first axis", "second axis")):
        if order:
            S.prove(have == exp, f"{msg}: {what} {have} expected {exp}")
        else:
            S.prove(exp is None if have is None else sorted(have) == sorted(exp), f"{msg}: {what} {have} expected {exp}")
    S.prove({k[0] for k in got} == {k[0] for k in vals}, f"{msg}: arrays present")
    for k, v in got.items():
        if k in vals:
            S.same(v, vals[k], f"{msg}: {k[0]} of its place")
        else:
            S.prove(fill, f"{msg}: unexpected entry {k}")
            S.same(v, 0.0, f"{msg}: {k[0]} where nothing is known")
    e = b.beam_type == "efield"
    S.prove((b.Nfeeds if e else b.Npols) == len(K[0]) and b.Nfreqs == len(K[1]), f"{msg}: sizes")
    if K[3] is None:
        S.prove(b.Npixels == len(K[2]), f"{msg}: Npixels")
    else:
        S.prove((b.Naxes1, b.Naxes2) == (len(K[2]), len(K[3])), f"{msg}: Naxes")
    quiet(b.check)


# ---------------------------------------------------------------------------- select
def kw3(kind):
    """three entries along the selected axis, in an order that is not sorted"""
    return dict(feeds=("y", "x"), pols=(-6, -7, -5) if kind == "cross" else (-6, -5), freqs=(2, 0, 1), a1=(0, 1, 2), a2=(0, 1, 2),
                px=(7, 3, 1))


@case(P, bounds=B, kind=KINDS, what=["pol", "freq", "pixels", "freq+pol"])
def select(S, kind, what):
    """the selected feeds, polarizations, frequencies and pixels, in the original order"""
    full = kw3(kind)
    kw = dict(full)
    if what != "pixels":
        kw.update(a1=(0, 1), a2=(0,), px=(3, 7))
    if what == "pixels":
        kw["freqs"] = (1,)
        if kind != "phased":
            kw.update(feeds=("x",), pols=(-5,))
    b = mk(S, kind, opt=what == "freq", **kw)
    (ps, fs, a1, a2), vals = table(b)
    sel = {}
    wp, wf, w1, w2 = ps, fs, a1, a2
    e = kind in ("efield", "hpxe", "phased")
    if "pol" in what:
        pick = S.perm_subset("pol", list(range(len(ps)))) if hasattr(S, "perm_subset") else S.choice("pol", [
            list(x) for n in range(1, len(ps) + 1) for x in itertools.permutations(range(len(ps)), n)])
        names = [ps[i] for i in pick]
        how = S.pick("how", 2)
        if e:
            sel["feeds"] = [({"x": "e", "y": "n"}[f] if how else f.upper()) for f in names]
        else:
            sel["polarizations"] = [({-5: "ee", -6: "nn", -7: "en", -8: "ne"}[p] if how else p) for p in names]
        wp = [p for p in ps if p in names]
    if "freq" in what:
        pick = S.choice("freq", [list(x) for n in range(1, 4) for x in itertools.combinations((0, 2, 1), n)])
        how = S.pick("fhow", 3)
        if how == 0:
            sel["freq_chans"] = pick
            names = [fs[i] for i in pick]
        elif how == 1:
            sel["frequencies"] = [fr(fs[i]) for i in pick]
            names = [fs[i] for i in pick]
        else:
            sel["frequencies"] = [fr(fs[i]) for i in pick]
            sel["freq_chans"] = [1]
            names = [fs[i] for i in pick] + [fs[1]]
        wf = [f for f in fs if f in names]
    if what == "pixels":
        subs = [list(x) for n in range(1, 4) for x in itertools.combinations((2, 0, 1), n)]
        if a2 is None:
            pick = S.choice("pix", subs)
            sel["pixels"] = [a1[i][0] for i in pick]
            w1 = [p for p in a1 if p[0] in sel["pixels"]]
        else:
            which = S.pick("axes", 3)
            if which != 1:
                pick = S.choice("ax1", subs)
                sel["axis1_inds"] = pick
                w1 = [a1[i] for i in sorted(pick)]
            if which != 0:
                pick = S.choice("ax2", subs)
                sel["axis2_inds"] = pick
                w2 = [a2[i] for i in sorted(pick)]
    inplace = bool(S.pick("inplace", 2))
    old = b.copy()
    r = quiet(b.select, inplace=inplace, **sel)
    r = b if inplace else r
    consistent(S, r, (wp, wf, w1, w2), vals, f"select {what}")
    if not inplace:
        S.prove(b == old, "original untouched")


@case(P, bounds=B, kind=KINDS)
def select_refuses(S, kind):
    """absent values are refused"""
    b = mk(S, kind, sym=False, **dict(kw3(kind), a1=(0, 1), a2=(0,), px=(3, 7)))
    e = kind in ("efield", "hpxe", "phased")
    h = kind.startswith("hpx")
    bad = [dict(frequencies=[fr(5)]), dict(feeds=["r"]) if e else dict(polarizations=[-1]),
           dict(polarizations=[-5]) if e else dict(feeds=["x"]), dict(pixels=[2]), dict(axis1_inds=[0] if h else [2]),
           dict(axis2_inds=[0] if h else [-1])]
    kw = S.choice("bad", bad)
    S.prove(S.raises(lambda: quiet(b.select, **kw), ValueError) is not None, f"{kw} refused")


# ---------------------------------------------------------------------------- add
PAIRS = {
    "pol": [(dict(feeds=("y",), pols=(-6,)), dict(feeds=("x",), pols=(-5,))),
            (dict(feeds=("x",), pols=(-5,)), dict(feeds=("y",), pols=(-7, -6)))],
    "freq": [(dict(freqs=(1, 3)), dict(freqs=(2, 0))), (dict(freqs=(2,)), dict(freqs=(1, 0)))],
    "pixels": [(dict(a1=(0, 2), px=(7, 2)), dict(a1=(1,), px=(3, 1))), (dict(a1=(2,), px=(9,)), dict(a1=(0, 1), px=(5, 4)))],
    "zeniths": [(dict(a2=(0, 2), px=(7, 2)), dict(a2=(1,), px=(8,))), (dict(a2=(2,), px=(2,)), dict(a2=(0, 1), px=(5, 4)))],
    "freq+pol": [(dict(freqs=(1,), feeds=("x",), pols=(-5,)), dict(freqs=(2, 0), feeds=("y",), pols=(-6,))),
                 (dict(freqs=(1, 0), feeds=("x", "y"), pols=(-5, -6)), dict(freqs=(2,), feeds=("y",), pols=(-6,)))],
    "freq+pixels": [(dict(freqs=(1,), a1=(0, 1), px=(1, 2)), dict(freqs=(0, 1), a1=(2,), px=(3,))),
                    (dict(freqs=(0, 1), a1=(1, 2), px=(3,)), dict(freqs=(2,), a1=(0,), px=(1, 3)))],
    "pixels+zeniths": [(dict(a1=(0, 1), a2=(0,), px=(4,)), dict(a1=(2,), a2=(1,), px=(3,)))],
    "pol+order": [(dict(freqs=(0, 1), feeds=("x",), pols=(-5,), px=(1, 2)), dict(freqs=(1, 0), feeds=("y",), pols=(-6,), px=(2, 1)))],
    "freq+order": [(dict(freqs=(0, 1), feeds=("x", "y"), pols=(-5, -6), px=(1, 2)),
                    dict(freqs=(2,), feeds=("y", "x"), pols=(-6, -5), px=(2, 1)))],
    "pixels+order": [(dict(a1=(0, 1), feeds=("x", "y"), pols=(-5, -6), freqs=(0, 1), px=(1, 2)),
                      dict(a1=(2,), feeds=("y", "x"), pols=(-6, -5), freqs=(1, 0), px=(3,)))],
}
D = dict(feeds=("x", "y"), pols=(-5, -6), freqs=(0,), a1=(0, 1), a2=(0,), px=(1, 3))


def union(a, b):
    return a + [k for k in b if k not in a]


@case(P, bounds=B, kind=KINDS, what=list(PAIRS))
def add(S, kind, what):
    """the union of both beams' values, each at its own place"""
    k1, k2 = S.choice("pair", PAIRS[what])
    opt = S.pick("opt", 4) if what in ("freq", "freq+pol") and kind in ("power", "hpxe") else 0
    a = mk(S, kind, "x", opt=bool(opt & 1), **{**D, **k1})
    b = mk(S, kind, "y", opt=bool(opt & 2), **{**D, **k2})
    Ka, va = table(a)
    Kb, vb = table(b)
    if opt in (1, 2):
        va = {k: v for k, v in va.items() if k[0] not in FQ + ("s_parameters",)}
        vb = {k: v for k, v in vb.items() if k[0] not in FQ + ("s_parameters",)}
    over = all(set(x) & set(y) for x, y in zip(Ka, Kb) if x is not None)
    oa, ob = a.copy(), b.copy()
    how = S.choice("how", ["new", "iadd", "inplace"])
    res = []
    if over:
        S.prove(S.raises(lambda: quiet(a.__add__, b), ValueError) is not None, "overlap refused")
        S.prove(a == oa and b == ob, "operands untouched")
        return
    if how == "new":
        r = quiet(a.__add__, b)
    elif how == "iadd":
        r = quiet(a.__iadd__, b)
        S.prove(r is a, "in place")
    else:
        quiet(a.__add__, b, inplace=True)
        r = a
    want = tuple(None if x is None else union(x, y) for x, y in zip(Ka, Kb))
    consistent(S, r, want, {**va, **vb}, f"add {what}", fill=True, order=False)
    S.prove(b == ob, "second operand untouched")
    if how == "new":
        S.prove(a == oa, "first operand untouched")


@case(P, bounds=B, kind=["efield", "power", "hpxp", "phased"])
def add_refuses(S, kind):
    """overlapping or incompatible beams are not combined"""
    a = mk(S, kind, sym=False, **D)
    b = mk(S, kind, sym=False, **{**D, "freqs": (1,)})
    bad = ["overlap", "telescope_name", "feed_name", "model_version", "data_normalization", "type", "beam"]
    if kind == "phased":
        bad += ["delay_array", "element_location_array"]
    w = S.choice("what", bad)
    if w == "overlap":
        b = mk(S, kind, sym=False, **{**D, "freqs": (0, 1)})
    elif w == "data_normalization":
        b.data_normalization = "peak"
    elif w == "type":
        b = 3
    elif w == "beam":
        b = mk(S, "power" if kind != "power" else "efield", sym=False, **{**D, "freqs": (1,)})
    elif w in ("delay_array", "element_location_array"):
        setattr(b, w, getattr(b, w) + 1.0)
    else:
        setattr(b, w, "other")
    old = a.copy()
    S.prove(S.raises(lambda: quiet(a.__iadd__, b), ValueError) is not None, f"{w} refused")
    S.prove(a == old, "first operand untouched")


# ---------------------------------------------------------------------------- values
@case(P, bounds=B, kind=["power", "hpxp", "hpxe", "efield"])
def peak(S, kind):
    """every frequency is divided by its own peak, which goes into the bandpass"""
    one = dict(feeds=("x",), pols=(-5,), freqs=(0, 1), a1=(0, 1), a2=(0,), px=(1, 3))
    b = mk(S, kind, **one)
    if kind in ("hpxe", "efield"):
        b.data_array[1] = 0.25 - 0.125j
    for f in range(2):
        x = b.data_array[0, 0, f].reshape(-1)
        S.assume(x[0].real * x[0].real + x[0].imag * x[0].imag >= 0.01)
    bp = b.bandpass_array = S.reals("bp", (2,), 0.5, 4)
    bp = bp.copy()
    old = b.data_array.copy()
    quiet(b.peak_normalize)
    S.prove(b.data_normalization == "peak", "normalization")
    for f in range(2):
        o, n = old[:, :, f].reshape(-1), b.data_array[:, :, f].reshape(-1)
        m = np.max(np.abs(o))
        S.same(n * m, o, "scaled by the peak", tol=1e-9)
        S.same(b.bandpass_array[f], bp[f] * m, "bandpass carries the peak")


@case(P, bounds=B, kind=["efield", "hpxe"], feeds=[("x", "y"), ("y", "x"), ("y",), ("r", "l")], cross=[True, False], keep=[False, True])
def to_power(S, kind, feeds, cross, keep):
    """power of each pair of feeds from the electric field and its basis vectors"""
    b = mk(S, kind, feeds=feeds, freqs=(1, 0), a1=(0, 1), a2=(0,), px=(3, 1))
    (ps, fs, a1, a2), vals = table(b)
    inplace = bool(S.pick("inplace", 2))
    r = quiet(b.efield_to_power, calc_cross_pols=cross, keep_basis_vector=keep, inplace=inplace)
    r = b if inplace else r
    (qs, gs, b1, b2), got = table(r)
    nums = {"xx": -5, "yy": -6, "xy": -7, "yx": -8, "rr": -1, "ll": -2, "rl": -3, "lr": -4}
    pairs = [(p, q) for p in feeds for q in feeds if p == q or (cross and len(feeds) > 1)]
    S.prove(sorted(qs) == sorted(nums[p + q] for p, q in pairs), f"polarizations {qs}")
    S.prove((gs, b1, b2) == (fs, a1, a2), "other axes")
    S.prove(r.beam_type == "power" and r.Npols == len(pairs) and r.feed_array is None, "power beam")
    S.prove(r.Naxes_vec == (2 if keep else 1) and (r.basis_vector_array is not None) == keep, "basis vectors")
    loc = a1 if a2 is None else [(i, j) for i in a1 for j in a2]
    for (p, q), f, x in itertools.product(pairs, fs, loc):
        E = lambda k, s: vals["data_array", k, s, f, x]  # noqa
        bv = lambda k, c: vals["basis_vector_array", k, c, x]  # noqa
        if keep:
            for k in range(2):
                S.same(got["data_array", k, nums[p + q], f, x], E(k, p) * np.conj(E(k, q)), f"{p}{q} power of axis {k}")
        else:
            e = sum((E(0, p) * bv(0, c) + E(1, p) * bv(1, c)) * np.conj(E(0, q) * bv(0, c) + E(1, q) * bv(1, c)) for c in range(2))
            S.same(got["data_array", 0, nums[p + q], f, x], e, f"{p}{q} power", tol=1e-7)
    for k, v in got.items():
        if k[0] == "bandpass_array":
            S.same(v, vals[k], "bandpass")


@case(P, bounds=B, kind=["efield", "hpxe"], feeds=[("x", "y")])
def to_pstokes(S, kind, feeds):
    """the diagonal Mueller elements |tr(s J s J^H)| / 2 of every frequency and pixel"""
    b = mk(S, kind, feeds=feeds, freqs=(1, 0), a1=(0, 1), a2=(0,), px=(3, 1))
    n = S.pick("which", 4)
    d = np.array(b.data_array)  # one symbolic Jones matrix, the others fixed
    fix = (np.arange(d.size).reshape(d.shape) * 0.25 - 1.0) * (1 + 0.5j)
    ij = (n // 2, n % 2)
    e = fix.astype(complex) if kind else None
    full = b.data_array
    b.data_array = S.cplxs("e", full.shape) * 0.0 + fix
    ix = (slice(None), slice(None), ij[0]) + ((ij[1],) if kind == "hpxe" else (0, ij[1]))
    b.data_array[ix] = full[ix]
    (ps, fs, a1, a2), vals = table(b)
    inplace = bool(S.pick("inplace", 2))
    r = quiet(b.efield_to_pstokes, inplace=inplace)
    r = b if inplace else r
    (qs, gs, b1, b2), got = table(r)
    S.prove(qs == [1, 2, 3, 4] and (gs, b1, b2) == (fs, a1, a2), "axes")
    loc = a1 if a2 is None else [(i, j) for i in a1 for j in a2]
    for f, x in itertools.product(fs, loc):
        J = [[vals["data_array", k, s, f, x] for s in feeds] for k in range(2)]
        (a, b_), (c, d_) = J
        m = [(ab(a) + ab(b_) + ab(c) + ab(d_)) / 2, (ab(a) - ab(b_) - ab(c) + ab(d_)) / 2,
             ((a * np.conj(d_)).real + (b_ * np.conj(c)).real), ((a * np.conj(d_)).real - (b_ * np.conj(c)).real)]
        for s in range(4):
            g = got["data_array", 0, s + 1, f, x]
            S.prove(g >= 0, "not negative")
            S.same(g * g, m[s] * m[s], f"pseudo-Stokes {s}", tol=1e-6)


def ab(z):
    return z.real * z.real + z.imag * z.imag


@case(P, bounds=B, sq=[False, True])
def area(S, sq):
    """beam areas are sums over the pixels times the pixel area"""
    b = mk(S, "hpxp", pols=(1, -6, -5), freqs=(1, 0), px=(3, 7, 1))
    b.data_normalization = "peak"
    p = S.choice("pol", [("pI", 1), ("ee", -5), (-6, -6), ("yy", -6), (2, None), ("pV", None)])
    f = b.get_beam_sq_area if sq else b.get_beam_area
    if p[1] is None:
        S.prove(S.raises(lambda: f(pol=p[0]), ValueError) is not None, "absent polarization refused")
        return
    got = f(pol=p[0])
    i = [1, -6, -5].index(p[1])
    for k in range(2):
        x = b.data_array[0, i, k]
        S.same(got[k], sum(v * v if sq else v for v in x) * np.pi / 12.0, "area", tol=1e-9)
    b.data_normalization = "physical"
    S.prove(S.raises(lambda: f(pol=p[0]), ValueError) is not None, "not peak normalized: refused")


@case(P, bounds=B, kind=["efield", "power", "hpxe", "hpxp", "phased"], new=[False, True])
def nearest(S, kind, new):
    """frequencies that the beam has are read back exactly"""
    b = mk(S, kind, freqs=(2, 0, 1), a1=(0, 1), a2=(0,), px=tuple(range(12)), opt=new)
    (ps, fs, a1, a2), vals = table(b)
    pick = S.choice("freqs", [(0,), (2, 1), (1, 0, 2), None])
    eps = S.choice("off", [0.0, 0.4])
    if pick is None and new:
        return _skip(S)
    fa = None if pick is None else np.array([fr(f) + eps for f in pick])
    bw = b.bandpass_array.copy()
    out = quiet(b.interp, freq_array=fa, new_object=new, return_bandpass=not new,
                **(dict(return_coupling=not new) if kind == "phased" else {}))
    want = list(fs) if pick is None else list(pick)
    if new:
        vals = {k: v for k, v in vals.items() if k[0] not in FQ + ("s_parameters",)}
        consistent(S, out, (ps, want, a1, a2), vals, "interp")
        return
    idx = [fs.index(f) for f in want]
    S.same(out[0], b.data_array[:, :, idx], "data")
    S.prove(np.shape(out[2]) == (len(want),), f"bandpass shape {np.shape(out[2])}")
    S.same(out[2], bw[idx], "bandpass")
    if kind == "phased":
        S.same(out[3], b.coupling_matrix[..., idx], "couplings")


def _skip(S):
    S.prove(True, "nothing to do")


@case(P, bounds=B, kind=["efield", "power", "cross", "hpxp", "phased"], new=[False, True])
def linear(S, kind, new):
    """between two frequencies: the straight line between their values"""
    b = mk(S, kind, freqs=(3, 0, 1), a1=(0, 1), a2=(0,), px=tuple(range(12)), feeds=("x",), pols=(-5, -6)[:1 + (kind == "cross")])
    (ps, fs, a1, a2), vals = table(b)
    bp = b.bandpass_array.copy()
    pick = S.choice("freqs", [(0.5,), (2.5, 0, 0.25), (3, 1.5)])
    fa = np.array([fr(f) for f in pick])
    out = quiet(b.interp, freq_array=fa, freq_interp_kind="linear", new_object=new, return_bandpass=not new,
                **(dict(return_coupling=not new) if kind == "phased" else {}))
    if new:
        S.prove(out.Nfreqs == len(pick) and np.array_equal(out.freq_array, fa), "frequencies")
        quiet(out.check)
        out = [out.data_array, None, out.bandpass_array] + ([out.coupling_matrix] if kind == "phased" else [])
    for i, f in enumerate(pick):
        lo, hi = (0, 1) if f <= 1 else (1, 3)
        t = (f - lo) / (hi - lo)
        j, k = fs.index(lo), fs.index(hi)
        for x, y, what in [(out[0][:, :, i], (b.data_array[:, :, j], b.data_array[:, :, k]), "data"),
                           (out[2][i], (bp[j], bp[k]), "bandpass")] + (
                [(out[3][..., i], (b.coupling_matrix[..., j], b.coupling_matrix[..., k]), "couplings")] if kind == "phased" else []):
            S.same(x, y[0] * (1 - t) + y[1] * t, f"{what} on the line", tol=1e-7)


@case(P, bounds=B, kind=["efield", "power", "hpxp"])
def outside(S, kind):
    """frequencies outside of the range are not extrapolated"""
    b = mk(S, kind, sym=False, freqs=(1, 0, 2), a1=(0, 1), a2=(0,), px=tuple(range(12)))
    f = S.choice("f", [-0.5, 2.5])
    S.prove(S.raises(lambda: quiet(b.interp, freq_array=np.array([fr(1), fr(f)]), freq_interp_kind="linear"), ValueError) is not None,
            "refused")


@fixture
def sky(kind, pols, nf):
    """a beam on 4 x 4 points, all around in azimuth or not, with basis vectors along zenith angle and azimuth"""
    around = kind.endswith("360")
    kind = kind.replace("360", "")
    b = beam(kind, ("y", "x"), pols, tuple(range(nf)), (0, 1, 2, 3), (0, 1, 2, 3), (), False)
    if around:
        b.axis1_array = np.arange(4) * (np.pi / 2)
    if kind in ("efield", "phased"):
        bv = np.zeros(b.basis_vector_array.shape)
        bv[0, 0] = bv[1, 1] = 1.0
        b.basis_vector_array = bv
    b.bandpass_array = np.array([2.0 + 0.5 * f for f in range(nf)])
    return b


def mksky(S, kind, pols=(-6, -5), nf=1):
    b = sky(kind, pols, nf)
    k = kind.replace("360", "")
    b.data_array = (S.cplxs if k in ("efield", "phased", "cross") else S.reals)("d", b.data_array.shape)
    for i, p in enumerate(pols):
        if k == "cross" and p > -7:
            b.data_array[:, i] = S.reals(f"a{i}_", b.data_array[:, i].shape, 0, 100) + 0j
    return b


def azs(b, i):
    return float(b.axis1_array[i % 4]) + 2 * np.pi * (i // 4)


@case(P, bounds=B, kind=["efield", "power", "cross", "power360", "efield360", "phased"], grid=[False, True], new=[False, True])
def knots(S, kind, grid, new):
    """interpolation in direction gives back the samples at the sampled directions"""
    pols = (-6, -7, -5) if kind == "cross" else (-6, -5)
    b = mksky(S, kind, pols, 2)
    if new and not grid:
        return _skip(S)
    ai = (0, 2, 3) if new or not kind.endswith("360") else (-1, 2, 4)
    zi = (3, 0, 1) if not new else (0, 1, 3)
    fi = S.choice("freqs", [None, (1,), (1, 0)])
    sel = S.pick("pols", 3) if kind not in ("efield", "efield360", "phased") else 0
    names = [None, ["yy"], ["xx", "yy"]][sel]
    want = list(range(len(pols))) if sel == 0 else [pols.index(-6)] if sel == 1 else [pols.index(-5), pols.index(-6)]
    kw = dict(az_array=np.array([azs(b, i) for i in ai]), za_array=np.array([za(i) for i in zi]), az_za_grid=grid,
              freq_array=None if fi is None else np.array([fr(f) for f in fi]), new_object=new, polarizations=names,
              return_bandpass=not new, check_azza_domain=bool(S.pick("check", 2)))
    if S.pick("reuse", 2):
        quiet(b.interp, reuse_spline=True, **kw)
        kw["reuse_spline"] = True
    r = quiet(b.interp, **kw)
    fi = (0, 1) if fi is None else fi
    if new:
        quiet(r.check)
        S.prove(np.array_equal(r.axis1_array, kw["az_array"]) and np.array_equal(r.axis2_array, kw["za_array"]), "axes")
        if b.beam_type == "power":
            S.prove(list(r.polarization_array) == [pols[i] for i in want], "polarizations")
        data, bv, bp = r.data_array, r.basis_vector_array, r.bandpass_array
    else:
        data, bv, bp = r[0], r[1], r[2]
    S.same(bp, b.bandpass_array[list(fi)], "bandpass")
    for n, (z, a) in enumerate(itertools.product(zi, ai) if grid else zip(zi, ai)):
        ix = (n // 3, n % 3) if new else (n,)
        for q, p in enumerate(want):
            for m, f in enumerate(fi):
                for v in range(b.Naxes_vec):
                    S.same(data[(v, q, m) + ix], b.data_array[v, p, f, z, a % 4], "sample", tol=1e-7)
        if bv is not None:
            for v, c in itertools.product(range(2), range(2)):
                S.same(bv[(v, c) + ix], 1.0 if v == c else 0.0, "basis vectors")


@case(P, bounds=B, kind=["efield", "power"], what=["select", "power", "peak", "kind", "opts", "add", "pstokes"])
def reuse(S, kind, what):
    """splines kept for reuse belong to the data that they were made of"""
    if what in ("power", "pstokes") and kind == "power":
        return _skip(S)
    b = mksky(S, kind, (-6, -5), 1 if what != "kind" else 2)
    if what in ("pstokes", "peak"):  # one free sample
        d, b.data_array = b.data_array, (0.5 + 0.125 * np.arange(b.data_array.size).reshape(b.data_array.shape)) * (
            1 + 0.5j if kind == "efield" else 1) + 0 * b.data_array
        if what == "peak":
            b.data_array[0, 1, 0, 1, 2] = d[0, 1, 0, 1, 2]
    kw = dict(az_array=np.array([azs(b, i) for i in (2, 1)]), za_array=np.array([za(i) for i in (1, 3)]), reuse_spline=True)
    if what == "kind":
        kw.update(freq_array=np.array([fr(0.25)]), freq_interp_kind="linear")
    first = quiet(b.interp, **kw)[0]
    new = b
    inplace = bool(S.pick("inplace", 2))
    if what == "select":
        new = quiet(b.select, inplace=inplace, **(dict(feeds=["x"]) if kind == "efield" else dict(polarizations=[-5])))
    elif what in ("power", "pstokes"):
        new = quiet(b.efield_to_power if what == "power" else b.efield_to_pstokes, inplace=inplace)
    elif what == "peak":
        quiet(b.peak_normalize)
    elif what == "opts":
        kw["spline_opts"] = {"kx": 1, "ky": 1}
        kw["az_array"] = (kw["az_array"] + 0.05)
        old = b.copy()
        del old.saved_interp_functions
        quiet(b.interp, **dict(kw, spline_opts=None))
        S.same(quiet(b.interp, **kw)[0], quiet(old.interp, **kw)[0], "of the given options")
        return
    elif what == "kind":
        d = b.data_array.copy()
        b.freq_array = b.freq_array.copy()
        r = quiet(b.interp, **dict(kw, freq_interp_kind="nearest"))[0]
        for n, (z, a) in enumerate([(1, 2), (3, 1)]):
            S.same(r[:, :, 0, n], d[:, :, 0, z, a], "of the given kind", tol=1e-7)
            S.same(first[:, :, 0, n], d[:, :, 0, z, a] * 0.75 + d[:, :, 1, z, a] * 0.25, "of the given kind", tol=1e-7)
        return
    elif what == "add":
        c = b.copy()
        c = quiet(c.select, inplace=False, **(dict(feeds=["y"]) if kind == "efield" else dict(polarizations=[-6])))
        e = quiet(b.select, inplace=False, **(dict(feeds=["x"]) if kind == "efield" else dict(polarizations=[-5])))
        quiet(e.interp, **kw)
        new = quiet(e.__add__, c)
    new = b if new is None else new
    out = quiet(new.interp, **kw)[0]
    for n, (z, a) in enumerate([(1, 2), (3, 1)]):
        S.same(out[:, :, 0, n], new.data_array[:, :, 0, z, a], "samples of the changed beam", tol=1e-7)


@case(P, bounds=B, kind=["hpxe", "hpxp"])
def centers(S, kind):
    """interpolation of HEALPix beams gives back the pixels at their centers"""
    from astropy_healpix import HEALPix

    b = mk(S, kind, px=tuple(range(12)), freqs=(1, 0), pols=(-6, -5))
    if kind == "hpxe":
        b.basis_vector_array[:] = 0.0
        b.basis_vector_array[0, 0] = b.basis_vector_array[1, 1] = 1.0
    pick = S.choice("pixels", [[0, 5, 11], [7, 2]])
    lon, lat = HEALPix(nside=1, order="ring").healpix_to_lonlat(np.array(pick))
    fi = S.choice("freqs", [None, (0,), (0, 1)])
    names = S.choice("pols", [None, ["xx"], ["xx", "yy"]]) if kind == "hpxp" else None
    want = [0, 1] if names is None else [1] if len(names) == 1 else [1, 0]
    hp = S.pick("how", 2)
    where = dict(healpix_nside=1, healpix_inds=np.array(pick)) if hp else dict(
        az_array=np.array(lon.to_value("rad")), za_array=np.array(np.pi / 2 - lat.to_value("rad")))
    out = quiet(b.interp, freq_array=None if fi is None else np.array([fr(f) for f in fi]), polarizations=names, **where)[0]
    chans = (0, 1) if fi is None else [(1, 0).index(f) for f in fi]
    for n, p in enumerate(pick):
        for q, w in enumerate(want):
            for m, c in enumerate(chans):
                S.same(out[:, q, m, n], b.data_array[:, w, c, p], "pixel", tol=1e-7)


@case(P, bounds=B, kind=["efield360", "power360"])
def healpix(S, kind):
    """conversion to HEALPix takes the interpolated values at the centers of the pixels"""
    from astropy_healpix import HEALPix

    b = mksky(S, kind, (-6, -5), 2)
    b.axis2_array = np.array([0.0, 0.2, 0.4, 0.6])
    old = b.copy()
    lon, lat = HEALPix(nside=4, order="ring").healpix_to_lonlat(np.arange(192))
    az, za = np.array(lon.to_value("rad")), np.array(np.pi / 2 - lat.to_value("rad"))
    inplace = bool(S.pick("inplace", 2))
    r = quiet(b.to_healpix, nside=4, inplace=inplace)
    r = b if inplace else r
    S.prove(r.pixel_coordinate_system == "healpix" and (r.nside, r.ordering) == (4, "ring"), "HEALPix beam")
    px = [int(p) for p in r.pixel_array]
    res = HEALPix(nside=4).pixel_resolution.to_value("rad")
    turn = np.abs((az[:, None] - old.axis1_array + np.pi) % (2 * np.pi) - np.pi)
    near = np.any(np.abs(za[:, None] - old.axis2_array) < res, axis=1) & np.any(turn < res, axis=1)
    S.prove(all(p in px for p in np.nonzero(near)[0]), "every pixel with a sample")
    S.prove(len(set(px)) == len(px) == r.Npixels, "pixels once")
    some = [px[0], px[7], px[-1]]
    want = quiet(old.interp, az_array=az[some], za_array=za[some])[0]
    for n, p in enumerate(some):
        S.same(r.data_array[..., px.index(p)], want[..., n], "interpolated value", tol=1e-7)
    S.same(r.bandpass_array, old.bandpass_array, "bandpass")
    quiet(r.check)
    if not inplace:
        S.prove(b == old, "original untouched")
