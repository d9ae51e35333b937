"""Averaging in frequency."""
import warnings

import numpy as np
from symx.harness import case, fixture

from . import common as cm

P = "C10"
B = ("1-2 baseline-times, up to 6 channels in 1-3 spectral windows in any interleaving of windows given, 1-2 "
     "polarizations, n_chan_to_avg 1-4; visibilities, flags, positive sample counts, equalization coefficients symbolic")

# channel key (see common.chan: tens digit is the window)
CH = {
    "w4": (0, 1, 2, 3),
    "w5": (0, 1, 2, 3, 4),
    "w2w2": (0, 1, 10, 11),
    "w3w2": (0, 1, 2, 10, 11),
    "w1w3": (10, 0, 1, 2),
    "w2w1w2": (0, 1, 20, 10, 11),
}


def favg(u, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return u.frequency_average(*a, **k)


def groups(u, navg, ragged, respect):
    """list of (spw, [input channels]) in output order"""
    spw = [int(s) for s in u.flex_spw_id_array] if respect or u.Nspws == 1 else [0] * u.Nfreqs
    order = [int(s) for s in u.spw_array] if respect or u.Nspws == 1 else [0]
    out = []
    for s in order:
        idx = [i for i in range(u.Nfreqs) if spw[i] == s]
        for i in range(0, len(idx), navg):
            g = idx[i:i + navg]
            if len(g) == navg or ragged:
                out.append((s, g))
    return out


def expect(S, u, grp, summing, prop):
    d0, f0, n0 = u.data_array, u.flag_array, u.nsample_array
    nb, _, npol = d0.shape
    D = np.empty((nb, len(grp), npol), dtype=object)
    F, N = D.copy(), D.copy()
    for b in range(nb):
        for j, (_, g) in enumerate(grp):
            for p in range(npol):
                fl = [bool(f0[b, i, p]) for i in g]
                good = [i for i, x in zip(g, fl) if not x] or g
                F[b, j, p] = any(fl) if prop else all(fl)
                if summing:
                    D[b, j, p] = sum(d0[b, i, p] for i in good)
                elif len(good) == 1:
                    D[b, j, p] = d0[b, good[0], p]
                else:
                    D[b, j, p] = (sum(d0[b, i, p] * n0[b, i, p] for i in good) / sum(n0[b, i, p] for i in good))
                N[b, j, p] = sum(n0[b, i, p] for i in good) / len(g)
    return S._wrap(D, np.complex128), S._wrap(F, np.bool_), S._wrap(N, np.float64)


def check_meta(S, u, old, grp, msg):
    n = len(grp)
    S.prove(u.Nfreqs == n, f"{msg}: {u.Nfreqs} channels, expected {n}")
    S.same(u.freq_array, np.array([np.mean(old.freq_array[g]) for _, g in grp]), f"{msg}: frequencies")
    S.same(u.channel_width, np.array([np.sum(old.channel_width[g]) for _, g in grp]), f"{msg}: channel widths")
    S.prove([int(s) for s in u.flex_spw_id_array] == [s for s, _ in grp], f"{msg}: windows of channels")
    want = []
    for s, _ in grp:
        if s not in want:
            want.append(s)
    S.prove([int(s) for s in u.spw_array] == want and u.Nspws == len(want), f"{msg}: spw_array {u.spw_array}")
    if old.eq_coeffs is not None:
        e = np.stack([sum(old.eq_coeffs[:, i] for i in g) / len(g) for _, g in grp], axis=1)
        S.same(u.eq_coeffs, e, f"{msg}: eq_coeffs")
    for p in cm.BLT_META + ["time_array", "ant_1_array", "ant_2_array", "polarization_array"]:
        S.same(getattr(u, p), getattr(old, p), f"{msg}: {p}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        u.check()


def run(S, u, navg, ragged, respect, summing, prop, msg):
    old = u.copy()
    grp = groups(u, navg, ragged, respect)
    S.assume(len(grp) > 0)
    E = expect(S, u, grp, summing, prop)
    favg(u, navg, keep_ragged=ragged, respect_spws=respect, summing_correlator_mode=summing, propagate_flags=prop)
    check_meta(S, u, old, grp, msg)
    S.prove(u.data_array.shape == E[0].shape and u.flag_array.shape == E[0].shape
            and u.nsample_array.shape == E[0].shape, f"{msg}: shapes")
    S.same(u.flag_array, E[1], f"{msg}: flags")
    S.same(u.nsample_array, E[2], f"{msg}: nsamples")
    S.same(u.data_array, E[0], f"{msg}: visibilities")
    S.prove(u.data_array.dtype == old.data_array.dtype and u.nsample_array.dtype == old.nsample_array.dtype,
            f"{msg}: dtypes")


def setup(S, ch, nb=1, pols=(-5,), flags=True):
    u = cm.keyed(((1, 3, 0), (7, 3, 1))[:nb], CH[ch], pols)
    u.data_array = S.cplxs("d", u.data_array.shape)
    u.nsample_array = S.reals("n", u.data_array.shape, 0.1, 10)
    if flags:
        u.flag_array = S.bools("f", u.data_array.shape)
    return u


@case(P, bounds=B, ch=["w4", "w5", "w2w2", "w3w2", "w1w3", "w2w1w2"], navg=[2], ragged=[True, False])
@case(P, bounds=B, ch=["w4", "w2w2", "w3w2"], navg=[3], ragged=[True])
@case(P, bounds=B, ch=["w4", "w1w3"], navg=[3], ragged=[False])
@case(P, bounds=B, ch=["w5"], navg=[3], ragged=[True, False], tier="thorough")
def averages(S, ch, navg, ragged):
    """weighted averages of unflagged channels within each window"""
    u = setup(S, ch)
    mode = S.pick("mode", 3)
    run(S, u, navg, ragged, True, mode == 1, mode == 2, f"{ch} by {navg}")


@case(P, bounds=B, ch=["w4", "w2w2", "w3w2"], navg=[1, 4])
def other_counts(S, ch, navg):
    """averaging by one, or by more channels than a window has"""
    u = setup(S, ch)
    mode = S.pick("mode", 3)
    run(S, u, navg, bool(S.pick("ragged", 2)), True, mode == 1, mode == 2, f"{ch} by {navg}")


@case(P, bounds=B, ch=["w2w2", "w3w2", "w1w3"], navg=[2, 3, 4])
def across_windows(S, ch, navg):
    """windows are merged when they need not be respected"""
    u = setup(S, ch)
    run(S, u, navg, bool(S.pick("ragged", 2)), False, bool(S.pick("summing", 2)), False, f"{ch} by {navg}")


@case(P, bounds=B, shape=[(2, (-5,)), (1, (-5, -7))], ch=["w2w2"])
@case(P, bounds=B, shape=[(2, (-5,)), (1, (-5, -7))], ch=["w3w2"], tier="thorough")
@case(P, bounds=B, shape=[(2, (-5, -7))], ch=["w2w2"], tier="thorough")
def axes(S, shape, ch):
    """baseline-times and polarizations do not mix; flags differ between them"""
    u = setup(S, ch, *shape)
    run(S, u, 2, True, True, False, bool(S.pick("propagate", 2)), f"{shape}")


@case(P, bounds=B, ch=["w5", "w3w2", "w1w3"], navg=[2, 3], ragged=[True, False])
def metadata(S, ch, navg, ragged):
    """metadata-only objects, and equalization coefficients"""
    u = setup(S, ch, flags=False)
    respect = bool(S.pick("respect", 2))
    kind = S.pick("kind", 3)
    if kind != 1:
        u.eq_coeffs = S.reals("eq", (4, u.Nfreqs), 1, 10)
        u.eq_coeffs_convention = "multiply"
    if kind == 0:
        u = u.copy(metadata_only=True)
        grp = groups(u, navg, ragged, respect)
        S.assume(len(grp) > 0)
        old = u.copy()
        favg(u, navg, keep_ragged=ragged, respect_spws=respect)
        check_meta(S, u, old, grp, "metadata")
        S.prove(u.metadata_only, "metadata only")
    else:
        run(S, u, navg, ragged, respect, False, False, "with coefficients")


@case(P, bounds=B)
def half_precision(S):
    """half-precision sample counts stay half precision"""
    u = setup(S, "w3w2", flags=True)
    u.nsample_array = np.array([1.0, 2.0, 0.5, 3.0, 4.0], dtype=np.float16).reshape(u.nsample_array.shape)
    run(S, u, 2, True, True, False, False, "float16")
