"""Conjugating baselines."""
import numpy as np
from symx.harness import case

from . import common as cm

P = "C05"
B = ("up to 4 baseline-times with any orientation (autos included), every polarization set up to 4, "
     "every subset of entries to conjugate; visibilities, flags, weights, uvw symbolic")
CONJ = {-5: -5, -6: -6, -7: -8, -8: -7, -1: -1, -2: -2, -3: -4, -4: -3, 1: 1, 2: 2, 3: 3, 4: 4}


def _expect(S, u, src, flip, msg):
    """entries in flip reversed, all others as they were, order unchanged"""
    n = len(src.b)
    got = cm.blt_keys(u)
    want = [(b, a, t) if i in flip else (a, b, t) for i, (a, b, t) in enumerate(src.b)]
    S.prove(got == want, f"{msg}: antennas {got}, expected {want}")
    S.prove(cm.pol_keys(u) == src.p and cm.chan_keys(u) == src.c, f"{msg}: other axes")
    perm = [src.pi[CONJ[p]] for p in src.p] if flip else None
    for i in range(n):
        if i in flip:
            S.same(u.uvw_array[i], -src.meta["uvw_array"][i], f"{msg}: uvw")
            S.same(u.data_array[i], np.conj(src.d[i][:, perm]), f"{msg}: conjugated visibilities")
            S.same(u.flag_array[i], src.f[i][:, perm], f"{msg}: conjugated flags")
            S.same(u.nsample_array[i], src.n[i][:, perm], f"{msg}: conjugated nsamples")
        else:
            S.same(u.uvw_array[i], src.meta["uvw_array"][i], f"{msg}: uvw")
            S.same(u.data_array[i], src.d[i], f"{msg}: other visibilities")
            S.same(u.flag_array[i], src.f[i], f"{msg}: other flags")
            S.same(u.nsample_array[i], src.n[i], f"{msg}: other nsamples")
    for nm in cm.BLT_META:
        if nm not in ("uvw_array", "baseline_array"):
            S.same(getattr(u, nm), src.meta[nm], f"{msg}: {nm}")
    S.prove(u.Nbls == len({k[:2] for k in got}), f"{msg}: Nbls")
    cm.check_layout(S, u, msg)


LAY = {
    "mix": [(1, 3, 0), (7, 1, 0), (3, 1, 1), (7, 7, 1)],
    "rect": [(1, 3, 0), (7, 1, 0), (1, 3, 1), (7, 1, 1)],
}


def _obj(S, which, pols, freqs=(0,)):
    u = cm.keyed(tuple(LAY[which]), tuple(freqs), tuple(pols))
    if S.pick("rect", 2):
        u.set_rectangularity()
    if S.pick("touch", 2):
        u.antpair2ind(1, 3)
        u.get_data(1, 3, int(pols[0]))
    return cm.sym(S, u)


PS = [(-5,), (-7, -8), (-8, -5, -7), (-5, -7, -8, -6), (-1, -2), (1, 4)]


@case(P, bounds=B, which=list(LAY), pols=PS)
def index(S, which, pols):
    u = _obj(S, which, pols)
    flip = S.subset("f", 4, 1)
    src = cm.Source(u)
    form = S.pick("form", 2)
    u.conjugate_bls(np.array(flip) if form else list(flip))
    _expect(S, u, src, flip, "index array")
    u.conjugate_bls(flip)
    _expect(S, u, src, [], "conjugated twice")


@case(P, bounds=B, which=list(LAY), conv=["ant1<ant2", "ant2<ant1"])
def by_number(S, which, conv):
    u = _obj(S, which, (-5, -7, -8), (0, 1))
    src = cm.Source(u)
    u.conjugate_bls(conv)
    flip = [i for i, (a, b, t) in enumerate(src.b) if (a > b if conv == "ant1<ant2" else b > a)]
    _expect(S, u, src, flip, conv)


@case(P, bounds=B + "; uvw and tolerance symbolic", conv=["u<0", "u>0", "v<0", "v>0"])
def by_uvw(S, conv):
    """uvw signs decide, with u, v, w priority; 0 <= tolerance"""
    u = cm.sym(S, cm.keyed(((1, 3, 0), (7, 1, 0)), (0,), (-7, -8)))
    tol = S.real("tol", 0, 10)
    uvw = S.reals("uvw", (2, 3), -50, 50)
    eps = 1e-6
    for x in uvw.flat if hasattr(uvw, "flat") else uvw:
        # away from the edges of the tolerance band
        ax = x
        S.assume(((ax > tol + eps) | (ax < tol - eps)))
        S.assume(((ax > -tol + eps) | (ax < -tol - eps)))
    u.uvw_array = uvw
    src = cm.Source(u)
    u.conjugate_bls(conv, use_enu=False, uvw_tol=tol)
    order = {"u": (0, 1, 2), "v": (1, 0, 2)}[conv[0]]
    flip = []
    for i in range(2):
        do = False
        for ax in order:
            v = src.meta["uvw_array"][i, ax]
            if bool(v > tol):
                do = conv[1] == "<"
                break
            if bool(v < -tol):
                do = conv[1] == ">"
                break
        if do:
            flip.append(i)
    _expect(S, u, src, flip, conv)


@case(P, bounds=B, conv=["u<0", "u>0", "v<0", "v>0"])
def by_enu(S, conv):
    """antenna positions decide when use_enu (the default), whatever the uvws are"""
    u = cm.sym(S, cm.keyed(((1, 3, 0), (7, 1, 0), (12, 3, 1)), (0,), (-5,)))
    uvw = S.reals("uvw", (3, 3), -50, 50)
    u.uvw_array = uvw
    src = cm.Source(u)
    u.conjugate_bls(conv)
    enu = u.telescope.get_enu_antpos()
    pos = {int(a): enu[i] for i, a in enumerate(u.telescope.antenna_numbers)}
    ax = "uv".index(conv[0])
    flip = []
    for i, (a, b, t) in enumerate(src.b):
        d = pos[b][ax] - pos[a][ax]
        assert abs(d) > 0.1
        if (d > 0) == (conv[1] == "<"):
            flip.append(i)
    _expect(S, u, src, flip, conv)


@case(P, bounds=B)
def refused(S):
    """a missing conjugate polarization or a bad index: error, nothing changed"""
    pols = S.choice("pols", [(-7,), (-8, -5), (-5,)])
    u = _obj(S, "mix", pols)
    src = cm.Source(u)
    conv = S.choice("conv", [[0], [3, 1], [4], [-1], [0, 7], "ant1>ant2", "ant1<ant2"])
    err = S.raises(lambda: u.conjugate_bls(conv), ValueError)
    bad = isinstance(conv, list) and (max(conv) > 3 or min(conv) < 0) or conv == "ant1>ant2"
    bad = bad or any(CONJ[p] not in pols for p in pols)
    S.prove((err is not None) == bad, f"{conv} on {pols}: {err}")
    if bad:
        _expect(S, u, src, [], "after a refused call")


@case(P, bounds=B)
def metadata(S):
    u = _obj(S, "mix", (-5,))
    src = cm.Source(u)
    v = u.copy(metadata_only=True)
    flip = S.subset("f", 4, 1)
    v.conjugate_bls(flip)
    want = [(b, a, t) if i in flip else (a, b, t) for i, (a, b, t) in enumerate(src.b)]
    S.prove(cm.blt_keys(v) == want, "metadata only")
    sg = np.array([[-1.0 if i in flip else 1.0] for i in range(4)])
    S.same(v.uvw_array, src.meta["uvw_array"] * sg, "metadata only: uvw")
    cm.check_layout(S, v, "metadata only")
