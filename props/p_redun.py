"""Redundant baselines: finding, compressing and inflating."""
import warnings
from itertools import combinations

import numpy as np
from astropy.coordinates import EarthLocation
from symx.harness import case, fixture

from pyuvdata import Telescope, UVData
from pyuvdata.utils import redundancy as red

from . import common as cm

P = "C11"
B = ("3-4 locations or antennas, up to 6 baseline-times, 1 channel, 1-4 polarizations; separations, tolerance, "
     "visibilities, flags and positive sample counts symbolic; groups well separated for the grid algorithm")
ANTS = [1, 3, 7, 12]
LINE = {1: (0.0, 0.0, 0.0), 3: (14.0, 0.0, 0.0), 7: (28.0, 0.0, 0.0), 12: (56.0, 0.0, 0.0)}
# two parallel pairs plus one odd baseline; a purely north-south redundant pair; an up-down one
SQUARE = {1: (0.0, 0.0, 0.0), 3: (0.0, 20.0, 0.0), 7: (-15.0, 0.0, 0.0), 12: (-15.0, 20.0, 0.0)}


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


# ------------------------------------------------------------------ clustering
@case(P, bounds=B, n=[3, 4])
def clusters(S, n):
    """groups are the cliques of locations closer than tol; ambiguous ones are refused when strict"""
    x = [S.real(f"x{i}", -4, 4) for i in range(n)]
    tol = S.real("tol", 0.5, 3) if n == 3 else 1.0
    twod = n == 3 and S.pick("twod", 2)
    vec = np.zeros((n, 3), dtype=object)
    for i in range(n):
        vec[i] = [0.0, x[i], 0.0] if not twod else [float(i % 2), x[i], 0.0]
    vec = S._wrap(vec, np.float64)
    near = {}
    for i, j in combinations(range(n), 2):
        d2 = (x[i] - x[j]) * (x[i] - x[j]) + (float((i - j) % 2) if twod else 0.0)
        near[i, j] = near[j, i] = bool(d2 < tol * tol) if twod else bool(abs(x[i] - x[j]) < tol)
        near[i, i] = near[j, j] = True
    adj = [frozenset(j for j in range(n) if near[i, j]) for i in range(n)]
    ids = np.array([30, 10, 40, 20][:n])
    clean = all(adj[j] == adj[i] for i in range(n) for j in adj[i])
    want = sorted({tuple(sorted(int(ids[j]) for j in a)) for a in adj if all(adj[k] == a for k in a)})
    strict = bool(S.pick("strict", 2))
    out = []
    err = S.raises(lambda: out.append(red.find_clusters(location_ids=ids, location_vectors=vec, tol=tol,
                                                        strict=strict)), ValueError)
    S.prove((err is not None) == (strict and not clean), f"refused: {err}")
    if err is None:
        S.prove(sorted(tuple(g) for g in out[0]) == want, f"groups {out[0]}, expected {want}")


@case(P, bounds=B, nb=[2])
@case(P, bounds=B, nb=[1, 3], tier="thorough")
def blocks(S, nb):
    """the neighbour lists do not depend on how the work is split"""
    x = [S.real(f"x{i}", -4, 4) for i in range(4)]
    vec = np.zeros((4, 1), dtype=object)
    vec[:, 0] = x
    got = red._adj_list(S._wrap(vec, np.float64), 1.0, n_blocks=nb)
    for i in range(4):
        want = {j for j in range(4) if j == i or bool(abs(x[i] - x[j]) < 1.0)}
        S.prove({int(k) for k in got[i]} == want, f"neighbours of {i}")


CENTERS = [(10.0, 4.0, 0.0), (12.1, 4.0, 0.0), (10.0, 1.9, 0.3), (10.0, 4.0, -2.5)]


@case(P, bounds=B, alg=[True, False], ax=[0, 1, 2], conj=[0, 1])
def baselines(S, alg, ax, conj):
    """well-separated groups of baseline vectors, of either orientation, are recovered"""
    n = 3
    tol = 0.5
    which = [S.pick(f"c{i}", 3 if i else 2) + (ax == 2 and i == 2) for i in range(n)]
    flip = [S.pick(f"f{i}", 2) if conj else 0 for i in range(n)]
    vec = np.zeros((n, 3), dtype=object)
    offs = []
    for i in range(n):
        v = list(CENTERS[which[i]])
        o = S.real(f"o{i}", -tol / 8.1, tol / 8.1)
        v[ax] = v[ax] + o
        offs.append(v)
        vec[i] = [-c for c in v] if flip[i] else v
    vec = S._wrap(vec, np.float64)
    keep = vec.copy()
    bls = np.array([65538, 65540, 65537])
    out = quiet(red.get_baseline_redundancies, bls, vec, tol=tol, include_conjugates=bool(conj), use_grid_alg=alg)
    want = {}
    for i in range(n):
        want.setdefault(which[i], []).append(i)
    gps = [[int(b) for b in g] for g in out[0]]
    exp = sorted(sorted(int(bls[i]) for i in g) for g in want.values())
    S.prove(sorted(sorted(g) for g in gps) == exp, f"groups {gps} expected {exp}")
    S.same(vec, keep, "input vectors untouched")
    for g, c, ln in zip(gps, out[1], out[2]):
        idx = [list(bls).index(b) for b in g]
        mean = [sum(offs[i][k] for i in idx) / len(idx) for k in range(3)]
        S.same(c, cm.stack(S, mean, np.float64), "group center")
        S.prove(ln >= 0, "length sign")
        q = sum(m * m for m in mean)
        S.prove(ln * ln - q < 1e-9, "length")
        S.prove(q - ln * ln < 1e-9, "length")
    if conj:
        S.prove(sorted(int(b) for b in out[3]) == sorted(int(bls[i]) for i in range(n) if flip[i]),
                f"conjugated {out[3]}")


@case(P, bounds=B)
def orientation(S):
    """the sign convention: u>0, else v>0, else w>0, with zero meaning within tol"""
    tol = S.real("tol", 0.1, 1.0)
    u, v, w = (S.real(q, -3, 3) for q in "uvw")
    for q in (u, v, w):  # outside the rounding band of the tolerance
        S.assume(abs(abs(q) - tol) > 1e-3)
    vec = S._wrap(np.array([[u, v, w]], dtype=object), np.float64)
    out = quiet(red.get_baseline_redundancies, np.array([65538]), vec, tol=tol, include_conjugates=True,
                use_grid_alg=False)
    zero = [bool(abs(q) < tol) for q in (u, v, w)]
    neg = [bool(q < -tol) for q in (u, v, w)]
    want = neg[0] or (zero[0] and neg[1]) or (zero[0] and zero[1] and neg[2])
    S.prove((len(out[3]) == 1) == want, "orientation")
    s = -1.0 if want else 1.0
    S.same(out[1][0], cm.stack(S, [s * u, s * v, s * w], np.float64), "oriented vector")


@case(P, bounds=B, alg=[True, False], pos=["line", "square"], autos=[True, False])
def antennas(S, alg, pos, autos):
    """redundant groups of antenna pairs hold each pair once, oriented to the u>0 half"""
    lay = LINE if pos == "line" else SQUARE
    order = S.perm("ants", 3)
    ants = [ANTS[i] for i in order] + [12]
    eps = S.real("eps", -0.05, 0.05)
    xyz = np.zeros((4, 3), dtype=object)
    for i, a in enumerate(ants):
        xyz[i] = lay[a]
        if a == 7:
            xyz[i, 2] = eps
    xyz = S._wrap(xyz, np.float64)
    tol = 1.0
    gps, vecs, lens = quiet(red.get_antenna_redundancies, np.array(ants), xyz, tol=tol, include_autos=autos,
                            use_grid_alg=alg)
    want = {}
    for i, j in combinations(range(4), 2):
        a, b = ants[i], ants[j]
        d = [lay[b][k] - lay[a][k] for k in range(3)]
        neg = d[0] < -tol or (abs(d[0]) <= tol and d[1] < -tol)
        if neg:
            a, b, d = b, a, [-q for q in d]
        want.setdefault(tuple(d), []).append((a, b))
    if autos:
        want.setdefault((0.0, 0.0, 0.0), []).extend((a, a) for a in ants)
    got = []
    for g in gps:
        got.append(sorted(((int(b) - 2**16) // 2048, (int(b) - 2**16) % 2048) for b in g))
    S.prove(sorted(got) == sorted(sorted(g) for g in want.values()), f"groups {got}")
    for g, v in zip(got, vecs):
        d = next(k for k, x in want.items() if sorted(x) == g)
        S.prove(abs(v[0] - d[0]) < 1e-9, "center east")
        S.prove(abs(v[1] - d[1]) < 1e-9, "center north")
        S.prove(abs(v[2]) < 0.051, "center up")


# --------------------------------------------------------------------- objects
@fixture
def array(pos):
    loc = EarthLocation.from_geodetic(lat=-30.7, lon=21.4, height=1000.0)
    lay = LINE if pos == "line" else SQUARE
    t = Telescope.new(name="tt", instrument="tt", location=loc, antenna_numbers=ANTS,
                      antenna_names=[f"a{a}" for a in ANTS], x_orientation="east",
                      antenna_positions={a: np.array([0.0, 0.0, 0.0]) for a in ANTS})
    from pyuvdata import utils
    enu = np.array([lay[a] for a in ANTS])
    ecef = utils.ECEF_from_ENU(enu, center_loc=loc)
    t.antenna_positions = ecef - np.array([loc.x.value, loc.y.value, loc.z.value])
    return t


@fixture
def obj(pos, blts, pols, phased=False):
    times = np.array([cm.T0 + 0.0005 * t for _, _, t in blts])
    cat = None
    if phased:
        cat = {0: dict(cm.CAT["src"][0])}
    u = UVData.new(freq_array=np.array([1.0e8]), polarization_array=list(pols), telescope=array(pos),
                   antpairs=np.array([(a, b) for a, b, _ in blts]), times=times, do_blt_outer=False,
                   integration_time=np.array([10.0 + t for _, _, t in blts]), channel_width=np.array([1.0e6]),
                   empty=True, phase_center_catalog=cat)
    u.data_array = u.data_array.astype(np.complex128)
    u.nsample_array = u.nsample_array.astype(np.float64)
    u.scan_number_array = np.array([10 + t for _, _, t in blts])
    return u


def vec(pos, a, b):
    lay = LINE if pos == "line" else SQUARE
    return tuple(lay[b][k] - lay[a][k] for k in range(3))


def positive(v):
    return v[0] > 0.5 or (abs(v[0]) < 0.5 and (v[1] > 0.5 or (abs(v[1]) < 0.5 and v[2] > -0.5)))


def kind(pos, a, b):
    v = vec(pos, a, b)
    return v if positive(v) else tuple(-q for q in v)


CONJ = {-5: -5, -6: -6, -7: -8, -8: -7, 1: 1}
SETS = {  # pairs, times; orientation of each pair is symbolic
    "line2": ("line", [(1, 3), (3, 7)], [0]),
    "line3": ("line", [(1, 3), (3, 7), (1, 7)], [0]),
    "line2t": ("line", [(1, 3), (3, 7)], [0, 1]),
    "square": ("square", [(1, 3), (7, 12), (1, 12)], [0]),
    "square2": ("square", [(7, 1), (12, 3)], [0, 1]),
}


def _oriented(S, pairs, fix=False):
    return [(b, a) if (not fix and S.pick(f"flip{i}", 2)) else (a, b) for i, (a, b) in enumerate(pairs)]


@case(P, bounds=B, st=list(SETS), method=["average", "select"], pols=[(-5,)])
@case(P, bounds=B, st=["line2", "line3", "square"], method=["average", "select"], pols=[(-5, -7, -8)])
def compress(S, st, method, pols):
    """one baseline per group remains, with the (oriented, weighted) average or its own data"""
    pos, pairs, times = SETS[st]
    prs = _oriented(S, pairs)
    blts = tuple((*p, t) for t in times for p in prs)
    phased = st in ("line2t", "square") and bool(S.pick("phased", 2))
    u = obj(pos, blts, pols, phased)
    sh = u.data_array.shape
    u.data_array = S.cplxs("d", sh)
    u.nsample_array = S.reals("n", sh, 0.1, 10)
    if len(blts) * len(pols) <= 4:
        u.flag_array = S.bools("f", sh)
    old = u.copy()
    inplace = bool(S.pick("inplace", 2))
    alg = bool(S.pick("grid", 2))
    out = quiet(u.compress_by_redundancy, method=method, tol=1.0, inplace=inplace, use_grid_alg=alg)
    res = u if inplace else out
    if not inplace:
        S.same(u.data_array, old.data_array, "original untouched")
        S.prove(u.Nblts == old.Nblts, "original untouched")
    groups = {}
    for p in prs:
        groups.setdefault(kind(pos, *p), []).append(p)
    K = list(zip([int(a) for a in res.ant_1_array], [int(b) for b in res.ant_2_array],
                 [round((float(t) - cm.T0) / 0.0005) for t in res.time_array]))
    # one baseline of each group, at each time
    reps = {}
    for g, m in groups.items():
        r = {k[:2] for k in K if k[:2] in m}
        S.prove(len(r) == 1, f"group {g} has {r}")
        reps[g] = r.pop()
        want = min(m, key=lambda q: int(old.antnums_to_baseline(*q)))
        S.prove(reps[g] == want, f"kept {reps[g]}, not the first baseline {want}")
    S.prove(sorted(K) == sorted((*r, t) for r in reps.values() for t in times), f"kept {K}")
    for i, k in enumerate(K):
        j = blts.index(k)
        for p in ("uvw_array", "time_array", "lst_array", "integration_time", "scan_number_array",
                  "phase_center_app_ra"):
            S.same(getattr(res, p)[i], getattr(old, p)[j], f"{p} of {k}")
        if method == "select":
            S.same(res.data_array[i], old.data_array[j], f"visibilities of {k}")
            S.same(res.flag_array[i], old.flag_array[j], f"flags of {k}")
            S.same(res.nsample_array[i], old.nsample_array[j], f"nsamples of {k}")
            continue
        grp = groups[kind(pos, *k[:2])]
        rows = [blts.index((*p, k[2])) for p in grp]
        same = [positive(vec(pos, *p)) == positive(vec(pos, *k[:2])) for p in grp]
        every = all(bool(old.flag_array[r, 0, q]) for r in rows for q in range(len(pols)))
        for q, pl in enumerate(pols):
            src = [(r, q, False) if s else (r, pols.index(CONJ[pl]), True) for r, s in zip(rows, same)]
            fl = [bool(old.flag_array[r, 0, x]) for r, x, _ in src]
            S.same(res.flag_array[i, 0, q], all(fl), f"flag of {k} pol {pl}")
            good = [s for s, f in zip(src, fl) if not f]
            if not good:
                if not every:
                    continue  # not specified
                good = src
            num, den = 0.0, 0.0
            for r, x, c in good:
                d = old.data_array[r, 0, x]
                num = num + (np.conj(d) if c else d) * old.nsample_array[r, 0, x]
                den = den + old.nsample_array[r, 0, x]
            S.same(res.nsample_array[i, 0, q], den, f"nsample of {k} pol {pl}")
            S.same(res.data_array[i, 0, q], num / den, f"visibility of {k} pol {pl}")
    quiet(res.check)
    cm.check_layout(S, res, "compressed")


@case(P, bounds=B, pos=["line", "square"], pols=[(-5,), (-5, -7, -8)], phased=[False, True])
def inflate(S, pos, pols, phased):
    """every pair of a group present in the data gets its data, oriented to the u>0 half"""
    pairs = [(1, 3), (1, 7)] if pos == "line" else [(1, 3), (7, 1)]
    nt = 2 if len(pols) == 1 else 1
    prs = _oriented(S, pairs)
    blts = tuple((*p, t) for t in range(nt) for p in prs)
    u = obj(pos, blts, pols, phased)
    cm.sym(S, u)
    old = u.copy()
    order, minor = S.choice("order", [("time", "baseline"), ("baseline", "time")])
    quiet(u.inflate_by_redundancy, tol=1.0, blt_order=order, blt_minor_order=minor, use_grid_alg=bool(S.pick("grid", 2)))
    K = list(zip([int(a) for a in u.ant_1_array], [int(b) for b in u.ant_2_array],
                 [round((float(t) - cm.T0) / 0.0005) for t in u.time_array]))
    want = {}
    for i, (a, b, t) in enumerate(blts):
        for p, q in combinations(ANTS, 2):
            if kind(pos, p, q) == kind(pos, a, b):
                w = (p, q) if positive(vec(pos, p, q)) else (q, p)
                want[(*w, t)] = (i, not positive(vec(pos, a, b)))
    S.prove(sorted(K) == sorted(want), f"baseline-times {sorted(K)}, expected {sorted(want)}")
    S.prove(u.Nblts == len(K) and u.Nbls == len({k[:2] for k in K}) and u.Ntimes == nt, "counts")
    S.prove(u.Nants_data == len({x for k in K for x in k[:2]}), "Nants_data")
    for j, k in enumerate(K):
        i, cj = want[k]
        for p in ("time_array", "lst_array", "integration_time", "scan_number_array", "phase_center_app_ra",
                  "phase_center_app_dec", "phase_center_frame_pa", "phase_center_id_array"):
            S.same(getattr(u, p)[j], getattr(old, p)[i], f"{p} of {k}")
        S.same(u.uvw_array[j], -old.uvw_array[i] if cj else old.uvw_array[i], f"uvw of {k}", tol=1e-6)
        for q, pl in enumerate(pols):
            x = pols.index(CONJ[pl]) if cj else q
            d = old.data_array[i, 0, x]
            S.same(u.data_array[j, 0, q], np.conj(d) if cj else d, f"visibility of {k} pol {pl}")
            S.same(u.flag_array[j, 0, q], old.flag_array[i, 0, x], f"flag of {k} pol {pl}")
            S.same(u.nsample_array[j, 0, q], old.nsample_array[i, 0, x], f"nsample of {k} pol {pl}")
    ts = [k[2] for k in K]
    bl = [int(b) for b in u.baseline_array]
    seq = list(zip(ts, bl)) if order == "time" else list(zip(bl, ts))
    S.prove(seq == sorted(seq), "order")
    cm.check_layout(S, u, "inflated")


@case(P, bounds=B, pos=["line", "square"])
def object_groups(S, pos):
    """get_redundancies of an object, from its baselines or its antennas"""
    pairs = [(1, 3), (3, 7), (1, 7), (7, 12)] if pos == "line" else [(1, 3), (7, 12), (7, 1), (1, 12)]
    prs = _oriented(S, pairs)
    phased = bool(S.pick("phased", 2))
    blts = tuple((*p, t) for t in range(2) for p in prs)
    if S.pick("ragged", 2):
        blts = blts[:-1]
    u = obj(pos, blts, (-5,), phased)
    alg = bool(S.pick("grid", 2))
    gps, _, _, cj = quiet(u.get_redundancies, tol=1.0, include_conjugates=True, use_grid_alg=alg)
    groups = {}
    for p in prs:
        groups.setdefault(kind(pos, *p), []).append(p)
    nums = {p: int(u.antnums_to_baseline(*p)) for p in prs}
    S.prove(sorted(sorted(int(b) for b in g) for g in gps)
            == sorted(sorted(nums[p] for p in m) for m in groups.values()), f"groups {gps}")
    # conjugation relative within each group (the sign convention itself depends on the projection)
    for g in gps:
        m = [p for p in prs if nums[p] in [int(b) for b in g]]
        for p in m[1:]:
            S.prove((nums[p] in cj) ^ (nums[m[0]] in cj) ^ (vec(pos, *p) == vec(pos, *m[0])),
                    f"relative orientation of {p} and {m[0]}")
    autos = bool(S.pick("autos", 2))
    conj = bool(S.pick("conj", 2))
    gps, _, _ = quiet(u.get_redundancies, tol=1.0, use_antpos=True, include_autos=autos, conjugate_bls=conj,
                      use_grid_alg=alg)
    want = {}
    for p, q in combinations(ANTS, 2):
        w = (p, q) if positive(vec(pos, p, q)) else (q, p)
        want.setdefault(kind(pos, p, q), []).append(int(u.antnums_to_baseline(*w)))
    exp = sorted(sorted(x) for x in want.values())
    if autos:
        exp = sorted(exp + [sorted(int(u.antnums_to_baseline(a, a)) for a in ANTS)])
    S.prove(sorted(sorted(int(b) for b in g) for g in gps) == exp, f"groups from antennas {gps}")
    if conj:
        S.prove(all(positive(vec(pos, int(a), int(b))) for a, b in zip(u.ant_1_array, u.ant_2_array)),
                "conjugated to u>0")
