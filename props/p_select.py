"""UVData.select keeps exactly what was asked for."""
import numpy as np
from symx.harness import case

from . import common as cm

P = "C02"
B = ("4-6 baseline-times, 3 frequencies, 2-4 polarizations; every visibility, flag and weight "
     "symbolic; every subset of indices; time/lst/frequency criteria symbolic reals")

SKIP = ()


def _obj(S, layout="irr", pols=(-5, -6), **kw):
    u = cm.sym(S, cm.uvd(layout, 3, pols, **kw))
    return u, cm.snap(u)


def _verify(S, new, old, blt=None, freq=None, pol=None, layout=None):
    sel = {}
    if blt is not None:
        sel["Nblts"] = blt
    if freq is not None:
        sel["Nfreqs"] = freq
    if pol is not None:
        sel["Npols"] = pol
    nb = len(old["_time_array"][0])
    nf = len(old["_freq_array"][0])
    npol = len(old["_polarization_array"][0])
    full = {"Nblts": list(range(nb)), "Nfreqs": list(range(nf)), "Npols": list(range(npol))}
    full.update(sel)
    cm.check_subset(S, new, old, full, msg="selected object")
    S.prove(new.Nblts == len(full["Nblts"]), "Nblts")
    S.prove(new.Nfreqs == len(full["Nfreqs"]), "Nfreqs")
    S.prove(new.Npols == len(full["Npols"]), "Npols")
    t = [float(old["_time_array"][0][i]) for i in full["Nblts"]]
    b = [int(old["_baseline_array"][0][i]) for i in full["Nblts"]]
    S.prove(new.Ntimes == len(set(t)), "Ntimes")
    S.prove(new.Nbls == len(set(b)), "Nbls")
    a = {int(old["_ant_1_array"][0][i]) for i in full["Nblts"]} | {
        int(old["_ant_2_array"][0][i]) for i in full["Nblts"]}
    S.prove(new.Nants_data == len(a), "Nants_data")
    return a


def _which(S, u, old, expect, call):
    """call must select exactly blts where expect(i) holds, or refuse if none"""
    err = S.raises(call, ValueError)
    inds = [i for i in range(len(old["_time_array"][0])) if bool(expect(i))]
    if err is not None:
        S.prove(len(inds) == 0, f"refused although {len(inds)} blts match: {err}")
        return None
    S.prove(len(inds) > 0, "accepted although nothing matches")
    return inds


@case(P, bounds=B, layout=["rect_tb", "irr", "autos"])
def blt_inds(S, layout):
    u, old = _obj(S, layout)
    want = S.subset("b", u.Nblts, 1)
    order = S.choice("ord", ["asc", "desc", "dup"])
    arg = {"asc": want, "desc": want[::-1], "dup": want + want[:1]}[order]
    form = S.choice("form", [list, np.array])
    new = u.select(blt_inds=form(arg), inplace=False, run_check=False)
    _verify(S, new, old, blt=want)
    S.same(u.data_array, old["_data_array"][0], "original untouched")
    u.select(blt_inds=arg, run_check=False)
    S.same(u.data_array, new.data_array, "inplace agrees")


@case(P, bounds=B, nspws=[1, 2])
def freqs_pols(S, nspws):
    u, old = _obj(S, "pair", (-5, -6, -7, -8), nspws=nspws)
    f = S.subset("fc", 3, 1)
    how = S.choice("how", ["chan", "freq", "both"])
    fr = u.freq_array
    kw = {"chan": dict(freq_chans=f), "freq": dict(frequencies=[float(fr[i]) for i in f][::-1]),
          "both": dict(freq_chans=f[:1], frequencies=[float(fr[i]) for i in f[1:]] or [float(fr[f[0]])])}[how]
    p = S.subset("p", 4, 1)
    names = ["xx", "yy", "xy", "yx"]
    ph = S.choice("phow", ["num", "str", "none"])
    if ph == "num":
        kw["polarizations"] = [int(u.polarization_array[i]) for i in p][::-1]
    elif ph == "str":
        # x_orientation is east: x feed is e
        kw["polarizations"] = [names[i] if i % 2 else names[i].replace("x", "e").replace("y", "n")
                               for i in p]
    else:
        S.assume(len(p) == 4)
    u.select(run_check=False, **kw)
    _verify(S, u, old, freq=f, pol=p)
    if nspws > 1:
        ids = old["_flex_spw_id_array"][0]
        left = sorted({int(ids[i]) for i in f})
        S.prove(sorted(int(x) for x in u.spw_array) == left, "spw_array keeps the windows still in use")
        S.prove(u.Nspws == len(left), "Nspws")


@case(P, bounds=B, layout=["irr", "autos"])
def antennas(S, layout):
    u, old = _obj(S, layout)
    a1, a2 = old["_ant_1_array"][0], old["_ant_2_array"][0]
    ants = [cm.ANTS[i] for i in S.subset("a", 4, 1)]
    how = S.choice("how", ["nums", "names"])
    keep = S.choice("keep", [True, False])
    kw = dict(antenna_nums=ants) if how == "nums" else dict(
        antenna_names=[cm.NAMES[cm.ANTS.index(a)] for a in ants])
    present = set(int(x) for x in a1) | set(int(x) for x in a2)
    tel = cm.snap(u.telescope)
    err = S.raises(lambda: u.select(run_check=False, keep_all_metadata=keep, **kw), ValueError)
    ok = lambda i: a1[i] in ants and a2[i] in ants
    inds = [i for i in range(len(a1)) if bool(ok(i))]
    if err is not None:
        S.prove(not inds or not set(ants) <= present, f"refused valid antenna selection {err}")
        return
    S.prove(bool(inds) and set(ants) <= present, "accepted an impossible antenna selection")
    used = _verify(S, u, old, blt=inds)
    if not keep:
        ti = [i for i, a in enumerate(cm.ANTS) if a in used]
    else:
        ti = list(range(4))
    cm.check_subset(S, u.telescope, tel, {"Nants": ti}, msg="telescope")
    S.prove(u.telescope.Nants == len(ti), "telescope Nants")


@case(P, bounds=B, layout=["irr", "autos"], form=["pairs", "numbers", "pols"])
def baselines(S, layout, form):
    u, old = _obj(S, layout, (-5, -6, -7, -8))
    a1, a2 = old["_ant_1_array"][0], old["_ant_2_array"][0]
    pairs = []
    for n in range(S.choice("n", [1, 2])):
        if form == "numbers":
            i = S.pick(f"i{n}", u.Nblts)
            pairs.append((int(a1[i]), int(a2[i])))
        else:
            pairs.append((cm.ANTS[S.pick(f"x{n}", 3)], cm.ANTS[S.pick(f"y{n}", 3)]))
    pol = None
    if form == "pairs":
        arg = [tuple(p) for p in pairs]
        if len(arg) == 1:
            arg = arg[0]
    elif form == "numbers":
        arg = [int(u.antnums_to_baseline(*p)) for p in pairs]
    else:
        ps = [S.choice(f"p{n}", ["xx", "xy", "yx"]) for n in range(len(pairs))]
        arg = [(x, y, p) for (x, y), p in zip(pairs, ps)]
        pol = set()
    fwd = [[i for i in range(u.Nblts) if a1[i] == x and a2[i] == y] for x, y in pairs]
    rev = [[i for i in range(u.Nblts) if a1[i] == y and a2[i] == x] for x, y in pairs]
    err = S.raises(lambda: u.select(bls=arg, run_check=False), ValueError)
    hit = [f or r for f, r in zip(fwd, rev)]
    if err is not None:
        S.prove(not all(hit), f"refused existing baselines {err}")
        return
    S.prove(all(hit), "accepted a baseline with no data")
    inds = sorted({i for h in hit for i in h})
    pinds = None
    if pol is not None:
        names = ["xx", "yy", "xy", "yx"]
        pinds = sorted({names.index(p if f else p[::-1]) for f, p in zip(fwd, ps)})
    _verify(S, u, old, blt=inds, pol=pinds)


@case(P, bounds=B, layout=["irr"])
def time_range(S, layout):
    u, old = _obj(S, layout)
    t = old["_time_array"][0]
    lo = S.real("lo", cm.T0 - 1, cm.T0 + 1)
    hi = S.real("hi", cm.T0 - 1, cm.T0 + 1)
    inds = _which(S, u, old, lambda i: (t[i] >= lo) & (t[i] <= hi),
                  lambda: u.select(time_range=[lo, hi], run_check=False))
    if inds is not None:
        _verify(S, u, old, blt=inds)


@case(P, bounds=B)
def symbolic_times(S):
    """the object's own times are symbolic too"""
    u = cm.sym(S, cm.uvd("irr", 1, (-5,)))
    t = S.reals("t", u.Nblts, cm.T0, cm.T0 + 1)
    u.time_array = t
    lo = S.real("lo", cm.T0, cm.T0 + 1)
    hi = S.real("hi", cm.T0, cm.T0 + 1)
    S.assume(lo <= hi)
    old = cm.snap(u)
    err = S.raises(lambda: u.select(time_range=[lo, hi], run_check=False), ValueError)
    inds = [i for i in range(5) if bool((t[i] >= lo) & (t[i] <= hi))]
    S.prove((err is not None) == (len(inds) == 0), "refused exactly when nothing matches")
    if inds:
        _verify(S, u, old, blt=inds)


@case(P, bounds=B)
def lst_range(S):
    u, old = _obj(S, "irr")
    base = [0.1, 6.2, 3.0, 0.1, 2.0]
    u.lst_array = np.array(base)
    old = cm.snap(u)
    lo = S.real("lo", 0, 6.283)
    hi = S.real("hi", 0, 6.283)
    def ok(i):
        x = base[i]
        if hi < lo:
            return (x >= lo) | (x <= hi)
        return (x >= lo) & (x <= hi)
    inds = _which(S, u, old, ok, lambda: u.select(lst_range=[lo, hi], run_check=False))
    if inds is not None:
        _verify(S, u, old, blt=inds)


@case(P, bounds=B, kind=["times", "lsts"])
def time_list(S, kind):
    u, old = _obj(S, "irr")
    arr = old["_time_array"][0] if kind == "times" else old["_lst_array"][0]
    # exact values are present, values more than 1 s away from all are not; what
    # happens in between depends on the documented tolerance and is left open
    lo, hi = (1e-9, 1 / 86400) if kind == "times" else (1e-10, 2 * np.pi / 86400)
    k = S.choice("n", [1, 2])
    vals = [S.real(f"v{i}", float(np.min(arr)) - 0.01, float(np.max(arr)) + 0.01) for i in range(k)]
    near = lambda i, v: abs(arr[i] - v) <= lo
    for v in vals:
        for i in range(u.Nblts):
            d = abs(arr[i] - v)
            S.assume((d <= lo) | (d >= hi))
    err = S.raises(lambda: u.select(**{kind: list(vals)}, run_check=False), ValueError)
    every = [any(bool(near(i, v)) for i in range(5)) for v in vals]
    if err is not None:
        S.prove(not all(every), "refused although every value is present")
        return
    S.prove(all(every), "accepted a value that is not present")
    inds = [i for i in range(5) if any(bool(near(i, v)) for v in vals)]
    _verify(S, u, old, blt=inds)


@case(P, bounds=B)
def combined(S):
    """criteria on different things are intersected"""
    u, old = _obj(S, "irr", (-5, -6), ncat=2)
    a1, a2 = old["_ant_1_array"][0], old["_ant_2_array"][0]
    t = old["_time_array"][0]
    pc = old["_phase_center_id_array"][0]
    kw = {}
    conds = []
    if S.pick("use_b", 2):
        b = S.subset("b", 5, 1)
        kw["blt_inds"] = b
        conds.append(lambda i: i in b)
    if S.pick("use_a", 2):
        ants = S.choice("ants", [[1, 3], [1, 3, 7]])
        kw["antenna_nums"] = ants
        conds.append(lambda i: a1[i] in ants and a2[i] in ants)
    if S.pick("use_bl", 2):
        kw["bls"] = [(12, 7), (7, 1)]
        conds.append(lambda i: {int(a1[i]), int(a2[i])} in ({7, 12}, {1, 7}))
    if S.pick("use_t", 2):
        lo = S.real("lo", cm.T0 - 1, cm.T0 + 1)
        kw["time_range"] = [lo, cm.T0 + 2]
        conds.append(lambda i: t[i] >= lo)
    if S.pick("use_p", 2):
        k = S.pick("pc", 2)
        if S.pick("byname", 2):
            kw["catalog_names"] = f"zen{k}"
        else:
            kw["phase_center_ids"] = k
        conds.append(lambda i: pc[i] == k)
    if S.pick("use_f", 2):
        kw["freq_chans"] = [0, 2]
    S.assume(len(kw) > 0)
    inds = [i for i in range(5) if all(bool(c(i)) for c in conds)]
    err = S.raises(lambda: u.select(run_check=False, **kw), ValueError)
    if err is not None:
        S.prove(not inds, f"refused although blts match: {err}")
        return
    S.prove(len(inds) > 0, "accepted although nothing matches")
    _verify(S, u, old, blt=inds, freq=[0, 2] if "freq_chans" in kw else None)


@case(P, bounds=B, layout=["autos_u", "irr_u"])
def ant_str(S, layout):
    u, old = _obj(S, layout, (-5, -6))
    a1, a2 = old["_ant_1_array"][0], old["_ant_2_array"][0]
    kind = S.choice("k", ["auto", "cross", "1_3", "1", "all", "1_3,3", "(1,7)_3", "-1_3", "cross,-1_3"])
    pair = lambda i: {int(a1[i]), int(a2[i])}
    f = {
        "auto": lambda i: a1[i] == a2[i], "cross": lambda i: a1[i] != a2[i],
        "1_3": lambda i: pair(i) == {1, 3}, "1": lambda i: 1 in pair(i), "all": lambda i: True,
        "1_3,3": lambda i: 3 in pair(i), "(1,7)_3": lambda i: pair(i) in ({1, 3}, {3, 7}),
        "-1_3": lambda i: pair(i) != {1, 3},
        "cross,-1_3": lambda i: a1[i] != a2[i] and pair(i) != {1, 3},
    }[kind]
    inds = _which(S, u, old, f, lambda: u.select(ant_str=kind, run_check=False))
    if inds is not None:
        _verify(S, u, old, blt=inds)
