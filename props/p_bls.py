"""Baseline numbering."""
import numpy as np
from symx.harness import case

from pyuvdata import utils

P = "C01"
B = "1 or 2 antenna pairs per call; antenna numbers over the whole accepted range 0..2^31-1"


def _tobl(a1, a2, n, **kw):
    return utils.antnums_to_baseline(a1, a2, Nants_telescope=n, **kw)


@case(P, bounds=B, nants=[3, 2048, 2049, 4000], n=[1, 2], attempt256=[False, True])
def roundtrip(S, nants, n, attempt256):
    a1 = S.ints("a1", n, 0, 2**31 - 1)
    a2 = S.ints("a2", n, 0, 2**31 - 1)
    bl = _tobl(a1, a2, nants, attempt256=attempt256)
    b1, b2 = utils.baseline_to_antnums(bl, Nants_telescope=nants)
    S.same(b1, a1, "first antenna survives numbering")
    S.same(b2, a2, "second antenna survives numbering")
    if n == 2:
        same_pair = (a1[0] == a1[1]) & (a2[0] == a2[1])
        S.prove((bl[0] == bl[1]) == same_pair, "equal numbers exactly for equal pairs")


@case(P, bounds=B, attempt256=[False, True])
def roundtrip_scalar(S, attempt256):
    a1 = S.int("a1", 0, 2**31 - 1)
    a2 = S.int("a2", 0, 2**31 - 1)
    bl = _tobl(a1, a2, 350, attempt256=attempt256)
    b1, b2 = utils.baseline_to_antnums(bl, Nants_telescope=350)
    S.same(b1, a1, "first antenna")
    S.same(b2, a2, "second antenna")
    fl = utils.bls.baseline_index_flip(bl, Nants_telescope=350)
    c1, c2 = utils.baseline_to_antnums(fl, Nants_telescope=350)
    S.same(c1, a2, "flipped baseline swaps antennas (first)")
    S.same(c2, a1, "flipped baseline swaps antennas (second)")


@case(P, bounds="one pair of 1-based antenna numbers, 1 <= ant1 <= ant2 <= 2047")
def miriad_roundtrip(S):
    a1 = S.int("a1", 1, 2047)
    a2 = S.int("a2", 1, 2047)
    S.assume(a1 <= a2)
    bl = _tobl(a1, a2, 128, use_miriad_convention=True)
    b1, b2 = utils.baseline_to_antnums(bl, Nants_telescope=128)
    S.same(b1, a1, "first antenna, miriad convention")
    S.same(b2, a2, "second antenna, miriad convention")
    exp256 = 256 * a1 + a2
    exp2048 = 2048 * a1 + a2 + 65536
    S.prove(((a2 > 255) & (bl == exp2048)) | ((a2 <= 255) & (bl == exp256)),
            "miriad numbering convention")


@case(P, bounds="baseline numbers over the whole accepted range, 1 or 2 per call", n=[1, 2])
def decode_then_encode(S, n):
    """numbers produced by one scheme decode to pairs that encode to the same numbers"""
    bl = S.ints("bl", n, 65536, 2**62)
    small = bl < 65536 + 2**22
    S.assume(small.all() | (~small).all())
    b1, b2 = utils.baseline_to_antnums(bl, Nants_telescope=10)
    for x in (b1, b2):
        S.prove((x >= 0) & (x < 2**31), "decoded antenna in range")
    big = bool(~small[0])
    back = _tobl(b1, b2, 4000 if big else 10)
    S.same(back, bl, "encode after decode")


@case(P, bounds="antenna and baseline numbers in a window around every limit")
def rejects(S):
    a1 = S.int("a1", -5, 2**31 + 5)
    a2 = S.int("a2", -5, 2**31 + 5)
    nt = S.choice("nants", [3, 2**31, 2**31 + 1])
    err = S.raises(lambda: _tobl(a1, a2, nt), ValueError)
    legal = (a1 >= 0) & (a1 < 2**31) & (a2 >= 0) & (a2 < 2**31)
    if nt > 2**31:
        S.prove(err is not None, "too many antennas is refused")
    elif err is None:
        S.prove(legal, "illegal antenna numbers are refused")
    else:
        S.prove(~legal if S.symbolic else not legal, "legal antenna numbers are accepted")
    bl = S.int("bl", -5, 2**62 + 2**31 * 5)
    limit = 2147483648 * 2147483647 + 2147483647 + 2**16 + 2**22
    err = S.raises(lambda: utils.baseline_to_antnums(bl, Nants_telescope=3), ValueError)
    if err is None:
        S.prove(bl >= 0, "negative baseline numbers are refused")
    else:
        S.prove((bl < 0) | (bl > limit), "every number an antenna pair can produce is accepted")
