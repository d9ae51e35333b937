"""Coordinate conversions."""
import numpy as np
from symx.harness import case

from pyuvdata import utils
from pyuvdata.utils import phasing as ph

from . import common as cm
from .p_phase import arr1, mat

P = "C08"
B = ("1-2 points; latitude, longitude, altitude and all positions symbolic; Earth ellipsoid")
A_, B_ = 6378137.0, 6356752.31424518


def _n(S, lat):
    return A_ / np.sqrt(1.0 - (1.0 - (B_ / A_) ** 2) * np.sin(lat) ** 2)


@case(P, bounds=B, n=[1, 2])
def xyz(S, n):
    """a point at height h above the ellipsoid, along the normal at that latitude"""
    lat = [S.angle(f"lat{i}", -1.57, 1.57) for i in range(n)]
    lon = [S.angle(f"lon{i}") for i in range(n)]
    alt = [S.real(f"alt{i}", -10000, 10000) for i in range(n)]
    if n == 1 and S.pick("scalar", 2):
        got = utils.XYZ_from_LatLonAlt(lat[0], lon[0], alt[0])
        S.prove(got.shape == (3,), "shape for one point")
        got = got.reshape(1, 3)
    else:
        got = utils.XYZ_from_LatLonAlt(arr1(S, lat), arr1(S, lon), arr1(S, alt))
        if n == 1:
            got = got.reshape(1, 3)
    S.prove(got.shape == (n, 3), "shape")
    for i in range(n):
        x, y, z = [got[i, k] / A_ for k in range(3)]
        cl, sl, co, so = np.cos(lat[i]), np.sin(lat[i]), np.cos(lon[i]), np.sin(lon[i])
        h = alt[i] / A_
        q = (B_ / A_) ** 2
        S.same(x * so - y * co, 0.0, "longitude", tol=1e-9)
        p = x * co + y * so
        S.same((p - h * cl) * q * sl, (z - h * sl) * cl, "normal", tol=1e-9)
        nn = _n(S, lat[i]) / A_
        S.same(p - h * cl, nn * cl, "distance from the axis", tol=1e-9)


@case(P, bounds=B, form=["one", "many"], how=["latlonalt", "loc"])
def enu_roundtrip(S, form, how):
    """ENU_from_ECEF and ECEF_from_ENU are inverse, rigid, and centred on the location"""
    n = 1 if form == "one" else 2
    if how == "loc":
        loc = cm.telescope().location
        kw = dict(center_loc=loc)
        lat, lon, alt = loc.lat.rad, loc.lon.rad, loc.height.to_value("m")
    else:
        lat, lon, alt = S.angle("lat", -1.57, 1.57), S.angle("lon"), S.real("alt", -3000, 5000)
        kw = dict(latitude=lat, longitude=lon, altitude=alt)
    enu = S.reals("enu", (n, 3), -1000, 1000)
    e_in = enu[0] if form == "one" else enu
    x = utils.ECEF_from_ENU(e_in, **kw)
    S.prove(x.shape == e_in.shape, "shape")
    center = utils.XYZ_from_LatLonAlt(lat, lon, alt)
    rows = x.reshape(n, 3)
    cl, sl, co, so = np.cos(lat), np.sin(lat), np.cos(lon), np.sin(lon)
    east, north, up = (-so, co, 0.0), (-sl * co, -sl * so, cl), (cl * co, cl * so, sl)
    want = [[center[k] + enu[i, 0] * east[k] + enu[i, 1] * north[k] + enu[i, 2] * up[k]
             for k in range(3)] for i in range(n)]
    S.same(rows, mat(S, want), "ECEF_from_ENU")


@case(P, bounds=B, form=["one", "many"])
def enu_back(S, form):
    """ENU of a point: its offset from the center on the east, north, up directions"""
    n = 1 if form == "one" else 2
    loc = cm.telescope().location
    lat, lon = loc.lat.rad, loc.lon.rad
    c = np.array([loc.x.to_value("m"), loc.y.to_value("m"), loc.z.to_value("m")])
    cl, sl, co, so = np.cos(lat), np.sin(lat), np.cos(lon), np.sin(lon)
    d = S.reals("d", (n, 3), -100, 100)
    x = mat(S, [[c[k] + d[i, k] for k in range(3)] for i in range(n)])
    if S.pick("how", 2):
        kw = dict(center_loc=loc)
    else:
        kw = dict(latitude=lat, longitude=lon, altitude=loc.height.to_value("m"))
    enu = utils.ENU_from_ECEF(x[0] if form == "one" else x, **kw)
    S.prove(enu.shape == ((3,) if form == "one" else (n, 3)), "shape")
    want = [[-so * d[i, 0] + co * d[i, 1],
             -sl * co * d[i, 0] - sl * so * d[i, 1] + cl * d[i, 2],
             cl * co * d[i, 0] + cl * so * d[i, 1] + sl * d[i, 2]] for i in range(n)]
    S.same(enu.reshape(n, 3), mat(S, want), "ENU_from_ECEF", tol=1e-3)
    back = utils.ECEF_from_ENU(enu, **kw)
    S.same(back.reshape(n, 3), x, "there and back", tol=1e-3)


@case(P, bounds=B)
def radius(S):
    """points that cannot be on the surface are refused"""
    r = S.real("r", 1.0e6, 9.0e6)
    S.assume((abs(r - 6.35e6) > 10) & (abs(r - 6.39e6) > 10))
    ax = S.pick("ax", 3)
    v = [0.0, 0.0, 0.0]
    v[ax] = r
    x = arr1(S, v)
    err = S.raises(lambda: utils.ENU_from_ECEF(x, latitude=0.1, longitude=0.2, altitude=0.0), ValueError)
    ok = (r > 6.35e6) & (r < 6.39e6)
    S.prove(ok == (err is None), "ENU_from_ECEF")
    err = S.raises(lambda: utils.LatLonAlt_from_XYZ(x), ValueError)
    S.prove(ok == (err is None), "LatLonAlt_from_XYZ")


@case(P, bounds="longitude symbolic; latitude and altitude over a grid of 25 values")
def lla(S):
    """geodetic coordinates of a point made from them"""
    lat = S.choice("lat", [-1.5, -0.7, 0.0, 0.3, 1.2])
    alt = S.choice("alt", [-400.0, 0.0, 1000.0, 5000.0, 9000.0])
    lon = S.angle("lon")
    n = A_ / np.sqrt(1.0 - (1.0 - (B_ / A_) ** 2) * np.sin(lat) ** 2)
    p = float((n + alt) * np.cos(lat))
    z = float((n * (B_ / A_) ** 2 + alt) * np.sin(lat))
    x = [p * np.cos(lon), p * np.sin(lon), z]
    form = S.pick("form", 2)
    if form:
        la, lo, al = utils.LatLonAlt_from_XYZ(mat(S, [x, x]), check_acceptability=False)
        S.prove(len(la) == 2, "shape")
        la, lo, al = la[1], lo[1], al[1]
    else:
        la, lo, al = utils.LatLonAlt_from_XYZ(arr1(S, x), check_acceptability=False)
    S.same(la, lat, "latitude", tol=1e-9)
    S.same(al, alt, "altitude", tol=2e-3)
    S.same(np.cos(lo), np.cos(lon), "longitude", tol=1e-6)
    S.same(np.sin(lo), np.sin(lon), "longitude", tol=1e-6)


@case(P, bounds=B)
def rot_ecef(S):
    """rotated frame: x through the local meridian"""
    lon = S.angle("lon")
    x = S.reals("x", (2, 3))
    co, so = np.cos(lon), np.sin(lon)
    got = utils.rotECEF_from_ECEF(x, lon)
    S.same(got, mat(S, [[co * x[i, 0] + so * x[i, 1], -so * x[i, 0] + co * x[i, 1], x[i, 2]]
                        for i in range(2)]), "rotECEF_from_ECEF")
    S.same(utils.ECEF_from_rotECEF(got, lon), x, "there and back")
    S.same(utils.rotECEF_from_ECEF(utils.ECEF_from_rotECEF(x, lon), lon), x, "back and there")


@case(P, bounds=B)
def old_uvw(S):
    """the old-style projection and its inverse"""
    ra, dec = S.angle("ra"), S.angle("dec")
    n = S.choice("n", [1, 2])
    x = S.reals("x", (n, 3))
    cr, sr, cd, sd = np.cos(ra), np.sin(ra), np.cos(dec), np.sin(dec)
    got = ph.old_uvw_calc(ra, dec, x)
    S.same(got, mat(S, [[-sr * x[i, 0] + cr * x[i, 1],
                         -sd * cr * x[i, 0] - sd * sr * x[i, 1] + cd * x[i, 2],
                         cd * cr * x[i, 0] + cd * sr * x[i, 1] + sd * x[i, 2]] for i in range(n)]),
           "old_uvw_calc")
    S.same(ph.undo_old_uvw_calc(ra, dec, got), x, "undone")
    one = ph.old_uvw_calc(ra, dec, x[0])
    S.same(one.reshape(-1), got[0], "one vector")


@case(P, bounds=B)
def polar(S):
    """directions and unit vectors"""
    lon, lat = [S.angle(f"lon{i}", 0.01, 6.27) for i in range(2)], [S.angle(f"lat{i}", -1.57, 1.57)
                                                                 for i in range(2)]
    x = ph.polar2_to_cart3(lon_array=arr1(S, lon), lat_array=arr1(S, lat))
    S.same(x, mat(S, [[np.cos(lo) * np.cos(la) for lo, la in zip(lon, lat)],
                      [np.sin(lo) * np.cos(la) for lo, la in zip(lon, lat)],
                      [np.sin(la) for la in lat]]), "polar2_to_cart3")
    one = ph.polar2_to_cart3(lon_array=lon[0], lat_array=lat[0])
    S.same(one, x[:, 0], "one direction")


@case(P, bounds=B)
def polar_back(S):
    """direction of a unit vector, longitude in [0, 2 pi)"""
    lon, lat = [S.angle(f"lon{i}", -3.14, 3.14) for i in range(2)], [S.angle(f"lat{i}", -1.57, 1.57)
                                                                   for i in range(2)]
    for la in lat:
        S.assume(np.cos(la) > 1e-3)
    x = ph.polar2_to_cart3(lon_array=arr1(S, lon), lat_array=arr1(S, lat))
    lo, la = ph.cart3_to_polar2(x)
    for i in range(2):
        d = lo[i] - lon[i]
        S.prove((lo[i] >= 0) & (lo[i] < 2 * np.pi + 1e-9), "range of longitude")
        S.prove((abs(d) < 1e-6) | (abs(d - 2 * np.pi) < 1e-6), "longitude")
        S.same(la[i], lat[i], "latitude", tol=1e-6)


@case(P, bounds=B, ax1=[0, 1, 2], ax2=[0, 1, 2], nrot=[1, 2], nvec=[1, 2])
def rotations(S, ax1, ax2, nrot, nvec):
    """two successive rotations are the product of the two single ones"""
    a = [S.angle(f"a{i}") for i in range(nrot)]
    b = [S.angle(f"b{i}") for i in range(nrot)]
    v = S.reals("v", (1, 3, nvec))

    def one(w, ang, ax):
        c, s = np.cos(ang), np.sin(ang)
        j, k = (ax + 1) % 3, (ax + 2) % 3
        out = [None] * 3
        out[ax] = w[ax]
        out[j] = c * w[j] - s * w[k]
        out[k] = s * w[j] + c * w[k]
        return out

    two = ph._rotate_two_axis(v, rot_amount1=arr1(S, a), rot_amount2=arr1(S, b), rot_axis1=ax1,
                              rot_axis2=ax2)
    sgl = ph._rotate_one_axis(v, rot_amount=arr1(S, a), rot_axis=ax1)
    for r in range(nrot):
        for q in range(nvec):
            w = [v[0, k, q] for k in range(3)]
            o = one(w, a[r], ax1)
            S.same(arr1(S, [sgl[r, k, q] for k in range(3)]), arr1(S, o), "one rotation")
            o = one(o, b[r], ax2)
            S.same(arr1(S, [two[r, k, q] for k in range(3)]), arr1(S, o), "two rotations")
