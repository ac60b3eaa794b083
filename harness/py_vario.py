from pycommon import *
import math


def corr1d(ty, d, p):
    if ty == "constant": return 1.0
    if ty == "exponential": return math.exp(-3 * d)
    if ty == "gaussian": return math.exp(-3 * d * d)
    if ty == "general_exponential": return math.exp(-3 * d ** p)
    if ty == "matern32": s = 4.744 * d; return math.exp(-s) * (1 + s)
    if ty == "matern52": s = 5.918 * d; return math.exp(-s) * (1 + s + s * s / 3)
    if ty == "matern72": s = 6.877 * d; return math.exp(-s) * (1 + s + .4 * s * s + s ** 3 / 15)
    return 1 - 1.5 * d + .5 * d ** 3 if d < 1 else 0.0


def dist(h, r, azi, dip):
    a, b = math.radians(azi), math.radians(dip)
    ca, sa, cd, sd = math.cos(a), math.sin(a), math.cos(b), math.sin(b)
    x, y, z = h
    u = x * ca * cd + y * sa * cd + z * sd
    v = -x * sa + y * ca
    w = -x * ca * sd - y * sa * sd + z * cd
    return math.sqrt((u / r[0]) ** 2 + (v / r[1]) ** 2 + (w / r[2]) ** 2)


def check(v, ty, r, azi, dip, p, h, what=""):
    for n in (1, 2, 3):
        o = list(h[:n]) + [0.0] * (3 - n)
        d = dist(o, r, azi, dip)
        rm = min(r)
        kk = (sum(x * x for x in o) / rm ** 2) / d ** 2 if d > 0 else 1
        if kk > 1e8:
            continue
        want = corr1d(ty, d, p)
        e = 1e-13 * kk + 1e-12
        tol = 1e-11 + abs(corr1d(ty, d * (1 + e), p) - want) + abs(corr1d(ty, d * (1 - e), p) - want)
        got = v.corr(*h[:n])
        if not abs(got - want) <= tol:
            raise Fail("%scorr%r of %s is %r, expected %r" % (what, tuple(h[:n]), ty, got, want))


KNOWN = ["constant", "exponential", "gaussian", "general_exponential", "matern32", "matern52", "matern72", "spherical"]
ENUM = {"GAUSSIAN": "gaussian", "EXPONENTIAL": "exponential", "GENERAL_EXPONENTIAL": "general_exponential", "SPHERICAL": "spherical",
        "MATERN_32": "matern32", "MATERN_52": "matern52", "MATERN_72": "matern72", "CONSTANT": "constant"}


def case(t):
    if t[0] == "var":
        name = t[1]
        r = [float(x) for x in t[2:5]]
        azi, dip, p = map(float, t[5:8])
        h = [float(x) for x in t[8:11]]
        v = gf.variogram(name, r[0], r[1], r[2], azi, dip, p)
        ty = name.lower() if name.lower() in KNOWN else "spherical"
        rr = [r[0], r[1] if r[1] > 0 else r[0], r[2] if r[2] > 0 else r[0]]
        check(v, ty, rr, azi, dip, p, h)
        w = gf.variogram(type=name, main_range=r[0], perp_range=r[1], depth_range=r[2], azimuth=azi, dip=dip, power=p)
        for n in (1, 2, 3):
            if w.corr(*h[:n]) != v.corr(*h[:n]):
                raise Fail("keyword arguments differ from positional ones")
    elif t[0] == "enum":
        pk = load_package()
        k = sorted(ENUM)[int(t[1])]
        v = pk.variogram(pk.VariogramType[k], 10.0, 5.0, 3.0, 20.0, 10.0, 1.3)
        check(v, ENUM[k], [10.0, 5.0, 3.0], 20.0, 10.0, 1.3, [2.0, 1.0, .5], "enumerator %s: " % k)
        if len(list(pk.VariogramType)) != len(ENUM):
            raise Fail("set of types")
    elif t[0] == "defaults":
        for ty in KNOWN:
            v = gf.variogram(ty, 12.0)
            check(v, ty, [12.0] * 3, 0.0, 0.0, 1.5, [2.0, 3.0, 4.0], "defaults: ")
            v = gf.variogram(ty, 12.0, 7.0)
            check(v, ty, [12.0, 7.0, 12.0], 0.0, 0.0, 1.5, [2.0, 3.0, 4.0], "defaults: ")


run(case)
