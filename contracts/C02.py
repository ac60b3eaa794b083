"""C02: every variogram type implements its documented correlation formula of the anisotropic distance."""
from .lib import *

Z = rv(0)


def unit(ty, method):
    def run(c):
        ex = c.exec()
        st = State()
        lv = make_vario(c, ex, st, ty)
        c.cover(ex, st, "valid parameters")
        rx, ry, rz, azi, dip, sd, power = (R(x) for x in ("rx", "ry", "rz", "azi", "dip", "sd", "power"))
        full = [R("hx"), R("hy"), R("hz")]
        for n in (1, 2, 3):
            h = full[:n]
            o = h + [Z] * (3 - n)
            D = sqrt(dist2(*o, rx, ry, rz, azi, dip))
            F = corr1d(ty, D, power)
            s = st.clone()
            if method == "corr":
                r = call(ex, s, lv, V + "::GetCorr", h)
                ex.oblige(s, r == F, "corr(%d arguments) is the documented formula" % n, where=V + "::GetCorr")
            elif method == "cov":
                ex.contracts[V + "::GetCorr"] = c_corr
                r = call(ex, s, lv, V + "::GetCov", h)
                ex.oblige(s, r == sd * sd * corr[n - 1](*h), "covariance = variance * corr (%d arguments)" % n, where=V + "::GetCov")
                r = call(ex, s, lv, V + "::GetVariogram", h)
                ex.oblige(s, r == sd * sd * (1 - corr[n - 1](*h)), "variogram = variance * (1 - corr) (%d arguments)" % n, where=V + "::GetVariogram")
                p1 = [R("p%d" % k) for k in range(n)]
                p2 = [R("q%d" % k) for k in range(n)]
                dd = [norm(b - a) for a, b in zip(p1, p2)]
                r = call(ex, s, lv, V + "::GetCorrpoint", p1 + p2)
                ex.oblige(s, r == corr[n - 1](*dd), "point form = corr of the offset (%d)" % n, where=V + "::GetCorrpoint")
                r = call(ex, s, lv, V + "::GetCovpoint", p1 + p2)
                ex.oblige(s, r == sd * sd * corr[n - 1](*dd), "point form = covariance of the offset (%d)" % n, where=V + "::GetCovpoint")
    return run


def replay(ty):
    def f(env, o):
        g = lambda n, d: env.get(n, d)
        for pat in ((g("hx", 1), g("hy", 0), g("hz", 0)),):
            yield "corr %s %s %s %s %s %s %s %s %s %s %s" % ((ty,) + tuple(str(g(x, y)) for x, y in (
                ("power", 1.5), ("rx", 10), ("ry", 5), ("rz", 3), ("azi", 0.3), ("dip", 0.2), ("sd", 1))) + tuple(str(x) for x in pat))
    return f


def units():
    us = []
    for ty in TYPES:
        us.append((CORE, Unit("Variogram::GetCorr [%s]" % ty, unit(ty, "corr"), replay=replay(ty), tmo=120)))
    for ty in ("SPHERICAL", "GENERAL_EXPONENTIAL"):
        us.append((CORE, Unit("Variogram::GetCov/GetVariogram/*point [%s]" % ty, unit(ty, "cov"), replay=replay(ty), tmo=120)))
    return us


def params(rng):
    k = rng.random()
    r = [10 ** rng.uniform(-2, 4) for _ in range(3)]
    if k < .25:
        r[1] = r[2] = r[0]
    elif k < .5:
        r = [r[0], r[0] * rng.uniform(.05, 3), r[0] * rng.uniform(.05, 3)]
    azi = rng.choice([0.0, 0.0, rng.uniform(-7, 7), rng.uniform(0, 1.6), 1.5707963267948966, 3.141592653589793])
    dip = rng.choice([0.0, 0.0, rng.uniform(-7, 7), rng.uniform(0, 1.6), 1.5707963267948966])
    sd = rng.choice([1.0, 1.0, 0.0, rng.uniform(0, 5)])
    power = rng.choice([1.5, 1.0, 2.0, rng.uniform(0.1, 2)])
    return power, r, azi, dip, sd


def gen(rng, budget, tier):
    n = {"std": 400, "deep": 4000}[budget]
    for ty in TYPES:
        for _ in range(n):
            power, r, azi, dip, sd = params(rng)
            sc = rng.choice([.01, .3, .9, 1.0, 1.1, 2, 5, 30])
            h = [sc * x * rng.choice([0, rng.uniform(-1, 1), 1, -1, rng.uniform(-.1, .1)]) for x in r]
            yield "corr %s %r %r %r %r %r %r %r %r %r %r" % (ty, power, *r, azi, dip, sd, *h)


SRCS = ["nrlib/variogram/variogram.cpp", "nrlib/variogram/variogramtypes.cpp"]


def harness(scratch):
    return Harness(scratch, "vario.cpp", SRCS, gen,
                   "random variograms of each type (ranges over six decades, angles, sills) and offsets from 0.01 to 30 ranges, all overloads against a long-double reference")
