"""C01: laws every correlation function obeys, whatever the type."""
from .lib import *
from . import C02


def u_corr1d(ty):
    """Corr1D on distances: 1 at zero, in [0,1], non-increasing"""
    def run(c):
        ex = c.exec()
        st = State()
        lv = make_vario(c, ex, st, ty)
        c.cover(ex, st, "valid parameters")
        d1, x = R("d1"), R("x")
        d2 = norm(d1 + x)

        def at(d, s):
            return norm(call(ex, s, lv, V + "::Corr1D", [d]))
        s = st.clone()
        ex.oblige(s, at(rv(0), s) == 1, "correlation at distance zero is one")
        s = st.clone()
        s.assume(d1 >= 0)
        r = at(d1, s)
        ex.oblige(s, r <= 1, "correlation at most one")
        ex.oblige(s, r >= 0, "correlation at least zero")
        s = st.clone()
        s.assume(d1 >= 0)
        s.assume(x >= 0)
        a, b = at(d1, s), at(d2, s)
        ex.oblige(s, b <= a, "correlation non-increasing in distance")
    return run


def u_distance(n):
    """the scaled distance is a homogeneous, even, non-negative function; GetCorr is Corr1D of it"""
    def run(c):
        ex = c.exec()
        st = State()
        lv = make_vario(c, ex, st, "EXPONENTIAL")
        h = [R("hx"), R("hy"), R("hz")][:n]
        t = R("t")
        K = z3.Function("corr1d", T.Real, T.Real)
        args = []

        def c1(ex_, s_, f_, this_, a_):
            d = norm(ex_.argval(a_[0], s_))
            args.append(d)
            return K(d)
        ex.contracts[V + "::Corr1D"] = c1
        for cl in ("ExpVario",):
            ex.contracts["NRLib::%s::Corr1D" % cl] = c1

        def at(v, s):
            del args[:]
            r = call(ex, s, lv, V + "::GetCorr", v)
            if len(args) != 1:
                raise ToolLimit("GetCorr does not call Corr1D once")
            return r, args[0]
        s = st.clone()
        r0, d0 = at([rv(0)] * n, s)
        ex.oblige(s, d0 == 0, "distance of the zero offset is zero (%dD)" % n)
        ex.oblige(s, r0 == K(d0), "corr is Corr1D of the distance (%dD)" % n)
        s = st.clone()
        r1, d1 = at(h, s)
        ex.oblige(s, r1 == K(d1), "corr is Corr1D of the distance, general offset (%dD)" % n)
        if d1.decl().name() != "sqrt":
            raise ToolLimit("distance is not a square root")
        rad = d1.arg(0)
        rx, ry, rz, azi, dip = (R(x) for x in ("rx", "ry", "rz", "azi", "dip"))
        u, v, w = rotated(*(h + [rv(0)] * (3 - n)), azi, dip)
        sq = (u / rx) * (u / rx) + (v / ry) * (v / ry) + (w / rz) * (w / rz)
        ex.oblige(s, rad == sq, "squared distance is a sum of three squares, hence non-negative (%dD)" % n)
        r2, d2 = at([norm(-x) for x in h], s)
        ex.oblige(s, d2 == d1, "distance is even (%dD)" % n)
        ex.oblige(s, r2 == r1, "correlation is even (%dD)" % n)
        s2 = st.clone()
        r3, d3 = at([norm(t * x) for x in h], s2)
        if d3.decl().name() != "sqrt":
            raise ToolLimit("distance is not a square root")
        ex.oblige(s2, d3.arg(0) == t * t * rad, "squared distance is homogeneous: D(t h)^2 = t^2 D(h)^2 (%dD)" % n)
    return run


def u_lemma(c):
    """D(t h)^2 = t^2 D(h)^2, D >= 0, t >= 1 give D(t h) >= D(h); with Corr1D non-increasing: corr(t h) <= corr(h)"""
    ex = c.exec()
    st = State()
    K = z3.Function("corr1d", T.Real, T.Real)
    t, a, b = R("t"), R("a"), R("b")
    for x in (t >= 1, a >= 0, b >= 0, b * b == t * t * a * a):
        st.assume(x)
    c.cover(ex, st, "lemma hypotheses")
    ex.oblige(st, b >= a, "scaling an offset up does not shrink its distance")
    st.assume(z3.Implies(b >= a, K(b) <= K(a)))
    st.assume(b >= a)
    ex.oblige(st, K(b) <= K(a), "correlation is non-increasing along every ray")


def replay(ty):
    def f(env, o):
        g = lambda n, d: env.get(n, d)
        d1 = float(g("d1", 0.5))
        d2 = d1 + float(g("x", 0.5))
        rx, ry, rz = (float(g(x, 10)) for x in ("rx", "ry", "rz"))
        for dd in (d1, d2):
            yield "laws %s %s %r %r %r %s %s %s %r 0 0 %r" % (ty, g("power", 1.5), rx, ry, rz, g("azi", 0), g("dip", 0), 1.0, dd * rx, max(1.0, d2 / d1 if d1 else 2.0))
    return f


def rep_d(env, o):
    g = lambda n, d: env.get(n, d)
    for ty in ("EXPONENTIAL", "SPHERICAL"):
        yield "laws %s 1.5 %s %s %s %s %s 1.0 %s %s %s %s" % (ty, g("rx", 10), g("ry", 5), g("rz", 3), g("azi", .3), g("dip", .2), g("hx", 1), g("hy", 0), g("hz", 0), g("t", 2))


def units():
    us = [(CORE, Unit("Corr1D laws [%s]" % ty, u_corr1d(ty), replay=replay(ty), tmo=150)) for ty in TYPES]
    us += [(CORE, Unit("Variogram::GetCorr distance laws [%dD]" % n, u_distance(n), replay=rep_d, tmo=120)) for n in (1, 2, 3)]
    us.append((CORE, Unit("lemma: monotone along rays", u_lemma, tmo=60)))
    return us


def gen(rng, budget, tier):
    n = {"std": 400, "deep": 4000}[budget]
    for ty in TYPES:
        for _ in range(n):
            power, r, azi, dip, sd = C02.params(rng)
            sc = rng.choice([1e-6, .01, .3, .9, .9999, 1.0, 1.0001, 1.1, 2, 5, 30, 1e3])
            h = [sc * x * rng.choice([0, rng.uniform(-1, 1), 1, -1, rng.uniform(-.1, .1)]) for x in r]
            t = rng.choice([1.0, 1.0 + 1e-9, 1.01, 1.5, 2, 10])
            yield "laws %s %r %r %r %r %r %r %r %r %r %r %r" % (ty, power, *r, azi, dip, sd, *h, t)


def harness(scratch):
    return Harness(scratch, "vario.cpp", C02.SRCS, gen,
                   "random variograms of each type; corr(0)=1, evenness, range [0,1], non-increase along rays for scale factors t>=1, in 1-3 dimensions, and covariance/variogram identities")


ASSUMPTIONS = ["exp, sqrt, sin, cos and pow are the mathematical functions (axiom instances: positivity, exp monotone with cubic lower bound, sqrt(x)^2=x, sin^2+cos^2=1, pow monotone)"]
