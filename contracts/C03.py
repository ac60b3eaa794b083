"""C03: the variogram factory of the Python interface."""
from .lib import *
from cxxvc.harness import PyHarness
from . import C02

NAMES = {"CONSTANT": "CONSTANT", "EXPONENTIAL": "EXPONENTIAL", "GAUSSIAN": "GAUSSIAN", "GENERAL_EXPONENTIAL": "GENERAL_EXPONENTIAL",
         "MATERN32": "MATERN32", "MATERN52": "MATERN52", "MATERN72": "MATERN72", "SPHERICAL": "SPHERICAL"}
PI_LO, PI_HI = q("3.14159265358979"), q("3.14159265358980")


def setup(c, upper):
    ex = c.exec({"NRLib::Uppercase": lambda ex_, s, f, t, a: upper})
    st = State()
    positive(st, "rx")
    if isinstance(upper, StrV) and not isinstance(upper.s, str):
        for n in NAMES:
            st.assume(upper.s != z3.StringVal(n))
    st.assume(R("power") > 0)
    st.assume(R("power") <= 2)
    f = c.fn(G + "CreateVariogram")
    tl = ex.alloc(st, StrV(z3.String("type")), "type")
    r = ex.call_func(f, None, [Arg(lv=tl)] + [Arg(val=R(x)) for x in ("rx", "ry", "rz", "azi", "dip", "power")], st, None)
    if not isinstance(r, PtrV):
        raise ToolLimit("factory returns a choice of objects")
    return ex, st, ex.deref(r, st)


def unit(ty, upper):
    def run(c):
        w = G + "CreateVariogram"
        ex, st, lv = setup(c, upper)
        c.cover(ex, st, "positive main range")
        rx = R("rx")
        ry = z3.If(R("ry") <= 0, rx, R("ry"))
        rz = z3.If(R("rz") <= 0, rx, R("rz"))
        g = lambda m: call(ex, st, lv, V + "::" + m, [])
        ex.oblige(st, g("GetRangeX") == rx, "main range", where=w)
        ex.oblige(st, g("GetRangeY") == ry, "perpendicular range, main range when not positive", where=w)
        ex.oblige(st, g("GetRangeZ") == rz, "depth range, main range when not positive", where=w)
        for m, a in (("GetAzimuthAngle", R("azi")), ("GetDipAngle", R("dip"))):
            x = norm(g(m) * 180)
            ex.oblige(st, z3.Or(z3.And(a >= 0, x >= a * PI_LO, x <= a * PI_HI), z3.And(a <= 0, x <= a * PI_LO, x >= a * PI_HI)),
                      "%s is the angle in radians" % m, where=w)
        ex.oblige(st, g("GetStdDev") == 1, "unit standard deviation", where=w)
        azi, dip = g("GetAzimuthAngle"), g("GetDipAngle")
        h = [R("hx"), R("hy"), R("hz")]
        for n in (1, 2, 3):
            o = h[:n] + [rv(0)] * (3 - n)
            D = sqrt(dist2(*o, rx, ry, rz, azi, dip))
            r = call(ex, st, lv, V + "::GetCorr", h[:n])
            ex.oblige(st, r == corr1d(ty, D, R("power")), "corr with %d arguments is that of the named type" % n, where=w)
    return run


def u_upper(c):
    """Uppercase: same length, every character mapped by toupper - for every string"""
    ex = c.exec()
    st = State()
    n = I("n")
    st.assume(n >= 0)
    ch = z3.Function("text", T.Int, T.Int)
    tl = ex.alloc(st, ArrV("char", Base("fn", lambda i: ch(i)), (), n), "text")
    c.cover(ex, st, "any string")
    r = ex.call_func(c.fn("NRLib::Uppercase"), None, [Arg(lv=tl)], st, None)
    if not isinstance(r, ArrV):
        raise ToolLimit("string result is not a character sequence")
    w = "NRLib::Uppercase"
    ex.oblige(st, r.size == n, "length is kept", where=w)
    k = I("k")
    s2 = st.clone()
    s2.assume(k >= 0)
    s2.assume(k < n)
    up = z3.Function("toupper", T.Int, T.Int)
    s2.assume(z3.And(up(ch(k)) >= -128, up(ch(k)) <= 127))
    ex.oblige(s2, ex.read(s2, r, k) == up(ch(k)), "every character is mapped by toupper", where=w)


def replay(ty):
    def f(env, o):
        g = lambda n, d: float(env.get(n, d))
        for nm in ([ty.lower()] if ty else ["nonsense", "spherica"]):
            yield "var %s %r %r %r %r %r %r %r %r %r" % (nm, g("rx", 10), g("ry", -1), g("rz", -1), g("azi", 0), g("dip", 0), g("power", 1.5), g("hx", 3), g("hy", 2), g("hz", 1))
    return f


def units():
    us = [(API, Unit("CreateVariogram [%s]" % n, unit(NAMES[n], StrV(n)), replay=replay(n), tmo=100)) for n in NAMES]
    us.append((API, Unit("CreateVariogram [unknown name]", unit("SPHERICAL", StrV(z3.String("utype"))), replay=replay(None), tmo=100)))
    us.append((API, Unit("Uppercase", u_upper, tmo=30)))
    return us


def gen(rng, budget, tier):
    n = {"std": 3000, "deep": 25000}[budget]
    base = list(NAMES) + ["SPHERICA", "GAUSS", "EXP", "MATERN", "GENERAL", "UNKNOWN", "GAUSSIAN1", "CONSTAN", "MATERN12", "SPHERICAL_", "EXPONENTIALS"]
    for _ in range(n):
        nm = rng.choice(base)
        m = rng.random()
        if m < .35:
            nm = nm.lower()
        elif m < .6:
            nm = nm.capitalize()
        elif m < .85:
            nm = "".join(rng.choice([x.lower(), x]) for x in nm)
        power, r, azi, dip, _ = C02.params(rng)
        if rng.random() < .4:
            r[1] = rng.choice([-1.0, 0.0, -3.5])
        if rng.random() < .4:
            r[2] = rng.choice([-1.0, 0.0, -0.1])
        azi, dip = (rng.choice([0.0, 30.0, 45.0, 90.0, -60.0, 180.0, rng.uniform(-360, 360)]) for _ in range(2))
        sc = rng.choice([.05, .3, .9, 1.5])
        h = [sc * r[0] * rng.uniform(-1, 1) for _ in range(3)]
        yield "var %s %r %r %r %r %r %r %r %r %r" % (nm, *r, azi, dip, power, *h)
    for k in range(8):
        yield "enum %d" % k
    yield "defaults"


def harness(scratch):
    return PyHarness(scratch, "py_vario.py", gen, "type names in any letter case and unknown names, ranges (negative, zero, positive), angles in degrees, power; corr() in 1-3 arguments against the formula; the enumeration of types; defaults")


TRUSTED = ["pybind11 argument passing", "std::toupper maps the ASCII letters"]
