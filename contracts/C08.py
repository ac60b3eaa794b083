"""C08: smoothing of the covariance grid (the scaling arguments of the advanced interface)."""
from .lib import *
from . import C07
from .C07 import AX

HALF_PI = [q("1.57"), R("half_pi")]


def u_ranges(c):
    """FindVariogramRanges: longest projection of the principal axes on each coordinate axis"""
    ex = c.exec()
    st = State()
    lv = abstract_vario(ex, st, c.P)
    g = lambda m: call(ex, st, lv, V + "::" + m, [])
    par = [g("GetRangeX"), g("GetRangeY"), g("GetRangeZ"), g("GetAzimuthAngle"), g("GetDipAngle")]
    for p in par[:3]:
        st.assume(p > 0)
    c.cover(ex, st, "positive ranges")
    r = ex.call_func(c.fn("NRLib::FFTCovGridUtilities::FindVariogramRanges"), None, [Arg(lv=lv)], st, None)
    w = "NRLib::FFTCovGridUtilities::FindVariogramRanges"
    if not isinstance(r, ListV) or len(r.items) != 3:
        raise ToolLimit("ranges are not a list of three")
    want = axis_ranges(*par, q("1.57"))
    for k in range(3):
        ex.oblige(st, r.items[k] == want[k], "projected range along " + AX[k], where=w)


def unit_positive(c):
    """lemma: the projected ranges are positive, as C08's grid units assume"""
    ex = c.exec()
    st = State()
    rx, ry, rz, azi, dip = (R(n) for n in ("rx", "ry", "rz", "azi", "dip"))
    for p in (rx, ry, rz):
        st.assume(p > 0)
    h = q("1.57")
    # sin(1.57) > 0.99, |cos(1.57)| < 0.001 through the addition theorem, instantiated
    ch, sh = R("cos_right"), R("sin_right")
    st.assume(z3.And(ch > 0, ch < q("0.001"), sh > q("0.999"), sh <= 1))
    for x in (azi, dip):
        c_, s_ = mathfn("cos", x), mathfn("sin", x)
        st.assume(mathfn("cos", norm(x + h)) == c_ * ch - s_ * sh)
        st.assume(mathfn("sin", norm(x + h)) == s_ * ch + c_ * sh)
        st.assume(c_ * c_ + s_ * s_ == 1)
    # the longest projection is at least each projection
    mains = [rx * mathfn("cos", dip) * mathfn("cos", azi), rx * mathfn("cos", dip) * mathfn("sin", azi), rx * mathfn("sin", dip)]
    perp = [ry * mathfn("cos", norm(azi + h)), ry * mathfn("sin", norm(azi + h)), rv(0)]
    down = [rz * mathfn("cos", norm(dip + h)) * mathfn("cos", azi), rz * mathfn("cos", norm(dip + h)) * mathfn("sin", azi), rz * mathfn("sin", norm(dip + h))]
    for k in range(3):
        ex.oblige(st, z3.Or(mains[k] != 0, perp[k] != 0, down[k] != 0), "some principal axis has a component along " + AX[k], where="lemma")


def u_factors(c):
    """FindSmoothingFactors: scaling^(1/range^2) per axis"""
    ex = c.exec({"NRLib::FFTCovGridUtilities::FindVariogramRanges": c_axis_ranges})
    st = State()
    lv = abstract_vario(ex, st, c.P)
    S = [R("s" + a) for a in AX]
    for k in range(3):
        st.assume(AXR[k] > 0)
        st.assume(S[k] > q("1/1000000000000"))
        st.assume(S[k] <= 1)
    c.cover(ex, st, "scalings in (0,1]")
    w = "NRLib::FFTCovGridUtilities::FindSmoothingFactors"
    r = ex.call_func(c.fn(w), None, [Arg(lv=lv)] + [Arg(val=x) for x in S], st, None)
    if not isinstance(r, ListV) or len(r.items) != 3:
        raise ToolLimit("factors are not a list of three")
    for k in range(3):
        ex.oblige(st, r.items[k] == mathfn("pow", S[k], norm(1 / (AXR[k] * AXR[k]))), "factor along " + AX[k], where=w)


def units():
    us = [(CORE, Unit("FindVariogramRanges", u_ranges, replay=C07.rep(3), tmo=60)), (CORE, Unit("lemma: projected ranges are positive", unit_positive, tmo=60)),
          (CORE, Unit("FindSmoothingFactors", u_factors, replay=C07.rep(3), tmo=60))]
    for d in (1, 2, 3):
        us.append((CORE, Unit("FFTCovGrid%dD [scaling in (0,1]]" % d, C07.unit(d, True), replay=C07.rep(d), tmo=300)))
    return us


def harness(scratch):
    return Harness(scratch, "covgrid.cpp", C07.SRCS, C07.mkgen(True), "as C07, with scaling factors in (0,1] per axis: every entry against covariance times scaling^(offset^2/projected range^2)")


ASSUMPTIONS = ["the right angle in the projection is taken as 1.57 rad, as the code does (within 0.0008 of pi/2)"]
