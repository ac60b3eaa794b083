"""C13: normal deviates: composition method whose mixture is the standard normal distribution."""
from .lib import *
from . import C12
from .C12 import RN, RG, CO, MT, GV, fnp

P1, P2, P3 = q("0.8638"), q("0.9745"), q("0.9973002039")
GF = z3.Function("residual", T.Real, T.Real)
A0, B0, C0 = q("17.49731196"), q("2.36785163"), q("2.15787544")
PHI0 = q("0.39894228040143267794")     # 1/sqrt(2 pi)


def ab(x):
    return z3.If(x >= 0, x, -x)


def setup(c, cls, lo, hi, K=None):
    """generator in an arbitrary state whose next uniform number is in [lo, hi)"""
    ex = c.exec(dict(MT, **(K or {})))
    ex.check_defined = True
    st = State()
    m = Rec("mt", {"stream": I("stream0"), "count": I("count0")})
    st.store[GV] = m
    this = None
    if cls == RG:
        o = ex.construct(RG, [], st, None)
        n = [k for k, v in o.f.items() if not isinstance(v, z3.ExprRef)]
        if len(n) != 1:
            raise ToolLimit("generator state member")
        this = ex.alloc(st, Rec(RG, dict(o.f, **{n[0]: m})), "rg")
    u = CO(I("stream0"), I("count0"))
    if lo is not None:
        st.assume(u >= lo)
    st.assume(u < (hi if hi is not None else rv(1)))
    st.assume(u >= 0)
    c.cover(ex, st, "branch")
    return ex, st, this


def count(ex, st, this):
    m = ex.load(st, LV(GV)) if this is None else C12.state_of(ex, st, this)
    return m.f["stream"], m.f["count"]


def c_g(ex, st, f, this, args):
    """contract of the residual density g, proved below"""
    return GF(norm(ex.argval(args[0], st)))


def u_branch(cls, k):
    def run(c):
        w = cls + "::Norm01"
        lo, hi = [(None, P1), (P1, P2), (P2, P3), (P3, None)][k]
        ex, st, this = setup(c, cls, lo, hi, {cls + "::g": c_g})
        x = ex.call_func(fnp(c, w, 0), this, [], st, None)
        s, n = count(ex, st, this)
        ex.oblige(st, s == I("stream0"), "draws from its own stream", where=w)
        U = lambda i: CO(I("stream0"), norm(i))
        n0 = I("count0")
        if k == 0:
            ex.oblige(st, x == 2 * (U(n0 + 1) + U(n0 + 2) + U(n0 + 3)) - 3, "central part: sum of three uniform numbers", where=w)
            ex.oblige(st, n == n0 + 4, "central part uses four draws", where=w)
        elif k == 1:
            ex.oblige(st, x == q("3/2") * (U(n0 + 1) + U(n0 + 2) - 1), "triangular part: sum of two uniform numbers", where=w)
            ex.oblige(st, n == n0 + 3, "triangular part uses three draws", where=w)
        elif k == 2:
            u1, u2 = U(n - 2), U(n - 1)
            ex.oblige(st, x == 6 * u1 - 3, "residual part: uniform on [-3,3)", where=w)
            ex.oblige(st, q("0.358") * u2 <= GF(norm(6 * u1 - 3)), "residual part: accepted under the residual density", where=w)
        else:
            u1, u2 = U(n - 2), U(n - 1)
            v1, v2 = norm(2 * u1 - 1), norm(2 * u2 - 1)
            ww = norm(v1 * v1 + v2 * v2)
            ex.oblige(st, z3.And(ww > 0, ww < 1), "tail: point inside the unit circle, not its centre", where=w)
            cc = sqrt(norm((9 - 2 * mathfn("log", ww)) / ww))
            ex.oblige(st, x == z3.If(ab(norm(cc * v1)) > 3, norm(cc * v1), norm(cc * v2)), "tail: polar method on the tail", where=w)
            ex.oblige(st, ab(x) > 3, "tail deviates lie beyond 3", where=w)
        if cls == RG:
            m = ex.load(st, LV(GV))
            ex.oblige(st, z3.And(m.f["stream"] == I("stream0"), m.f["count"] == n0), "the global stream is untouched", where=w)
    return run


def u_g(cls):
    def run(c):
        w = cls + "::g"
        ex, st, this = setup(c, cls, None, None)
        x = R("x")
        r = ex.call_func(fnp(c, w, 1), this, [Arg(val=x)], st, None)
        a = ab(x)
        E = mathfn("exp", norm(-x * x / 2))
        f1 = z3.If(a < 1, (3 - x * x) / 8, z3.If(a < 3, (3 - a) * (3 - a) / 16, rv(0)))     # density of 2(u1+u2+u3)-3
        f2 = z3.If(a < q("3/2"), q("4/9") * (q("3/2") - a), rv(0))                           # density of 1.5(u1+u2-1)
        st.assume(a < 3)
        st.assume(E > 0)
        st.assume(E <= 1)
        mix = P1 * f1 + (P2 - P1) * f2 + (P3 - P2) * r
        d = mix - PHI0 * E
        eps = q("1e-9")
        ex.oblige(st, z3.And(d <= eps, d >= -eps), "central, triangular and residual part add up to the standard normal density on (-3,3)", where=w)
    return run


def rep(w):
    def run(env, o):
        s0, n0 = env.get("stream0", "0"), int(env.get("count0", "0"))
        u = []
        for k in range(8):
            x = env.get("mt_close_open(%s,%d)" % (s0, n0 + k))
            x = float(x) if x is not None else float(env.get("mt_close_open(else)", .3) or .3)
            if not 0 <= x < 1:
                break
            u.append(x)
        for t in range(4):
            yield "script %s %d %s" % (w, t, " ".join(repr(round(x * 2 ** 52) / 2 ** 52) for x in u))
    return run


def units():
    us = []
    for cls in (RN, RG):
        n = cls.split("::")[1]
        us.append((CORE, Unit(n + "::g", u_g(cls), tmo=60)))
        for k in range(4):
            us.append((CORE, Unit(n + "::Norm01 [%s]" % ("central", "triangular", "residual", "tail")[k], u_branch(cls, k), replay=rep("global" if cls == RN else "object"), tmo=60)))
    return us


def gen(rng, budget, tier):
    n = {"std": 4000, "deep": 40000}[budget]
    sp = [0.0, .5, .25, .75, 1 - 2.0 ** -52, .1, .9]
    for k in range(n):
        w = rng.choice(["object", "global"])
        b = rng.randrange(4)
        u = [[rng.uniform(0, .8638), rng.uniform(.8638, .9745), rng.uniform(.9745, .9973002039), rng.uniform(.9973002039, 1)][b]]
        if rng.random() < .25:
            u = [min(near(rng, .5, 1), 1 - 2.0 ** -52)]
        if b == 3 and rng.random() < .1:
            u += [.5, .5]
        u += [rng.choice(sp) if rng.random() < .3 else rng.random() for _ in range(rng.choice([0, 2, 6]))]
        if b == 3 and rng.random() < .5:        # points near the centre are accepted
            e = 10.0 ** rng.uniform(-6, -.5)
            u += [.5 + e * rng.uniform(-.5, .5), .5 + e * rng.uniform(-.5, .5)]
        yield "script %s %d %s" % (w, rng.randint(0, 2 ** 31), " ".join(repr(round(x * 2 ** 52) / 2 ** 52) for x in u))
    for k in range(20):
        yield "same %d %d" % (rng.randint(0, 2 ** 32 - 1), 20000)


def harness(scratch):
    return Harness(scratch, "norm01.cpp", ["nrlib/random/random.cpp", "nrlib/random/randomgenerator.cpp", "nrlib/random/dSFMT.cpp"], gen,
                   "scripted sequences of uniform numbers through both generators against an independent implementation; long streams compared with each other")


TRUSTED = ["dSFMT delivers independent uniform numbers in [0,1)"]
ASSUMPTIONS = ["that the accept/reject step and the polar tail method yield their textbook densities is mathematics outside the proof; proved are the mixture identity on (-3,3), the mixture probabilities, and each part's formula",
               "termination of the rejection loops (with probability one) is not proved"]
