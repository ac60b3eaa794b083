"""C07: the periodic covariance grid (and C08, its smoothing factors)."""
from .lib import *

AX = "xyz"


def setup(c, dim, smooth):
    """FFTCovGrid<dim>D built by the real constructor from an arbitrary variogram"""
    K = {V + "::GetCorr": c_corr, "NRLib::FFTCovGridUtilities::FindVariogramRanges": c_axis_ranges}
    ex = c.exec(K)
    st = State()
    lv = abstract_vario(ex, st, c.P)
    N = [I("n" + a) for a in AX[:dim]]
    D = [R("d" + a) for a in AX[:dim]]
    S = [R("s" + a) for a in AX[:dim]]
    for a in AXR:
        st.assume(a > 0)
    for k in range(dim):
        st.assume(N[k] >= 1)
        st.assume(N[k] <= 2 ** 31 - 2)
        st.assume(D[k] > 0)
        if smooth:
            st.assume(S[k] > 0)
            st.assume(S[k] <= 1)
        else:
            st.assume(S[k] == 1)
    if not smooth:
        S = [rv(1)] * dim
    c.cover(ex, st, "valid grid")
    args = [Arg(lv=lv)] + [Arg(val=x) for p in zip(N, D) for x in p] + [Arg(val=x) for x in S]
    cls = "NRLib::FFTCovGrid%dD" % dim
    o = ex.construct(cls, args, st, None)
    ol = ex.alloc(st, o, "covgrid")
    g = ex.call_func(c.fn(cls + "::GetCov"), ol, [], st, None)
    gl = g if isinstance(g, LV) else ex.alloc(st, g, "cov")
    return ex, st, gl, N, D, S, lv, cls


def dims_of(ex, st, gl):
    v = ex.load(st, gl)
    if isinstance(v, (ListV, ArrV)):
        return [M.vsize(v)]
    out = []
    for m in ("GetNI", "GetNJ", "GetNK"):
        fs = [f for f in ex.prog.byq.get(v.cls + "::" + m, []) if not f.params]
        if fs:
            out.append(ex.call_func(fs[0], gl, [], st, None))
    return out


def unit(dim, smooth):
    def run(c):
        ex, st, gl, N, D, S, lv, cls = setup(c, dim, smooth)
        w = cls + "::" + cls.split("::")[1]
        dm = dims_of(ex, st, gl)
        for k in range(dim):
            ex.oblige(st, dm[k] == N[k], "covariance grid has the requested size along %s" % AX[k], where=w)
        idx = [I(x) for x in "ijk"[:dim]]
        for k in range(dim):
            st.assume(idx[k] >= 0)
            st.assume(idx[k] < N[k])
        got = at(ex, st, gl, idx)
        # one obligation per orthant: index in the first or in the second half along each axis
        for m in range(2 ** dim):
            s2 = st.clone()
            off = []
            for k in range(dim):
                if m >> k & 1:
                    s2.assume(2 * idx[k] >= N[k])
                    off.append(norm(z3.ToReal(idx[k] - N[k]) * D[k]))
                else:
                    s2.assume(2 * idx[k] < N[k])
                    off.append(norm(z3.ToReal(idx[k]) * D[k]))
            want = call(ex, s2, lv, V + "::GetCov", off)
            if smooth:
                for k in range(dim):
                    want = want * z3.If(S[k] < q("0.99999"), mathfn("pow", S[k], norm(off[k] * off[k] / (AXR[k] * AXR[k]))), rv(1))
            nm = "entry = covariance of the wrapped offset" + (" times the smoothing factors" if smooth else "")
            ex.oblige(s2, got == want, nm + " [half %s]" % "".join("-" if m >> k & 1 else "+" for k in range(dim)), where=w)
    return run


def line(ty, par, dim, N, D, S):
    return "cov %d %d " % (dim, ty) + " ".join(repr(float(x)) for x in par) + "".join(" %d %r %r" % (int(N[k]), float(D[k]), float(S[k])) for k in range(dim))


def rep(dim):
    def f(env, o):
        g = lambda n, d: float(env.get(n, d))
        N = [max(1, int(g("n" + a, 4))) for a in AX]
        if N[0] * (N[1] if dim > 1 else 1) * (N[2] if dim > 2 else 1) > 2000000:
            N = [min(x, 40) for x in N]
        D = [abs(g("d" + a, 1)) or 1. for a in AX]
        S = [min(1., max(1e-6, abs(g("s" + a, 1)))) for a in AX]
        for ty in (1, 2, 3):
            for azi, dip in ((0., 0.), (.6, 0.), (.6, .4)):
                for r in (1., 5., 30.):
                    yield line(ty, [1.5, r, r * .6, r * .4, azi, dip, 1.3], dim, N, D, S)
    return f


def units():
    return [(CORE, Unit("FFTCovGrid%dD" % d, unit(d, False), replay=rep(d), tmo=200)) for d in (1, 2, 3)]


def mkgen(smooth):
    def gen(rng, budget, tier):
        n = {"std": 1500, "deep": 15000}[budget]
        for _ in range(n):
            dim = rng.choice([1, 2, 2, 3, 3])
            top = {1: 200, 2: 24, 3: 12}[dim]
            N = [rng.choice([1, 2, 3, 4, 5, rng.randint(1, top)]) for _ in range(3)]
            D = [rng.choice([1., .5, 10., rng.uniform(.1, 30)]) for _ in range(3)]
            rng_ = [D[0] * rng.choice([.7, 2, 6, 20, 100]) * rng.uniform(.5, 2) for _ in range(3)]
            azi, dip = (rng.choice([0., 0., rng.uniform(-3.2, 3.2), 1.5707963]) for _ in range(2))
            if smooth:
                S = [rng.choice([1., 1., .99999, .999, .9, .5, .1, .01, rng.uniform(.001, 1)]) for _ in range(3)]
            else:
                S = [1.] * 3
            yield line(rng.randint(0, 7), [rng.choice([1., 1.5, 2., rng.uniform(.3, 2)])] + rng_ + [azi, dip, rng.choice([1., 2., .5])], dim, N, D, S)
    return gen


SRCS = ["nrlib/variogram/fftcovgrid.cpp", "nrlib/variogram/variogram.cpp", "nrlib/variogram/variogramtypes.cpp"]


def harness(scratch):
    return Harness(scratch, "covgrid.cpp", SRCS, mkgen(False), "random variograms, grid sizes 1.. (odd and even) in 1-3 dimensions: every entry against the covariance of the wrapped offset")
