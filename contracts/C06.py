"""C06: default padding and simulation_size."""
from .lib import *
from cxxvc.harness import PyHarness

PAD = z3.Function("pad", T.Int, T.Real, T.Real, T.Int)
RATIO = {"CONSTANT": rv(1), "EXPONENTIAL": q("2.33"), "SPHERICAL": q("1.92"), "GAUSSIAN": q("6.67"),
         "GENERAL_EXPONENTIAL": 4 + (R("power") - q("1.5")) * q("5.34"), "MATERN32": rv(4), "MATERN52": q("4.76"), "MATERN72": q("5.26")}


def mx(a, b):
    return z3.If(a >= b, a, b)


def u_pad(c):
    """FindGaussianFieldPadding: max(trunc(ratio*range/step - n), trunc(range/step)) + 1"""
    ex = c.exec({V + "::GetMinimumRangeToGridRatio": c_ratio})
    st = State()
    lv = abstract_vario(ex, st, c.P)
    n, rng, step = I("n"), R("range"), R("step")
    for h in (n >= 1, rng > 0, step > 0, ratio > 0):
        st.assume(h)
    c.cover(ex, st, "valid arguments")
    f = c.fn("NRLib::FindGaussianFieldPadding")
    r = ex.call_func(f, None, [Arg(lv=lv), Arg(val=n), Arg(val=rng), Arg(val=step)], st, None)
    a = T.trunc(norm(ratio * rng / step - z3.ToReal(n)))
    b = T.trunc(norm(rng / step))
    want = mx(a, b) + 1
    w = "NRLib::FindGaussianFieldPadding"
    ex.oblige(st, r == want, "padding formula", where=w)
    # consequences a user relies on
    st.assume(b >= 0)
    ex.oblige(st, r >= 1, "padding is positive", where=w)
    ex.oblige(st, z3.ToReal(r) * step > rng, "padding exceeds one range", where=w)
    ex.oblige(st, (z3.ToReal(r) + z3.ToReal(n)) * step > ratio * rng, "padded grid exceeds ratio times range", where=w)


def c_pad(ex, st, f, this, args):
    a = [ex.argval(x, st) for x in args[1:]]
    return PAD(norm(a[0]), norm(a[1]), norm(a[2]))


GETTERS = {V + "::GetRangeX": c_getter("rx"), V + "::GetRangeY": c_getter("ry"), V + "::GetRangeZ": c_getter("rz"),
           V + "::GetAzimuthAngle": c_getter("azi"), V + "::GetDipAngle": c_getter("dip")}


def u_ndim(dim, via_api):
    def run(c):
        K = {"NRLib::FindGaussianFieldPadding": c_pad}
        K.update(GETTERS)
        ex = c.exec(K)
        st = State()
        lv = abstract_vario(ex, st, c.P)
        N = [I("nx"), I("ny"), I("nz")]
        D = [R("dx"), R("dy"), R("dz")]
        for k in range(3):
            st.assume(N[k] >= 1)
        positive(st, "rx", "ry", "rz", "dx")
        st.assume(N[1] <= 1 if dim == 1 else N[1] > 1)
        if dim > 1:
            st.assume(N[2] <= 1 if dim == 2 else N[2] > 1)
        c.cover(ex, st, "%dD" % dim)
        args = [Arg(val=x) for p in zip(N, D) for x in p]
        if via_api:
            r = ex.call_func(c.fn(G + "FindGridSizeAfterPadding"), None, [Arg(val=PtrV(lv.root, lv.path))] + args, st, None)
        else:
            r = ex.call_func(c.fn("NRLib::FindNDimPadding"), None, [Arg(lv=lv)] + args, st, None)
        w = G + "FindGridSizeAfterPadding" if via_api else "NRLib::FindNDimPadding"
        if not isinstance(r, ListV):
            raise ToolLimit("padding vector has a symbolic length")
        ex.oblige(st, z3.BoolVal(len(r.items) == dim), "one entry per dimension", where=w)
        rx, ry, rz, azi = R("rx"), R("ry"), R("rz"), R("azi")
        big = mx(rx, ry)
        rr = [rx if dim == 1 else big, z3.If(azi == 0, ry, big), rz]
        for k in range(min(dim, len(r.items))):
            want = PAD(N[k], rr[k], D[k])
            if via_api:
                want = N[k] + want
            ex.oblige(st, r.items[k] == want, "entry %d: %s" % (k, "size + padding" if via_api else "padding of the effective range"), where=w)
    return run


def u_omitted(c):
    """omitted axes have no padding"""
    for dim in (1, 2):
        K = {"NRLib::FindGaussianFieldPadding": c_pad}
        K.update(GETTERS)
        ex = c.exec(K)
        st = State()
        lv = abstract_vario(ex, st, c.P)
        N = [I("nx"), I("ny")][:dim]
        D = [R("dx"), R("dy")][:dim]
        st.assume(N[0] >= 1)
        if dim == 2:
            st.assume(N[1] > 1)
        for d in D:
            st.assume(d > 0)
        positive(st, "rx", "ry", "rz")
        c.cover(ex, st, "%d axes given" % dim)
        r = ex.call_func(c.fn("NRLib::FindNDimPadding"), None, [Arg(lv=lv)] + [Arg(val=x) for p in zip(N, D) for x in p] + [Arg()] * (6 - 2 * dim), st, None)
        if not isinstance(r, ListV):
            raise ToolLimit("padding vector has a symbolic length")
        ex.oblige(st, z3.BoolVal(len(r.items) == dim), "one entry per given axis (%d)" % dim, where="NRLib::FindNDimPadding")


def u_ratio(ty):
    def run(c):
        ex = c.exec()
        st = State()
        lv = make_vario(c, ex, st, ty)
        c.cover(ex, st, "valid parameters")
        r = call(ex, st, lv, V + "::GetMinimumRangeToGridRatio", [])
        ex.oblige(st, r == RATIO[ty], "range-to-grid ratio", where=V + "::GetMinimumRangeToGridRatio")
    return run


def rep(env, o):
    g = lambda n, d: env.get(n, d)
    nx, ny, nz = (int(g(n, 1)) for n in ("nx", "ny", "nz"))
    if "n" in env:
        nx = int(env["n"])
    rx = float(g("rx", g("range", 10)))
    ry, rz = float(g("ry", rx)), float(g("rz", rx))
    dx = float(g("dx", g("step", 1)))
    for ty in ("spherical", "gaussian"):
        for azi in (0.0, 30.0, 45.0):
            for dip in (0.0, 20.0):
                yield "size %s 1.5 %r %r %r %r %r %d %r %d %r %d %r" % (ty, rx, ry, rz, azi, dip, max(nx, 1), dx, max(ny, 1), abs(float(g("dy", 1))) or 1.0, max(nz, 1), abs(float(g("dz", 1))) or 1.0)


def units():
    us = [(API, Unit("FindGaussianFieldPadding", u_pad, replay=rep, tmo=120, budgets=(10000, 5000, 15000)))]
    for d in (1, 2, 3):
        us.append((API, Unit("FindNDimPadding [%dD]" % d, u_ndim(d, False), replay=rep, tmo=60)))
        us.append((API, Unit("simulation_size [%dD]" % d, u_ndim(d, True), replay=rep, tmo=60)))
    us.append((API, Unit("FindNDimPadding [axes omitted]", u_omitted, replay=rep, tmo=60)))
    for ty in TYPES:
        us.append((API, Unit("GetMinimumRangeToGridRatio [%s]" % ty, u_ratio(ty), replay=rep, tmo=60)))
    return us


PYT = ["constant", "exponential", "spherical", "gaussian", "general_exponential", "matern32", "matern52", "matern72"]


def gen(rng, budget, tier):
    n = {"std": 3000, "deep": 30000}[budget]
    for _ in range(n):
        ty = rng.choice(PYT)
        dim = rng.randint(1, 3)
        N = [rng.choice([1, 2, 3, 5, 10, 17, 100, 257, 1000, rng.randint(1, 5000)]) for _ in range(3)]
        if dim < 2:
            N[1] = rng.choice([0, 1])
        elif N[1] <= 1:
            N[1] = 2
        if dim < 3:
            N[2] = rng.choice([0, 1])
        elif N[2] <= 1:
            N[2] = 2
        if N[1] <= 1 and rng.random() < .3:
            N[2] = rng.randint(2, 30)
        D = [rng.choice([1.0, .5, 10.0, 25.0, 10 ** rng.uniform(-2, 2)]) for _ in range(3)]
        Rg = [D[k] * rng.choice([.3, 1, 5, 25, 60, 10 ** rng.uniform(-1, 3)]) for k in range(3)]
        azi = rng.choice([0.0, 0.0, 30.0, 90.0, 180.0, 360.0, rng.uniform(-180, 180), 1e-9])
        dip = rng.choice([0.0, 0.0, 30.0, rng.uniform(-90, 90)])
        yield "size %s %r %r %r %r %r %r %d %r %d %r %d %r" % (ty, rng.choice([1.5, 2.0, 1.0, rng.uniform(.5, 2)]), *Rg, azi, dip, N[0], D[0], N[1], D[1], N[2], D[2])


def harness(scratch):
    return PyHarness(scratch, "py_size.py", gen, "random variograms of all types, grids of 1-3 dimensions, resolutions and angles: simulation_size against the documented formula")
