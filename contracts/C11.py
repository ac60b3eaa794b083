"""C11: the Python-facing simulate functions: dispatch on the dimension, arguments, shape and order of the result."""
from .lib import *
from cxxvc.harness import PyHarness

AX = "xyz"
FIELD = [z3.Function("field%d" % d, T.Int, T.Real) for d in (1, 2, 3)]


def rec(st, name, vals):
    st.ghost["calls"] = st.ghost.get("calls", ()) + ((name, tuple(vals)),)


def val(ex, st, a):
    v = ex.argval(a, st)
    return norm(v) if z3.is_expr(v) else v


def c_sim(dim):
    """contract of Simulate<dim>DGaussianField (C10): appends/fills a field of the requested size"""
    def run(ex, st, f, this, args):
        a = [val(ex, st, x) if x.lv is None or k not in (0,) else x.lv for k, x in enumerate(args)]
        vario = args[0].lv
        if dim == 1:
            n, d, out = val(ex, st, args[1]), val(ex, st, args[2]), args[3].lv
            rec(st, 1, [vario, [n], [d], val(ex, st, args[4]), [val(ex, st, args[5])], [val(ex, st, args[6])]])
            ex.oblige(st, M.vsize(ex.load(st, out)) == n, "result vector allocated before the one-dimensional simulation", where="NRLib::Simulate1DGaussianField (precondition)")
            ex.store(st, out, ArrV("double", Base("fn", lambda i: FIELD[0](i)), (), M.vsize(ex.load(st, out))))
            return None
        if dim == 2:
            n, d = [val(ex, st, args[k]) for k in (1, 3)], [val(ex, st, args[k]) for k in (2, 4)]
            fields, out, rg, rest = val(ex, st, args[5]), args[6].lv, val(ex, st, args[7]), [val(ex, st, x) for x in args[8:]]
            cls = "NRLib::Grid2D<double>"
        else:
            n, d = [val(ex, st, args[k]) for k in (1, 3, 5)], [val(ex, st, args[k]) for k in (2, 4, 6)]
            fields, out, rg, rest = val(ex, st, args[7]), args[8].lv, None, [val(ex, st, x) for x in args[9:]]
            cls = "NRLib::Grid<double>"
        if not T.is_num(fields) or T.num(fields) < 1:
            raise ToolLimit("number of fields")
        rec(st, dim, [vario, n, d, rg, rest[:dim], rest[dim:]])
        old = ex.load(st, out)
        if not isinstance(old, ListV):
            raise ToolLimit("fields list")
        items = list(old.items)
        for k in range(int(T.num(fields))):
            o = ex.construct(cls, [Arg(val=x) for x in n], st, None)
            l = ex.alloc(st, o, "fld")
            # the field at (i,j,..) is FIELD(i + n0*(j + ..)): written through the real element accessor
            F = FIELD[dim - 1] if k == 0 else z3.Function("other%d" % k, T.Int, T.Real)
            for p, leaf in leaves(ex.load(st, l)):
                if isinstance(leaf, ArrV):
                    ex.store(st, l, set_leaf(ex.load(st, l), p, ArrV(leaf.elem, Base("fn", lambda i, F=F: F(i)), (), leaf.size)))
            items.append(ex.load(st, l))
        ex.store(st, out, ListV(old.elem, items))
        return None
    return run


def vptr(ex, st, c):
    lv = abstract_vario(ex, st, c.P)
    return lv, Arg(val=PtrV(lv.root, lv.path))


def grid_order(c):
    """the flat storage of Grid2D / Grid is Fortran ordered: element (i,j,k) at i + nx*(j + ny*k)  (also C15)"""
    for dim, cls in ((2, "NRLib::Grid2D<double>"), (3, "NRLib::Grid<double>")):
        ex = c.exec()
        st = State()
        n = [I("n" + a) for a in AX[:dim]]
        ix = [I("i" + a) for a in AX[:dim]]
        for k in range(dim):
            st.assume(n[k] >= 1)
            st.assume(ix[k] >= 0)
            st.assume(ix[k] < n[k])
        c.cover(ex, st, "index inside")
        l = ex.alloc(st, ex.construct(cls, [Arg(val=x) for x in n], st, None), "g")
        F = FIELD[dim - 1]
        for p, leaf in leaves(ex.load(st, l)):
            if isinstance(leaf, ArrV):
                ex.store(st, l, set_leaf(ex.load(st, l), p, ArrV(leaf.elem, Base("fn", lambda i: F(i)), (), leaf.size)))
        flat, m = ix[0], n[0]
        for k in range(1, dim):
            flat = flat + m * ix[k]
            m = m * n[k]
        ex.oblige(st, at(ex, st, l, ix) == F(norm(flat)), "element (i,j..) is storage element i + nx*(j + ..)", where=cls + "::operator()")
        g = [f for f in ex.prog.byq[cls + "::GetStorage"] if f.const]
        r = ex.call_func(g[0], l, [], st, None)
        v = ex.load(st, r) if isinstance(r, LV) else r
        ex.oblige(st, M.vsize(v) == norm(m), "storage size", where=cls + "::GetStorage")
        t = I("t")
        st.assume(t >= 0)
        st.assume(t < m)
        ex.oblige(st, ex.elem(st, v, t) == F(t), "GetStorage returns the storage", where=cls + "::GetStorage")


def u_layer(dim):
    """GaussFFT::Simulate<dim>D"""
    def run(c):
        K = {"NRLib::Simulate%dDGaussianField" % d: c_sim(d) for d in (1, 2, 3)}
        ex = c.exec(K)
        st = State()
        lv, va = vptr(ex, st, c)
        N = [I("n" + a) for a in AX[:dim]]
        D = [R("d" + a) for a in AX[:dim]]
        P = [I("pad" + a) for a in AX[:dim]]
        S = [R("s" + a) for a in AX[:dim]]
        for n in N:
            st.assume(n >= 1)
        c.cover(ex, st, "any arguments")
        f = c.fn(G + "Simulate%dD" % dim)
        r = ex.call_func(f, None, [va] + [Arg(val=x) for p in zip(N, D) for x in p] + [Arg(val=x) for x in P + S], st, None)
        w = G + "Simulate%dD" % dim
        checkcall(ex, st, w, dim, lv, N, D, P, S)
        v = ex.load(st, r) if isinstance(r, LV) else r
        n = iv(1)
        for x in N:
            n = n * x
        ex.oblige(st, M.vsize(v) == norm(n), "result has nx*ny*nz values", where=w)
        t = I("t")
        st.assume(t >= 0)
        st.assume(t < n)
        ex.oblige(st, ex.elem(st, v, t) == FIELD[dim - 1](t), "result is the field in Fortran order", where=w)
    return run


def checkcall(ex, st, w, dim, lv, N, D, P, S):
    calls = st.ghost.get("calls", ())
    if len(calls) != 1:
        raise ToolLimit("%d simulations" % len(calls))
    d, (va, n, dd, rg, p, s) = calls[0]
    ex.oblige(st, z3.BoolVal(d == dim), "the %d-dimensional simulation runs" % dim, where=w)
    if d != dim:
        return
    same = va is not None and va.root == lv.root
    ex.oblige(st, z3.BoolVal(bool(same)), "the given variogram is simulated", where=w)
    for k in range(dim):
        ex.oblige(st, n[k] == N[k], "grid size along %s passed on" % AX[k], where=w)
        ex.oblige(st, dd[k] == D[k], "grid step along %s passed on" % AX[k], where=w)
        ex.oblige(st, p[k] == P[k], "padding along %s passed on" % AX[k], where=w)
        ex.oblige(st, s[k] == S[k], "smoothing along %s passed on" % AX[k], where=w)
    if dim < 3:
        ex.oblige(st, z3.BoolVal(rg is NULL or (isinstance(rg, PtrV) and rg.root is None)), "the global random state is used", where=w)


def c_layer(dim):
    """contract of GaussFFT::Simulate<dim>D, proved above"""
    def run(ex, st, f, this, args):
        va = val(ex, st, args[0])
        a = [val(ex, st, x) for x in args[1:]]
        n, d = a[0:2 * dim:2], a[1:2 * dim:2]
        rest = a[2 * dim:]
        rec(st, dim, [va, n, d, NULL, rest[:dim], rest[dim:]])
        m = iv(1)
        for x in n:
            m = m * x
        return ArrV("double", Base("fn", lambda i: FIELD[dim - 1](i)), (), norm(m))
    return run


def c_cast(ex, st, f, this, args):
    """assumed contract of pybind11::cast on a vector: an array with the same values"""
    return ex.argval(args[0], st)


def c_start(ex, st, f, this, args):
    return I("start_seed")


def u_dispatch(which, adv):
    """which: the case of (ny, dy, nz, dz)"""
    def run(c):
        K = {G + "Simulate%dD" % d: c_layer(d) for d in (1, 2, 3)}
        K["NRLib::Random::GetStartSeed"] = c_start
        K["pybind11::cast"] = c_cast
        ex = c.exec(K)
        st = State()
        lv, va = vptr(ex, st, c)
        N = [I("n" + a) for a in AX]
        D = [R("d" + a) for a in AX]
        P = [I("pad" + a) for a in AX]
        S = [R("s" + a) for a in AX]
        for n in N:
            st.assume(n >= 0)
        st.assume(N[0] >= 1)
        st.assume(D[0] > 0)
        dim = which[0]
        if which == "1a":
            st.assume(N[1] <= 1)
        elif which == "1b":
            st.assume(D[1] < 0)
        else:
            st.assume(N[1] > 1)
            st.assume(D[1] > 0)
            if which == "2a":
                st.assume(N[2] <= 1)
            elif which == "2b":
                st.assume(D[2] < 0)
            else:
                st.assume(N[2] > 1)
                st.assume(D[2] > 0)
        dim = int(dim)
        c.cover(ex, st, "case " + which)
        args = [va] + [Arg(val=x) for p in zip(N, D) for x in p]
        if adv:
            f = c.fn(G + "SimulateWithAdvancedSettings")
            args += [Arg(val=x) for x in P + S]
        else:
            f = c.fn(G + "Simulate")
            P, S = [None] * 3, [rv(1)] * 3
        r = ex.call_func(f, None, args, st, None)
        w = G + ("SimulateWithAdvancedSettings" if adv else "Simulate")
        calls = st.ghost.get("calls", ())
        if len(calls) != 1:
            raise ToolLimit("%d simulations" % len(calls))
        d, (v, n, dd, rg, p, s) = calls[0]
        ex.oblige(st, z3.BoolVal(d == dim), "the %d-dimensional simulation runs" % dim, where=w)
        if d != dim:
            return
        ex.oblige(st, z3.BoolVal(isinstance(v, PtrV) and v.root == lv.root), "the given variogram is simulated", where=w)
        for k in range(dim):
            ex.oblige(st, n[k] == N[k], "grid size along %s passed on" % AX[k], where=w)
            ex.oblige(st, dd[k] == D[k], "grid step along %s passed on" % AX[k], where=w)
            ex.oblige(st, p[k] == P[k] if adv else p[k] < 0, "padding along %s %s" % (AX[k], "passed on" if adv else "left to the default"), where=w)
            ex.oblige(st, s[k] == S[k], "smoothing along %s %s" % (AX[k], "passed on" if adv else "off"), where=w)
        v = ex.load(st, r) if isinstance(r, LV) else r
        if not isinstance(v, (ArrV, ListV)):
            raise ToolLimit("result is not the array of values")
        m = iv(1)
        for k in range(dim):
            m = m * N[k]
        ex.oblige(st, M.vsize(v) == norm(m), "result has the number of grid nodes", where=w)
        t = I("t")
        st.assume(t >= 0)
        st.assume(t < m)
        ex.oblige(st, ex.elem(st, v, t) == FIELD[dim - 1](t), "result is the field, Fortran order", where=w)
    return run


def units():
    us = [(API, Unit("storage order of the grids", grid_order, tmo=60))]
    for d in (1, 2, 3):
        us.append((API, Unit("GaussFFT::Simulate%dD" % d, u_layer(d), tmo=60)))
    for adv in (False, True):
        for w in ("1a", "1b", "2a", "2b", "3"):
            us.append((API, Unit("GaussFFT::%s [case %s]" % ("SimulateWithAdvancedSettings" if adv else "Simulate", w), u_dispatch(w, adv), tmo=60)))
    return us


def gen(rng, budget, tier):
    n = {"std": 400, "deep": 4000}[budget]
    for _ in range(n):
        dim = rng.choice([1, 2, 2, 3, 3])
        top = {1: 100, 2: 16, 3: 7}[dim]
        N = [rng.choice([2, 3, 5, rng.randint(1, top)]) for _ in range(3)]
        D = [rng.choice([1., .5, 10., rng.uniform(.1, 30)]) for _ in range(3)]
        if dim == 1:
            if rng.random() < .6:
                N[1] = rng.choice([0, 1])
            else:
                D[1] = -1.0
        else:
            N[1] = max(2, N[1])
        if dim == 2:
            if rng.random() < .6:
                N[2] = rng.choice([0, 1])
            else:
                D[2] = -1.0
        elif dim == 3:
            N[2] = max(2, N[2])
        if dim == 1 and rng.random() < .5:
            N[2] = rng.choice([0, 1, 4])
        rg = [D[0] * rng.choice([.7, 2, 4]) * rng.uniform(.5, 2) for _ in range(3)]
        azi, dip = (rng.choice([0., 0., rng.uniform(-180, 180)]) for _ in range(2))
        S = [rng.choice([1., .9, .3, rng.uniform(.01, 1)]) for _ in range(3)]
        P = [rng.choice([0, 1, 2, 5, rng.randint(0, top), -1]) for _ in range(3)]
        a = [rng.randint(0, 7), rng.choice([1., 1.5, 2.])] + rg + [azi, dip, N[0], D[0], N[1], D[1], N[2], D[2]] + P + S + [rng.randint(0, 2 ** 32 - 1)]
        yield "sim " + " ".join(map(repr, a))


def harness(scratch):
    return PyHarness(scratch, "py_sim.py", gen, "random variograms, grids, paddings, smoothing and seeds: every calling form of simulate / advanced.simulate against the core field by (i,j,k)", ref=("pyref.cpp", "_ref"))


TRUSTED = ["pybind11: argument conversion, keyword defaults and vector-to-array cast (sampled through the built module)"]
BOUNDED = ["the binding table (argument names, defaults, overloads) is exercised by the generated calls, not proved"]
