"""C10: the simulation: white noise filtered by the root of the spectrum of the covariance grid."""
from .lib import *
from . import C09
from .C09 import NSZ, c_size, events, dims_ok, inside, prod_lt, ctor_needs_default
from cxxvc.loops import arbitrary_iteration, evcond

AX = "xyz"
NORMAL = z3.Function("normal", T.Int, T.Int, T.Real)       # (stream seed, number of the draw) -> value
SEED = z3.Function("u32", T.Int, T.Int)
COV = z3.Function("Ycov", T.Int, T.Real)
PADS = [I("defpad_%s" % a) for a in AX]
GSTREAM = iv(-7)


def c_norm(ex, st, f, this, args):
    """contract of RandomGenerator::Norm01: the next normal deviate of this generator's stream"""
    o = ex.load(st, this)
    k = o.f["count"]
    ex.store(st, this, Rec(o.cls, {"stream": o.f["stream"], "count": norm(k + 1)}))
    return NORMAL(o.f["stream"], k)


def c_init(ex, st, f, this, args):
    o = ex.load(st, this)
    if len(args) != 1:
        raise ToolLimit("seedless generator")
    ex.store(st, this, Rec(o.cls, {"stream": ex.argval(args[0], st), "count": iv(0)}))


def c_ctor(ex, st, f, this, args):
    o = ex.load(st, this)
    s = ex.argval(args[0], st) if args else iv(-1)
    ex.store(st, this, Rec(o.cls, {"stream": s, "count": iv(0)}))


def c_draw(ex, st, f, this, args):
    k = st.ghost["gdraws"]
    st.ghost["gdraws"] = norm(k + 1)
    return SEED(k)


def c_gnorm(ex, st, f, this, args):
    k = st.ghost["gdraws"]
    st.ghost["gdraws"] = norm(k + 1)
    return NORMAL(GSTREAM, k)


def c_pad(ex, st, f, this, args):
    """contract of FindNDimPadding (C06): one positive padding per axis with more than one node"""
    a = [norm(ex.argval(x, st)) if not (x.val is None and x.lv is None) else None for x in args[1:]]
    st.ghost["padargs"] = st.ghost.get("padargs", ()) + (tuple(a),)
    return ListV("size_t", PADS[:st.ghost["dim"]])


def c_cov(dim):
    def run(ex, st, f, this, args):
        """contract of the covariance grid (C07, C08): a grid of the size asked for"""
        a = [norm(ex.argval(x, st)) for x in args[1:]]
        st.ghost["cov"] = st.ghost.get("cov", ()) + ((args[0], a),)
        n = [a[2 * k] for k in range(dim)]
        if dim == 1:
            g = ArrV("double", Base("fn", lambda i: COV(i)), (), n[0])
        else:
            l = C09.values(ex, st, dim, n, "cov")
            g = ex.load(st, l)
        o = ex.load(st, this)
        ex.store(st, this, Rec(o.cls, {"ghost_cov": g}))
    return run


def c_getcov(ex, st, f, this, args):
    return ex.load(st, this).f["ghost_cov"]


def contracts():
    K = {"NRLib::FindNDimPadding": c_pad, "NRLib::FindNewSizeWithPadding": c_size,
         "NRLib::RandomGenerator::Norm01": c_norm, "NRLib::RandomGenerator::Initialize": c_init, "NRLib::RandomGenerator::RandomGenerator": c_ctor,
         "NRLib::Random::DrawUint32": c_draw, "NRLib::Random::Norm01": c_gnorm}
    for d in (1, 2, 3):
        n = "NRLib::FFTCovGrid%dD" % d
        K[n + "::FFTCovGrid%dD" % d] = c_cov(d)
        K[n + "::GetCov"] = c_getcov
    return K


NF = I("nfields")


def field_rule(box):
    """the loop over the fields: an arbitrary iteration is kept for the obligations of an arbitrary field"""
    def rule(ex, st, cond, inc, body, kind):
        if kind != "for" or cond is None or not mentions(evcond(ex, st.clone(), cond), "nfields"):
            return None
        if "k" in box:
            raise ToolLimit("two loops over the fields")

        def visit(k, before, after):
            box.update(k=k, before=before.clone(), after=after.clone())
        box["n"] = arbitrary_iteration(ex, st, cond, inc, body, visit)
        return True
    return rule


def run_sim(c, dim, pads, fields=1, rg="null"):
    ex = c.exec(contracts())
    st = State()
    st.ghost["gdraws"] = iv(0)
    st.ghost["dim"] = dim
    v = abstract_vario(ex, st, c.P)
    N = [I("n" + a) for a in AX[:dim]]
    D = [R("d" + a) for a in AX[:dim]]
    S = [R("s" + a) for a in AX[:dim]]
    A = [I("pad" + a) for a in AX[:dim]]
    for k in range(dim):
        st.assume(N[k] >= 1)
        st.assume(PADS[k] >= 1)
        st.assume(D[k] > 0)
        if k:
            st.assume(N[k] > 1)
        st.assume(A[k] >= 0 if pads else A[k] < 0)
    c.cover(ex, st, "any sizes")
    if rg == "null":
        rga = Arg(val=NULL)
    else:
        rl = ex.alloc(st, Rec("NRLib::RandomGenerator", {"stream": I("rgstream"), "count": I("rgcount")}), "rg")
        st.assume(I("rgcount") >= 0)
        rga = Arg(val=PtrV(rl.root, rl.path))
    nd = [Arg(val=x) for p in zip(N, D) for x in p]
    tail = [Arg(val=x) for x in A + S]
    nf = iv(fields) if isinstance(fields, int) else NF
    if not isinstance(fields, int):
        st.assume(NF >= 0)
        ex.loop_rule = field_rule(fields)
    if dim == 1:
        f = c.fn("NRLib::Simulate1DGaussianField")
        out, _ = C09.vec(ex, st, "out0", N[0])
        args = [Arg(lv=v)] + nd + [Arg(lv=out), rga] + tail
    elif dim == 2:
        f = c.fn("NRLib::Simulate2DGaussianField", 12)
        out = ex.alloc(st, ListV("NRLib::Grid2D<double>", []), "out")
        args = [Arg(lv=v)] + nd + [Arg(val=nf), Arg(lv=out), rga] + tail
    else:
        f = c.fn("NRLib::Simulate3DGaussianField")
        out = ex.alloc(st, ListV("NRLib::Grid<double>", []), "out")
        args = [Arg(lv=v)] + nd + [Arg(val=nf), Arg(lv=out)] + tail
    ex.call_func(f, None, args, st, None)
    return ex, st, v, N, D, S, A, out, f.qname if hasattr(f, "qname") else "NRLib::Simulate%dDGaussianField" % dim


def mentions(t, name):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not z3.is_expr(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == name:
            return True
        todo += x.children()
    return False


def unit(dim, pads, fields=1, rg="null"):
    def run(c):
        ex, st, v, N, D, S, A, out, w = run_sim(c, dim, pads, fields, rg)
        pad = [A[k] if pads else PADS[k] for k in range(dim)]
        tot = [NSZ(norm(N[k] + pad[k]), z3.BoolVal(k == 0 and dim > 1)) for k in range(dim)]
        # --- the padding and covariance contracts are called with this simulation's parameters
        for a in st.ghost.get("padargs", ()):
            for k in range(dim):
                ex.oblige(st, z3.And(a[2 * k] == N[k], a[2 * k + 1] == D[k]), "default padding asked for this grid along %s" % AX[k], where=w)
        cov = st.ghost.get("cov", ())
        if len(cov) != 1:
            raise ToolLimit("%d covariance grids" % len(cov))
        (va, a), = cov
        ex.oblige(st, z3.BoolVal(va.lv is not None and va.lv.root == v.root), "covariance of the given variogram", where=w)
        for k in range(dim):
            ex.oblige(st, a[2 * k] == tot[k], "covariance grid has the padded size along %s" % AX[k], where=w)
            ex.oblige(st, a[2 * k + 1] == D[k], "covariance grid has the step along %s" % AX[k], where=w)
            ex.oblige(st, a[2 * dim + k] == S[k], "covariance grid has the smoothing factor along %s" % AX[k], where=w)
        n = iv(1)
        for t in tot:
            n = n * t
        n = norm(n)
        cn = [norm(tot[0] / iv(2) + 1)] + tot[1:] if dim > 1 else [tot[0]]
        ncn = iv(1)
        for t in cn:
            ncn = ncn * t
        ncn = norm(ncn)
        if dim == 1:
            half = norm(tot[0] / iv(2) + 1)
        end = st
        if isinstance(fields, dict):
            if "k" not in fields:
                raise ToolLimit("no loop over the fields")
            ex.oblige(end, fields["n"] == NF, "one iteration per field", where=w)
            st = fields["after"]
        ev = list(st.ghost.get("fft", ()))
        if len(ev) != 1 + 2 * (1 if isinstance(fields, dict) else fields):
            raise ToolLimit("%d transforms" % len(ev))
        probe = I("t")
        ecov = [e for e in ev if e.kind == "r2c" and mentions(ex.elem(st.clone(), e.inp, norm(e.ioff + probe)), "Ycov")]
        if len(ecov) != 1:
            raise ToolLimit("no unique transform of the covariance grid")
        ecov = ecov[0]
        rest = [e for e in ev if e is not ecov]
        # --- covariance spectrum
        dims_ok(ex, st, ecov, tot, w, "covariance transform")
        i = I("t")
        ix = [I("a" + x) for x in AX[:dim]]
        flat = lambda d: C09.Grid.flat(None, ix, d) if dim > 1 else ix[0]
        s = st.clone()
        inside(s, ix, tot)
        prod_lt(s, ix, tot)
        s.assume(n >= 1)
        ex.oblige(s, ex.elem(s, ecov.inp, norm(ecov.ioff + flat(tot))) == covat(ex, s, dim, tot, ix), "every covariance node enters its transform, unscaled", where=w)
        rs = 1 / sqrt(z3.ToReal(n))
        for m in ([fields["k"]] if isinstance(fields, dict) else range(fields)):
            en, ei = rest[:2] if isinstance(fields, dict) else rest[2 * m:2 * m + 2]
            ex.oblige(st, z3.BoolVal(en.kind == "r2c" and ei.kind == "c2r"), "noise transformed forward, then the product back", where=w)
            dims_ok(ex, st, en, tot, w, "noise transform")
            dims_ok(ex, st, ei, tot, w, "inverse transform")
            # --- noise: one deviate per node, last index fastest
            s = st.clone()
            inside(s, ix, tot)
            prod_lt(s, ix, tot)
            s.assume(n >= 1)
            order = ix[0]
            for k in range(1, dim):
                order = order * tot[k] + ix[k]
            if dim == 3:
                draw = NORMAL(GSTREAM, norm(order + m * n))
            elif rg == "null":
                draw = NORMAL(SEED(iv(0)), norm(order + m * n))
            else:
                draw = NORMAL(I("rgstream"), norm(I("rgcount") + order + m * n))
            ex.oblige(s, ex.elem(s, en.inp, norm(en.ioff + flat(tot))) == draw * rs, "noise: one new normal deviate per node, scaled by 1/sqrt(n)", where=w)
            # --- product of the spectra
            s = st.clone()
            s.assume(i >= 0)
            s.assume(i < (half if dim == 1 else ncn))
            if dim == 1:
                s.assume(i < tot[0])
            z = ex.elem(s, ei.inp, norm(ei.ioff + i))
            p = ecov.fre(i)
            root = sqrt(z3.If(p < 0, rv(0), p))
            ex.oblige(s, z.f["re"] == en.fre(i) * root, "spectrum of the field = noise spectrum * sqrt(max(covariance spectrum, 0)) (re)", where=w)
            ex.oblige(s, z.f["im"] == en.fim(i) * root, "spectrum of the field = noise spectrum * sqrt(max(covariance spectrum, 0)) (im)", where=w)
            # --- output
            s = st.clone()
            inside(s, ix, N)
            prod_lt(s, ix, N)
            prod_lt(s, ix, tot)
            s.assume(n >= 1)
            val = outat(ex, s, dim, out, m, fields, N, ix, w, st)
            ex.oblige(s, val == ei.f(flat(tot)) * rs, "field %d is the corner of the inverse transform, scaled by 1/sqrt(n)" % (0 if isinstance(fields, dict) else m), where=w)
        # --- draws from the global stream
        st = end
        if dim == 3:
            ex.oblige(st, st.ghost["gdraws"] == norm((NF if isinstance(fields, dict) else fields) * n), "one global deviate per node and field", where=w)
        else:
            ex.oblige(st, st.ghost["gdraws"] == (1 if rg == "null" else 0), "seed drawn once from the global stream" if rg == "null" else "global stream untouched", where=w)
    return run


def covat(ex, st, dim, tot, ix):
    if dim == 1:
        return COV(ix[0])
    # the contents of the contract's grid at (i,j..): first index fastest (C15)
    return COV(C09.Grid.flat(None, ix, tot))


def outat(ex, st, dim, out, m, fields, N, ix, w, st0):
    v = ex.load(st, out)
    if dim == 1:
        ex.oblige(st0, M.vsize(v) == N[0], "field has the requested length", where=w)
        return ex.elem(st, v, ix[0])
    if not isinstance(v, ListV):
        raise ToolLimit("fields not a list")
    if isinstance(fields, dict) and not isinstance(v, PrefixV):
        raise ToolLimit("fields are not appended one by one")
    ex.oblige(st0, z3.BoolVal(len(v.items) == (1 if isinstance(fields, dict) else fields)), "one grid per field", where=w)
    g = v.items[0 if isinstance(fields, dict) else m]
    m = 0 if isinstance(fields, dict) else m
    l = ex.alloc(st, g, "f%d" % m)
    l0 = ex.alloc(st0, g, "f%d" % m)
    for k, mm in enumerate(("GetNI", "GetNJ", "GetNK")[:dim]):
        f = [f for f in ex.prog.byq[g.cls + "::" + mm] if not f.params][0]
        ex.oblige(st0, ex.call_func(f, l0, [], st0, None) == N[k], "field has the requested size along %s" % AX[k], where=w)
    return at(ex, st, l, ix)


def u_defaults(c):
    """omitted arguments: automatic padding (negative), no smoothing (scaling one), no generator of the caller's"""
    for name, n in (("Simulate1DGaussianField", None), ("Simulate2DGaussianField", 12), ("Simulate3DGaussianField", None)):
        f = c.fn("NRLib::" + name, n) if n else c.fn("NRLib::" + name)
        ex = c.exec()
        st = State()
        some = False
        for i, p in enumerate(f.params):
            try:
                d = ex.default_arg(f, i)
            except ToolLimit:
                continue
            v = ex.ev(d, st)
            if isinstance(v, z3.ExprRef):
                some = True
                if "double" in p["type"]["qualType"]:
                    ex.oblige(st, v == 1, "%s: omitted smoothing factor is one (argument %d)" % (name, i + 1), where="NRLib::" + name)
                else:
                    ex.oblige(st, v < 0, "%s: omitted padding is automatic (argument %d)" % (name, i + 1), where="NRLib::" + name)
            elif isinstance(v, PtrV):
                ex.oblige(st, z3.BoolVal(v is NULL or v == NULL), "%s: no generator by default" % name, where="NRLib::" + name)
        if not some:
            raise ToolLimit("default arguments of " + name)
    c.cover(ex, st, "omitted arguments")


def u_single(c):
    """the one-field form gives the first field of the many-field form with the same arguments and everything else omitted"""
    got = []

    def c_many(ex, st, f, this, args):
        if len(f.params) != 12:
            return NotImplemented
        v = [ex.argval(a, st) if a.val is not None else a.lv if a.lv is not None else None for a in args]
        v += [None] * (12 - len(v))
        got.append((st.clone(), args, v))
        l = C09.values(ex, st, 2, [I("gx"), I("gy")], "field")
        ex.store(st, args[6].lv, ListV("NRLib::Grid2D<double>", [ex.load(st, l)]))
        return None

    K = contracts()
    K["NRLib::Simulate2DGaussianField"] = c_many
    K["NRLib::Random::GetStartSeed"] = lambda ex, st, f, this, args: I("startseed")
    ex = c.exec(K)
    st = State()
    st.ghost["gdraws"] = iv(0)
    st.ghost["dim"] = 2
    v = abstract_vario(ex, st, c.P)
    for h in (I("nx") >= 1, I("ny") > 1, R("dx") > 0, R("dy") > 0, I("gx") >= 1, I("gy") >= 1):
        st.assume(h)
    c.cover(ex, st, "any sizes")
    out = ex.alloc(st, ex.construct("NRLib::Grid2D<double>", [], st, None), "out")
    w = "NRLib::Simulate2DGaussianField"
    ex.call_func(c.fn(w, 6), None, [Arg(lv=v), Arg(val=I("nx")), Arg(val=R("dx")), Arg(val=I("ny")), Arg(val=R("dy")), Arg(lv=out)], st, None)
    if not got:
        raise ToolLimit("the one-field form does not use the many-field form")
    for s, args, a in got:
        ex.oblige(s, z3.BoolVal(args[0].lv is not None and args[0].lv.root == v.root), "same variogram", where=w)
        for k, x in ((1, I("nx")), (2, R("dx")), (3, I("ny")), (4, R("dy"))):
            ex.oblige(s, a[k] == x, "same size and step (argument %d)" % (k + 1), where=w)
        ex.oblige(s, a[5] >= 1, "at least one field", where=w)
        for k in (8, 9):
            if a[k] is not None:
                ex.oblige(s, a[k] < 0, "automatic padding", where=w)
        for k in (10, 11):
            if a[k] is not None:
                ex.oblige(s, a[k] == 1, "no smoothing", where=w)
    i, j = I("i"), I("j")
    for h in (i >= 0, i < I("gx"), j >= 0, j < I("gy")):
        st.assume(h)
    l = C09.values(ex, st, 2, [I("gx"), I("gy")], "field")
    ex.oblige(st, at(ex, st, out, [i, j]) == at(ex, st, l, [i, j]), "the field is the first one simulated", where=w)


def units():
    us = [(CORE, Unit("Simulate*GaussianField [omitted arguments]", u_defaults, tmo=60)), (CORE, Unit("Simulate2DGaussianField [one field]", u_single, tmo=60))]
    for d in (1, 2, 3):
        for p in (False, True):
            us.append((CORE, Unit("Simulate%dDGaussianField [%s padding]" % (d, "given" if p else "default"), unit(d, p), tmo=300)))
    us.append((CORE, Unit("Simulate2DGaussianField [any number of fields]", unit(2, False, {}), tmo=300)))
    us.append((CORE, Unit("Simulate3DGaussianField [any number of fields]", unit(3, False, {}), tmo=300)))
    us.append((CORE, Unit("Simulate2DGaussianField [any number of fields, caller's generator]", unit(2, False, {}, "given"), tmo=300)))
    us.append((CORE, Unit("Simulate2DGaussianField [two fields]", unit(2, False, 2), tmo=300)))
    us.append((CORE, Unit("Simulate3DGaussianField [two fields]", unit(3, False, 2), tmo=300)))
    us.append((CORE, Unit("Simulate2DGaussianField [caller's generator]", unit(2, False, 1, "given"), tmo=300)))
    us.append((CORE, Unit("Simulate1DGaussianField [caller's generator]", unit(1, False, 1, "given"), tmo=300)))
    return us


def gen(rng, budget, tier):
    n = {"std": 500, "deep": 5000}[budget]
    for q in range(n):
        dim = rng.choice([1, 2, 2, 3, 3])
        top = {1: 120, 2: 20, 3: 8}[dim]
        N = [rng.choice([2, 3, 5, rng.randint(1, top)]) for _ in range(3)]
        if dim > 1:
            N[1] = max(N[1], 2)
        if dim > 2:
            N[2] = max(N[2], 2)
        D = [rng.choice([1., .5, 10., rng.uniform(.1, 30)]) for _ in range(3)]
        rg = [D[0] * rng.choice([.7, 2, 4, 6]) * rng.uniform(.5, 2) for _ in range(3)]
        azi, dip = (rng.choice([0., 0., rng.uniform(-3.2, 3.2)]) for _ in range(2))
        S = [rng.choice([1., 1., 1., .9, .3, rng.uniform(.01, 1)]) for _ in range(3)]
        k = rng.random()
        P = [-1] * 3 if k < .3 else [rng.choice([0, 1, 2, 5, rng.randint(0, top), -1 if k < .5 else 3]) for _ in range(3)]
        ty = rng.choice([1, 2, 3, 4, 5, 6, 7, 0])
        mode = rng.choice([0, 0, 1, 2 if dim == 2 else 0])
        if mode == 2:
            S, P = [1.] * 3, [-1] * 3
        pr = [rng.choice([1., 1.5, 2.])] + rg + [azi, dip, rng.choice([1., 2., .5])]
        yield "sim %d %d %s %s %d %d %d" % (dim, ty, " ".join(map(repr, pr)), " ".join("%d %r %d %r" % t for t in list(zip(N, D, P, S))[:dim]), rng.choice([1, 1, 1, 2, 3, 7 if max(N) < 12 else 2]), mode, rng.randint(0, 2 ** 32 - 1))


SRCS = ["nrlib/variogram/gaussianfield.cpp", "nrlib/variogram/fftcovgrid.cpp", "nrlib/variogram/variogram.cpp", "nrlib/variogram/variogramtypes.cpp",
        "nrlib/fft/fft.cpp", "nrlib/fft/fftgrid2d.cpp", "nrlib/fft/fftgrid3d.cpp", "nrlib/random/random.cpp", "nrlib/random/randomgenerator.cpp", "nrlib/random/dSFMT.cpp"]


def harness(scratch):
    return Harness(scratch, "sim.cpp", SRCS, gen, "random variograms, grids, paddings, smoothing factors and seeds in 1-3 dimensions: every node of every field against a naive-DFT reference")


TRUSTED = ["FFTW computes the unnormalised DFT of the planned size"]
ASSUMPTIONS = ["grid sizes fit in 31 bits"]
