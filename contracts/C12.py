"""C12: seeding and reproducibility."""
from .lib import *
from cxxvc.execu import Thrown
from cxxvc.harness import PyHarness
from . import C10, C11

RN, RG = "NRLib::Random", "NRLib::RandomGenerator"
# the pseudo-random generator: value number k of the stream started with a seed
U32 = z3.Function("mt_u32", T.Int, T.Int, T.Int)
CO = z3.Function("mt_close_open", T.Int, T.Int, T.Real)
OO = z3.Function("mt_open_open", T.Int, T.Int, T.Real)
GV = "glob:ghost_mt"


def mt(ex, st, args):
    """the ghost state of the generator addressed: the global one or the member of an object"""
    if not args:
        if GV not in st.store:
            st.store[GV] = Rec("mt", {"stream": I("stream0"), "count": I("count0")})
        return LV(GV)
    p = ex.argval(args[0], st)
    if not isinstance(p, PtrV):
        raise ToolLimit("generator state pointer")
    return ex.deref(p, st)


def c_init(glob):
    def run(ex, st, f, this, args):
        l = mt(ex, st, [] if glob else args[:1])
        s = ex.argval(args[-1], st)
        ex.store(st, l, Rec("mt", {"stream": s, "count": iv(0)}))
    return run


def c_draw(F, glob):
    def run(ex, st, f, this, args):
        l = mt(ex, st, [] if glob else args[:1])
        o = ex.load(st, l)
        if not (isinstance(o, Rec) and "stream" in o.f):
            raise ToolLimit("draw from an unseeded generator")
        ex.store(st, l, Rec("mt", {"stream": o.f["stream"], "count": norm(o.f["count"] + 1)}))
        r = F(o.f["stream"], o.f["count"])
        if F is U32:
            st.assume(z3.And(r >= 0, r < 2 ** 32))
        else:
            st.assume(z3.And(r >= 0, r < 1))
            if F is OO:
                st.assume(r > 0)
        return r
    return run


MT = {}
for _n, _F in (("uint32", U32), ("close_open", CO), ("open_open", OO)):
    MT["dsfmt_genrand_" + _n] = c_draw(_F, False)
    MT["dsfmt_gv_genrand_" + _n] = c_draw(_F, True)
MT["dsfmt_init_gen_rand"] = c_init(False)
MT["dsfmt_gv_init_gen_rand"] = c_init(True)
MT["time"] = lambda ex, st, f, this, args: I("now")


def glob(st, name):
    return st.store.get("glob:%s::%s" % (RN, name))


def setg(st, name, v):
    st.store["glob:%s::%s" % (RN, name)] = v


def fresh(c, init=None):
    ex = c.exec(MT)
    st = State()
    st.store[GV] = Rec("mt", {"stream": I("stream0"), "count": I("count0")})
    setg(st, "start_seed_", I("old_seed"))
    setg(st, "is_initialized_", z3.Bool("was_init") if init is None else z3.BoolVal(init))
    st.assume(I("now") >= 0)
    st.assume(I("now") < 2 ** 32)
    st.assume(I("seed") >= 0)
    st.assume(I("seed") < 2 ** 32)
    return ex, st


def bit(v):
    return v if z3.is_bool(v) else v != 0


def fnp(c, q, n, pred=lambda f: True):
    fs = [f for f in c.P.find(q, n) if pred(f)]
    if len(fs) != 1:
        raise ToolLimit("%d candidates for %s/%d" % (len(fs), q, n))
    return fs[0]


def isint(f):
    return "basic_string" not in str(f.params[0].get("type", {})) and "std::string" not in str(f.params[0].get("type", {}))


def u_seed(c):
    w = RN + "::Initialize"
    ex, st = fresh(c)
    c.cover(ex, st, "any earlier state")
    ex.call_func(fnp(c, w, 1, isint), None, [Arg(val=I("seed"))], st, None)
    m = ex.load(st, LV(GV))
    ex.oblige(st, m.f["stream"] == I("seed"), "the stream is the seed's stream", where=w)
    ex.oblige(st, m.f["count"] == 0, "the stream is at its beginning", where=w)
    s2 = st.clone()
    try:
        r = ex.call_func(fnp(c, RN + "::GetStartSeed", 0), None, [], s2, None)
        ex.oblige(s2, r == I("seed"), "the reported seed is the seed set", where=RN + "::GetStartSeed")
        for t in ex.throws[0]:
            ex.oblige(t, z3.BoolVal(False), "the seed can be asked for after seeding", where=RN + "::GetStartSeed")
    except Thrown:
        ex.oblige(st, z3.BoolVal(False), "the seed can be asked for after seeding", where=RN + "::GetStartSeed")


def u_auto(c):
    w = RN + "::Initialize"
    ex, st = fresh(c)
    c.cover(ex, st, "any earlier state")
    ex.call_func(fnp(c, w, 0), None, [], st, None)
    m = ex.load(st, LV(GV))
    s2 = st.clone()
    try:
        r = ex.call_func(fnp(c, RN + "::GetStartSeed", 0), None, [], s2, None)
    except Thrown:
        ex.oblige(st, z3.BoolVal(False), "the seed can be asked for after automatic seeding", where=w)
        return
    for t in ex.throws[0]:
        ex.oblige(t, z3.BoolVal(False), "the seed can be asked for after automatic seeding", where=w)
    ex.oblige(s2, m.f["stream"] == r, "the reported seed reproduces the stream", where=w)
    ex.oblige(s2, m.f["count"] == 0, "the stream is at its beginning", where=w)
    ex.oblige(s2, z3.And(r >= 0, r < 2 ** 32), "the reported seed is a 32-bit number", where=w)


def u_get(c):
    w = RN + "::GetStartSeed"
    f = fnp(c, w, 0)
    ex, st = fresh(c, True)
    c.cover(ex, st, "initialised")
    b = {k: v for k, v in st.store.items()}
    r = ex.call_func(f, None, [], st, None)
    ex.oblige(st, r == I("old_seed"), "returns the last seed", where=w)
    same(ex, st, w)
    ex, st = fresh(c, False)
    try:
        ex.call_func(f, None, [], st, None)
        ex.oblige(st, z3.BoolVal(False), "asking for the seed before seeding is an error", where=w)
    except Thrown:
        pass
    ex.oblige(st, z3.BoolVal(len(ex.throws[0]) == 1), "asking for the seed before seeding is an error", where=w)


def same(ex, st, w, count=0):
    m = ex.load(st, LV(GV))
    ex.oblige(st, m.f["stream"] == I("stream0"), "same stream", where=w)
    ex.oblige(st, m.f["count"] == I("count0") + count, "the stream advances by %d" % count, where=w)
    ex.oblige(st, glob(st, "start_seed_") == I("old_seed"), "reported seed unchanged", where=w)


def u_draws(c):
    for m, F in (("Unif01", CO), ("DrawUint32", U32), ("Unif01Open", OO)):
        w = RN + "::" + m
        ex, st = fresh(c, True)
        c.cover(ex, st, "any state")
        r = ex.call_func(fnp(c, w, 0), None, [], st, None)
        ex.oblige(st, r == F(I("stream0"), I("count0")), "%s is the next value of the global stream" % m, where=w)
        same(ex, st, w, 1)


def state_of(ex, st, lv):
    o = ex.load(st, lv)
    ms = [(k, v) for k, v in o.f.items() if isinstance(v, Rec) and "stream" in v.f]
    if len(ms) != 1:
        raise ToolLimit("generator object has no unique stream")
    return ms[0][1]


def u_gen(how):
    def run(c):
        ex, st = fresh(c)
        c.cover(ex, st, "any state")
        w = RG
        if how == "ctor":
            lv = ex.alloc(st, ex.construct(RG, [Arg(val=I("seed"))], st, None), "rg")
        else:
            lv = ex.alloc(st, ex.construct(RG, [], st, None), "rg")
            if how == "seed":
                ex.call_func(fnp(c, RG + "::Initialize", 1), lv, [Arg(val=I("seed"))], st, None)
            elif how == "reseed":
                ex.call_func(fnp(c, RG + "::Initialize", 1), lv, [Arg(val=I("other"))], st, None)
                for _ in range(3):
                    ex.call_func(fnp(c, RG + "::DrawUint32", 0), lv, [], st, None)
                ex.call_func(fnp(c, RG + "::Initialize", 1), lv, [Arg(val=I("seed"))], st, None)
            else:
                ex.call_func(fnp(c, RG + "::Initialize", 0), lv, [], st, None)
        m = state_of(ex, st, lv)
        r = ex.call_func(fnp(c, RG + "::GetStartSeed", 0), lv, [], st, None)
        for t in ex.throws[0]:
            ex.oblige(t, z3.BoolVal(False), "the seed can be asked for after seeding", where=w)
        ex.oblige(st, r == (I("seed") if how != "auto" else m.f["stream"]), "reported seed", where=w)
        ex.oblige(st, m.f["stream"] == r, "the stream is the reported seed's stream", where=w)
        ex.oblige(st, m.f["count"] == 0, "the stream is at its beginning", where=w)
        same(ex, st, w)
        for k, (meth, F) in enumerate((("Unif01", CO), ("DrawUint32", U32), ("Unif01Open", OO))):
            v = ex.call_func(fnp(c, RG + "::" + meth, 0), lv, [], st, None)
            ex.oblige(st, v == F(m.f["stream"], iv(k)), "%s is the next value of this generator's stream" % meth, where=RG + "::" + meth)
        same(ex, st, w)
    return run


def u_unseeded(c):
    ex, st = fresh(c)
    lv = ex.alloc(st, ex.construct(RG, [], st, None), "rg")
    w = RG + "::GetStartSeed"
    try:
        ex.call_func(fnp(c, w, 0), lv, [], st, None)
        ex.oblige(st, z3.BoolVal(False), "asking an unseeded generator for its seed is an error", where=w)
    except Thrown:
        pass
    ex.oblige(st, z3.BoolVal(len(ex.throws[0]) == 1), "asking an unseeded generator for its seed is an error", where=w)


def u_first(init, dim):
    """advanced/ordinary simulate: seeds exactly when no seed was set, before anything is drawn"""
    def run(c):
        w = G + "SimulateWithAdvancedSettings"
        K = dict(MT)

        def lay(d):
            g = C11.c_layer(d)

            def f_(ex, st, f, this, args):
                m = ex.load(st, LV(GV))
                st.ghost["at_sim"] = (m.f["stream"], m.f["count"], glob(st, "start_seed_"), glob(st, "is_initialized_"))
                return g(ex, st, f, this, args)
            return f_
        for d in (1, 2, 3):
            K[G + "Simulate%dD" % d] = lay(d)
        ex, st = fresh(c, init)
        ex.contracts.update(K)
        lv, va = C11.vptr(ex, st, c)
        N = [I("nx"), iv(1) if dim < 2 else I("ny"), iv(1) if dim < 3 else I("nz")]
        D = [R("dx"), R("dy"), R("dz")]
        for n in N:
            st.assume(n >= 1)
        for k in range(dim):
            st.assume(D[k] > 0)
            if k:
                st.assume(N[k] > 1)
        c.cover(ex, st, "initialised" if init else "not initialised")
        ex.call_func(c.fn(w), None, [va] + [Arg(val=x) for p in zip(N, D) for x in p] + [Arg(val=x) for x in (I("px"), I("py"), I("pz"), R("sx"), R("sy"), R("sz"))], st, None)
        s, k, seed, ini = st.ghost["at_sim"]
        if init:
            ex.oblige(st, s == I("stream0"), "a seeded stream is not restarted by simulating", where=w)
            ex.oblige(st, k == I("count0"), "nothing is drawn from a seeded stream before simulating", where=w)
            ex.oblige(st, seed == I("old_seed"), "reported seed unchanged", where=w)
        else:
            ex.oblige(st, bit(ini), "an unseeded generator is seeded before simulating", where=w)
            ex.oblige(st, s == seed, "the automatically chosen seed is the one reported", where=w)
            ex.oblige(st, k == 0, "simulation starts at the beginning of the automatic stream", where=w)
    return run


def c_sim2(ex, st, f, this, args):
    if len(args) < 12:
        return NotImplemented
    rg = ex.argval(args[7], st)
    if isinstance(rg, PtrV) and rg.root is not None:
        m = state_of(ex, st, ex.deref(rg, st))
        st.ghost["rg"] = (m.f["stream"], m.f["count"])
    else:
        st.ghost["rg"] = None
    return C11.c_sim(2)(ex, st, f, this, [a if not (a.val is None and a.lv is None) else Arg(val=I("dflt%d" % k)) for k, a in enumerate(args)])


def u_sim2(init):
    """the single-field 2D convenience function: a field of the seed's own stream"""
    def run(c):
        w = "NRLib::Simulate2DGaussianField"
        ex, st = fresh(c, init)
        ex.contracts.update(MT)
        ex.contracts[w] = c_sim2
        lv = abstract_vario(ex, st, c.P)
        st.assume(I("nx") >= 1)
        st.assume(I("ny") >= 2)
        st.assume(I("old_seed") >= 0)
        st.assume(I("old_seed") < 2 ** 32)
        c.cover(ex, st, "any grid")
        cls = "NRLib::Grid2D<double>"
        out = ex.alloc(st, ex.construct(cls, [], st, None), "out")
        f = fnp(c, w, 6)
        ex.inline(f, None, [Arg(lv=lv), Arg(val=I("nx")), Arg(val=R("dx")), Arg(val=I("ny")), Arg(val=R("dy")), Arg(lv=out)], st, None)
        rg = st.ghost.get("rg")
        if init:
            ok = rg is not None
            ex.oblige(st, z3.BoolVal(ok), "a generator of its own", where=w)
            if ok:
                ex.oblige(st, z3.And(rg[0] == I("old_seed"), rg[1] == 0), "the generator starts at the reported seed", where=w)
        else:
            ex.oblige(st, z3.BoolVal(rg is None), "falls back on the global stream", where=w)
        same(ex, st, w)
        i, j = I("i"), I("j")
        st.assume(z3.And(i >= 0, i < I("nx"), j >= 0, j < I("ny")))
        ex.oblige(st, at(ex, st, out, [i, j]) == C11.FIELD[1](norm(i + I("nx") * j)), "the first field is returned", where=w)
    return run


def units():
    us = [(CORE, Unit("Random::Initialize(seed)", u_seed, tmo=60)), (CORE, Unit("Random::Initialize()", u_auto, tmo=60)),
          (CORE, Unit("Random::GetStartSeed", u_get, tmo=60)), (CORE, Unit("Random draws", u_draws, tmo=60)),
          (CORE, Unit("RandomGenerator without seed", u_unseeded, tmo=60))]
    for h in ("ctor", "seed", "reseed", "auto"):
        us.append((CORE, Unit("RandomGenerator [%s]" % h, u_gen(h), tmo=60)))
    for init in (True, False):
        us.append((CORE, Unit("Simulate2DGaussianField(single field) [%sseeded]" % ("" if init else "not "), u_sim2(init), tmo=60)))
        for d in (1, 2, 3):
            us.append((API, Unit("GaussFFT::SimulateWithAdvancedSettings seeding [%dD, %sseeded]" % (d, "" if init else "not "), u_first(init, d), tmo=60)))
    # how much a simulation takes from which stream: the noise obligations of C10
    for d in (1, 2, 3):
        us.append((CORE, Unit("Simulate%dDGaussianField: draws" % d, C10.unit(d, False), tmo=300)))
    return us


def gen(rng, budget, tier):
    n = {"std": 120, "deep": 1200}[budget]
    tys = ["exponential", "spherical", "gaussian", "matern32", "general_exponential"]

    def spec():
        out = []
        for _ in range(rng.randint(1, 3)):
            dim = rng.randint(1, 3)
            out.append("%d,%d,%r,%s" % (dim, rng.choice([1, 2, 5, 17]) if dim == 1 else rng.choice([2, 3, 7]), rng.choice([.5, 2., 3.5]), rng.choice(tys)))
        return ";".join(out)
    for _ in range(n):
        yield "seed %d %d %s %s" % (rng.choice([0, 1, 2 ** 31, 2 ** 32 - 1, rng.randint(0, 2 ** 32 - 1)]), rng.randint(0, 2 ** 32 - 1), spec(), spec())


def harness(scratch):
    return PyHarness(scratch, "py_seed.py", gen, "random sequences of simulations, seeds and reseedings in fresh processes: bit-identical repetition, reported seeds, automatic seeding")


TRUSTED = ["dSFMT: after seeding, value number k is a function of the seed and k only; draws are in [0,1) / (0,1) / 32 bits"]
ASSUMPTIONS = ["seeds below 2^32 (larger ones are truncated by the generator)", "one thread"]
