"""C04: modifying a variogram leaves it indistinguishable from one built with the new parameters."""
from .lib import *
from cxxvc.execu import Thrown
from . import C02

NEW = {"rx": "n1", "ry": "n2", "rz": "n3"}


def observe(ex, st, lv, ty, p, tag, where):
    """getters and correlations agree with parameters p"""
    for g, k in (("GetRangeX", "rx"), ("GetRangeY", "ry"), ("GetRangeZ", "rz"), ("GetAzimuthAngle", "azi"), ("GetDipAngle", "dip")):
        ex.oblige(st, call(ex, st, lv, V + "::" + g, []) == p[k], "%s: %s" % (tag, g), where=where)
    r = call(ex, st, lv, V + "::GetStdDev", [])
    ex.oblige(st, r * r == p["var"], "%s: standard deviation" % tag, where=where)
    h = [R("hx"), R("hy"), R("hz")]
    for n in (1, 2, 3):
        o = h[:n] + [rv(0)] * (3 - n)
        D = sqrt(dist2(*o, p["rx"], p["ry"], p["rz"], p["azi"], p["dip"]))
        r = call(ex, st, lv, V + "::GetCorr", h[:n])
        ex.oblige(st, r == corr1d(ty, D, R("power")), "%s: corr with %d arguments" % (tag, n), where=where)


def same_state(ex, st, a, b):
    la, lb = dict(leaves(a)), dict(leaves(b))
    for k in la:
        x, y = la[k], lb.get(k)
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
            if not z3.is_true(T.beq(x, y)) and not ex.decide(st, x == y):
                return False
    return True


def base_params():
    p = {k: R(k) for k in ("rx", "ry", "rz", "azi", "dip")}
    p["var"] = R("sd") * R("sd")
    return p


def fresh_vario(c, ex, st, ty, p):
    f = c.fn("NRLib::Variogram::Create")
    sdv = R("sd2") if "sd2" in p else R("sd")
    q_ = ex.call_func(f, None, [Arg(val=enum(c.P, ty)), Arg(val=R("power"))] + [Arg(val=p[k]) for k in ("rx", "ry", "rz", "azi", "dip")] + [Arg(val=sdv)], st, None)
    return ex.load(st, ex.deref(q_, st))


def mutator(name, nargs, effect, guard, ty="SPHERICAL"):
    """guard(args, p) -> condition of success (None: always); effect(args, p) -> new parameters"""
    def run(c):
        where = V + "::" + name
        args = [R("a%d" % k) for k in range(nargs)]
        f = c.fn(V + "::" + name)
        # success
        ex = c.exec()
        st = State()
        lv = make_vario(c, ex, st, ty)
        p = base_params()
        if guard is not None:
            st.assume(guard(args, p))
        c.cover(ex, st, "success case")
        ex.call_func(f, lv, [Arg(val=a) for a in args], st, None)
        if ex.throws[0]:
            for t in ex.throws[0]:
                s = t[0] if isinstance(t, tuple) else t
                ex.oblige(s, z3.BoolVal(False), "valid argument accepted", where=where)
        p2 = effect(args, p)
        observe(ex, st, lv, ty, p2, name, where)
        s2 = st.clone()
        if not same_state(ex, s2, ex.load(st, lv), fresh_vario(c, ex, s2, ty, p2)):
            raise ToolLimit("state after %s is not that of a fresh variogram" % name)
        if guard is None:
            return
        # rejection: throws, state unchanged
        ex = c.exec()
        st = State()
        lv = make_vario(c, ex, st, ty)
        st.assume(z3.Not(guard(args, base_params())))
        before = ex.load(st, lv)
        s0 = st.clone()
        returned = True
        try:
            ex.call_func(f, lv, [Arg(val=a) for a in args], st, None)
        except Thrown:
            returned = False
        if returned:
            ex.oblige(st, z3.BoolVal(False), "non-positive range rejected", where=where)
        for t in ex.throws[0]:
            s = t[0] if isinstance(t, tuple) else t
            after = ex.load(s, lv)
            la, lb = dict(leaves(before)), dict(leaves(after))
            for k in la:
                if isinstance(la[k], z3.ExprRef):
                    ex.oblige(s, la[k] == lb[k], "rejected call leaves %s unchanged" % str(k), where=where)
        if not ex.throws[0]:
            ex.oblige(s0, z3.BoolVal(False), "non-positive range rejected (no throw)", where=where)
    return run


def clone(ty):
    def run(c):
        ex = c.exec()
        st = State()
        lv = make_vario(c, ex, st, ty)
        c.cover(ex, st, "valid parameters")
        r = call(ex, st, lv, V + "::Clone", [])
        if not isinstance(r, PtrV):
            raise ToolLimit("clone result")
        l2 = ex.deref(r, st)
        observe(ex, st, l2, ty, base_params(), "Clone[%s]" % ty, V + "::Clone")
        ex.oblige(st, z3.BoolVal(l2.root != lv.root), "clone is a separate object")
        # independence: changing the clone does not change the original
        st.assume(R("a0") > 0)
        ex.call_func(c.fn(V + "::SetRangeX"), l2, [Arg(val=R("a0"))], st, None)
        observe(ex, st, lv, ty, base_params(), "original after changing the clone[%s]" % ty, V + "::Clone")
    return run


CLASS = {"CONSTANT": "Const", "EXPONENTIAL": "Exp", "SPHERICAL": "Sph", "GAUSSIAN": "Gau", "GENERAL_EXPONENTIAL": "GenExp",
         "MATERN32": "Matern32", "MATERN52": "Matern52", "MATERN72": "Matern72"}
OMITTED = {"power": q("3/2"), "rx": rv(1), "ry": rv(1), "rz": rv(1), "azi": rv(0), "dip": rv(0), "sd": rv(1)}


def given(n, names):
    """parameters when the first n of names are given and the rest omitted"""
    p = {k: R(k) if i < n else OMITTED[k] for i, k in enumerate(names)}
    p.setdefault("power", R("power"))
    p["var"] = p["sd"] * p["sd"]
    return p


def same_as_explicit(c, ex, st, lv, ty, p, power, tag, where):
    """the object equals one made by the factory with every parameter given (whose correlations C02 proves)"""
    f = c.fn("NRLib::Variogram::Create")
    r = ex.call_func(f, None, [Arg(val=enum(c.P, ty)), Arg(val=R("power") if power is None else power)] + [Arg(val=p[k]) for k in ("rx", "ry", "rz", "azi", "dip", "sd")], st, None)
    a, b = ex.load(st, lv), ex.load(st, ex.deref(r, st))
    ex.oblige(st, z3.BoolVal(a.cls == b.cls), tag + ": type", where=where)
    la, lb = dict(leaves(a)), dict(leaves(b))
    for k in lb:
        if isinstance(lb[k], z3.ExprRef):
            ex.oblige(st, la[k] == lb[k] if k in la else z3.BoolVal(False), "%s: %s" % (tag, ".".join(map(str, k)) if isinstance(k, tuple) else k), where=where)


def built(ty):
    """the constructors of a type and the factory with any number of trailing parameters omitted"""
    def run(c):
        cls = "NRLib::" + CLASS[ty] + "Vario"
        names = (["power"] if ty == "GENERAL_EXPONENTIAL" else []) + ["rx", "ry", "rz", "azi", "dip", "sd"]
        least = 2 if ty == "GENERAL_EXPONENTIAL" else 1
        for n in [0] + list(range(least, len(names) + 1)):
            ex = c.exec()
            st = State()
            positive(st, "rx", "ry", "rz", "power")
            st.assume(R("power") <= 2)
            st.assume(R("sd") >= 0)
            if n == 0:
                c.cover(ex, st, "valid parameters")
            fs = [f for f in c.P.byq[cls + "::" + CLASS[ty] + "Vario"] if len(f.params) == (len(names) if n else 0)]
            if len(fs) != 1:
                raise ToolLimit("constructor of " + cls)
            args = [Arg(val=R(k)) for k in names[:n]] + [Arg()] * (len(fs[0].params) - n)
            lv = ex.alloc(st, ex.construct(cls, args, st, None, fs[0].type), "vario")
            p = given(n, names)
            power = (p["power"] if n else rv(1)) if ty == "GENERAL_EXPONENTIAL" else None
            same_as_explicit(c, ex, st, lv, ty, p, power, "%s built with %d parameters" % (CLASS[ty], n), cls + "::" + CLASS[ty] + "Vario")
        f = c.fn("NRLib::Variogram::Create")
        names = list(PAR)
        for n in range(0, len(names)):
            ex = c.exec()
            st = State()
            positive(st, "rx", "ry", "rz", "power")
            st.assume(R("power") <= 2)
            st.assume(R("sd") >= 0)
            r = ex.call_func(f, None, [Arg(val=enum(c.P, ty))] + [Arg(val=R(k)) for k in names[:n]] + [Arg()] * (len(names) - n), st, None)
            p = given(n, names)
            same_as_explicit(c, ex, st, ex.deref(r, st), ty, p, p["power"], "Create with %d parameters" % n, V + "::Create")
    return run


def rep_built(ty):
    def f(env, o):
        for n in range(0, 8):
            yield "built %s %d 1.7 9.0 4.0 3.0 0.4 0.3 2.0" % (ty, n)
    return f


def upd(**kw):
    def f(args, p):
        q_ = dict(p)
        for k, v in kw.items():
            q_[k] = v(args, p)
        return q_
    return f


def replay(op):
    def f(env, o):
        g = lambda n, d: float(env.get(n, d))
        for ty in ("SPHERICAL", "GENERAL_EXPONENTIAL"):
            yield "hist %s 1.5 %r %r %r %r %r %r %s %r %r %r" % (ty, g("rx", 10), g("ry", 5), g("rz", 3), g("azi", .3), g("dip", .2), g("sd", 1), op, g("a0", 2), g("a1", 3), g("a2", 4))
    return f


def units():
    L = []

    def add(name, nargs, eff, guard=None, op=None):
        L.append((CORE, Unit("Variogram::" + name, mutator(name, nargs, eff, guard), replay=replay(name), tmo=120)))
    for i, k in enumerate(("rx", "ry", "rz")):
        ax = "XYZ"[i]
        add("SetRange" + ax, 1, upd(**{k: lambda a, p: a[0]}), lambda a, p: a[0] > 0)
        add("LimitRange" + ax, 1, upd(**{k: (lambda kk: lambda a, p: z3.If(p[kk] > a[0], a[0], p[kk]))(k)}), lambda a, p: a[0] > 0)
    add("SetRanges", 3, upd(rx=lambda a, p: a[0], ry=lambda a, p: a[1], rz=lambda a, p: a[2]), lambda a, p: z3.And(a[0] > 0, a[1] > 0, a[2] > 0))
    add("SetAngles", 2, upd(azi=lambda a, p: a[0], dip=lambda a, p: a[1]))
    add("RotateAngles", 2, upd(azi=lambda a, p: p["azi"] + a[0], dip=lambda a, p: p["dip"] + a[1]))
    L.append((CORE, Unit("Variogram::SetStdDev", stddev, replay=replay("SetStdDev"), tmo=60)))
    for ty in TYPES:
        L.append((CORE, Unit("Variogram::Clone [%s]" % ty, clone(ty), replay=replay("Clone"), tmo=100)))
        L.append((CORE, Unit("constructors, Create with omitted parameters [%s]" % ty, built(ty), replay=rep_built(ty), tmo=100)))
    return L


def stddev(c):
    ex = c.exec()
    st = State()
    lv = make_vario(c, ex, st, "SPHERICAL")
    st.assume(R("a0") >= 0)
    ex.call_func(c.fn(V + "::SetStdDev"), lv, [Arg(val=R("a0"))], st, None)
    p = base_params()
    p["var"] = R("a0") * R("a0")
    observe(ex, st, lv, "SPHERICAL", p, "SetStdDev", V + "::SetStdDev")
    h = [R("hx"), R("hy"), R("hz")]
    ex.contracts[V + "::GetCorr"] = c_corr
    ex.oblige(st, call(ex, st, lv, V + "::GetCov", h) == R("a0") * R("a0") * corr[2](*h), "covariance uses the new standard deviation")


OPS = ["SetRangeX", "SetRangeY", "SetRangeZ", "LimitRangeX", "LimitRangeY", "LimitRangeZ", "SetRanges", "SetAngles", "RotateAngles", "SetStdDev", "Clone"]


def gen(rng, budget, tier):
    n = {"std": 3000, "deep": 30000}[budget]
    for ty in TYPES:
        for k in range(0, 8):
            power, r, azi, dip, sd = C02.params(rng)
            yield "built %s %d %r %r %r %r %r %r %r" % (ty, k, power, *r, azi, dip, sd)
    for _ in range(n):
        ty = rng.choice(TYPES)
        power, r, azi, dip, sd = C02.params(rng)
        ops = []
        for _ in range(rng.randint(1, 6)):
            op = rng.choice(OPS)
            a = [r[0] * rng.choice([1, rng.uniform(.1, 3), 0, -1, -0.5]) for _ in range(3)]
            if rng.random() < .6:
                a = [abs(x) + 1e-3 * r[0] for x in a]
            if "Angles" in op:
                a = [rng.choice([0.0, rng.uniform(-4, 4)]) for _ in range(3)]
            if op.startswith("Limit"):
                a = [abs(x) + 1e-3 * r[0] for x in a]
            if op == "SetStdDev":
                a = [abs(rng.uniform(0, 3))] * 3
            ops.append("%s %r %r %r" % (op, *a))
        yield "hist %s %r %r %r %r %r %r %r %s" % (ty, power, *r, azi, dip, sd, " ".join(ops))


def harness(scratch):
    return Harness(scratch, "variomut.cpp", C02.SRCS, gen,
                   "random variograms, histories of 1-6 modifications (valid and rejected), compared after each step with a variogram built from the tracked parameters")
