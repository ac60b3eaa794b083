"""Shared specification vocabulary: abstract variogram, callee contracts, spec functions."""
import z3
from fractions import Fraction
from cxxvc import terms as T
from cxxvc.terms import iv, rv, norm, mathfn, toreal
from cxxvc.execu import Arg
from cxxvc.values import *
from cxxvc.unit import Unit
from cxxvc.harness import Harness
from cxxvc import models as M

CORE = {"file": "core.cpp"}
API = {"file": "api.cpp", "defines": ["NDEBUG", "GaussFFT=NRLib_GaussFFT"],
       "includes": ["/opt/gfft/venv/lib/python3.12/site-packages/pybind11/include", "/usr/include/python3.12"]}
G = "NRLib_GaussFFT::"        # the namespace GaussFFT (renamed by a macro so that one AST filter selects it)
V = "NRLib::Variogram"
TYPES = ["CONSTANT", "EXPONENTIAL", "SPHERICAL", "GAUSSIAN", "GENERAL_EXPONENTIAL", "MATERN32", "MATERN52", "MATERN72"]


LITS = []        # numbers written in the functions of the current tree: boundary values for the case generators


def lits(lo, hi):
    return [x for x in LITS if lo <= x <= hi]


def near(rng, lo, hi):
    """a value of [lo, hi] at or close to a number written in the code"""
    c = lits(lo, hi)
    if not c:
        return rng.uniform(lo, hi)
    x = rng.choice(c)
    m = rng.random()
    if m < .3:
        return x
    y = x + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-14, -1) * max(abs(x), 1e-3)
    return min(max(y, lo), hi)


def R(n):
    return z3.Real(n)


def I(n):
    return z3.Int(n)


def q(s):
    return rv(Fraction(s))


def exp(x):
    return mathfn("exp", x)


def sqrt(x):
    return M.rsqrt(x)


def corr1d(ty, d, power):
    """documented correlation functions of the scaled distance"""
    if ty == "CONSTANT":
        return rv(1)
    if ty == "EXPONENTIAL":
        return exp(-3 * d)
    if ty == "GAUSSIAN":
        return exp(-3 * d * d)
    if ty == "GENERAL_EXPONENTIAL":
        return exp(-3 * mathfn("pow", d, power))
    if ty == "SPHERICAL":
        return z3.If(d < 1, 1 - q("3/2") * d + q("1/2") * d * d * d, rv(0))
    if ty == "MATERN32":
        s = q("4.744") * d
        return exp(-s) * (1 + s)
    if ty == "MATERN52":
        s = q("5.918") * d
        return exp(-s) * (1 + s + s * s / 3)
    if ty == "MATERN72":
        s = q("6.877") * d
        return exp(-s) * (1 + s + q("2/5") * s * s + s * s * s / 15)
    raise KeyError(ty)


def rotated(dx, dy, dz, azi, dip):
    """offset in the principal directions: azimuth turns about z, dip turns the main axis out of the plane"""
    ca, sa, cd, sd = (mathfn(f, x) for x in (azi, dip) for f in ("cos", "sin"))
    u = dx * ca * cd + dy * sa * cd + dz * sd
    v = -dx * sa + dy * ca
    w = -dx * ca * sd - dy * sa * sd + dz * cd
    return u, v, w


def dist2(dx, dy, dz, rx, ry, rz, azi, dip):
    u, v, w = rotated(dx, dy, dz, azi, dip)
    return norm(u * u / (rx * rx) + v * v / (ry * ry) + w * w / (rz * rz))


def enum(P, name):
    n = P.enumname.get("NRLib::Variogram::" + name)
    if n is None:
        raise ToolLimit("enumerator %s not found" % name)
    return iv(n)


PAR = ("power", "rx", "ry", "rz", "azi", "dip", "sd")


def positive(st, *names):
    for n in names:
        st.assume(R(n) > 0)


def make_vario(c, ex, st, ty):
    """the real factory with symbolic parameters; returns (lvalue of the object)"""
    positive(st, "rx", "ry", "rz")
    st.assume(R("sd") >= 0)
    if ty == "GENERAL_EXPONENTIAL":
        st.assume(R("power") > 0)
        st.assume(R("power") <= 2)
    f = c.fn("NRLib::Variogram::Create")
    p = ex.call_func(f, None, [Arg(val=enum(c.P, ty))] + [Arg(val=R(x)) for x in PAR], st, None)
    if not isinstance(p, PtrV):
        raise ToolLimit("factory result is not a single object")
    return ex.deref(p, st)


def call(ex, st, lv, qname, args):
    """virtual call of a member function with value arguments"""
    o = ex.load(st, lv)
    fs = [f for f in ex.prog.byq.get(qname, []) if len(f.params) == len(args)]
    if len(fs) != 1:
        # inherited or overloaded: pick by arity
        raise ToolLimit("no unique %s/%d" % (qname, len(args)))
    f = ex.prog.overrider(fs[0], o.cls) or fs[0]
    r = ex.call_func(f, lv, [Arg(val=a) for a in args], st, None)
    return ex.load(st, r) if isinstance(r, LV) else r


def abstract_vario(ex, st, P):
    """a variogram of unknown type: its correlation is an arbitrary even function"""
    names = [n for n, _, _ in P.classes[V]["fields"]]
    return ex.alloc(st, Rec(V, {n: R(n) for n in names}), "vario")


T.EVEN.update(("corr1", "corr2", "corr3"))
corr = [z3.Function("corr%d" % k, *([T.Real] * k), T.Real) for k in (1, 2, 3)]
ratio = R("ratio")


def c_corr(ex, st, f, this, args):
    """contract of GetCorr (proved in C01/C02): a function of the offset, even"""
    a = [norm(ex.argval(x, st)) for x in args]
    return corr[len(a) - 1](*a)


def c_ratio(ex, st, f, this, args):
    return ratio


def c_getter(name):
    return lambda ex, st, f, this, args: R(name)


def axis_ranges(rx, ry, rz, azi, dip, right):
    """longest projection of the three principal axes on each coordinate axis; `right` is the right angle"""
    c = lambda x: mathfn("cos", norm(x))
    s = lambda x: mathfn("sin", norm(x))
    ab = lambda x: z3.If(x >= 0, x, -x)
    mx = lambda a, b: z3.If(a < b, b, a)
    main = [rx * c(dip) * c(azi), rx * c(dip) * s(azi), rx * s(dip)]
    perp = [ry * c(azi + right), ry * s(azi + right), rv(0)]
    down = [rz * c(dip + right) * c(azi), rz * c(dip + right) * s(azi), rz * s(dip + right)]
    return [mx(mx(ab(main[k]), ab(perp[k])), ab(down[k])) for k in range(3)]


AXR = [R("axis_range_%s" % a) for a in "xyz"]


def c_axis_ranges(ex, st, f, this, args):
    """contract of FindVariogramRanges (proved in C08): three positive ranges"""
    return ListV("double", AXR)


def at(ex, st, lv, idx):
    """element through the real accessor of Grid2D / Grid / std::vector"""
    v = ex.load(st, lv)
    if isinstance(v, (ListV, ArrV)):
        return ex.elem(st, v, idx[0])
    op = [f for f in ex.prog.byq[v.cls + "::operator()"] if f.const and len(f.params) == len(idx)]
    if len(op) != 1:
        raise ToolLimit("no unique element access in " + v.cls)
    r = ex.call_func(op[0], lv, [Arg(val=x) for x in idx], st, None)
    return ex.load(st, r) if isinstance(r, LV) else r


def wrap(i, n):
    """periodic offset of index i on a grid of n nodes: the second half counts backwards"""
    return z3.If(2 * i < n, i, i - n)


def inductive(ex, st, res, n, elem, J, K, where, name):
    """loop invariant for the scalar `res` computed by a summarised loop over the n elements elem(t):
    K(h) holds throughout, and J(h, elem(t)) holds once element t has been visited.  The variable is identified by being the
    result; base and step become obligations; returns t -> J(res, elem(t)).
    A loop that is not of this shape is outside the reach of the rule (undecided), not a violation."""
    m = getattr(ex, "reds", {}).get(res.get_id())
    if m is None:
        raise ToolLimit("%s: result is not a value carried by a recognised loop" % name)
    h, b, e = m["h"], m["b"], m["step"]
    t = T.fresh("t", T.Int)
    cover = st.clone()
    cover.assume(t >= 0)
    cover.assume(t < n)
    for mp in (b, norm(n - 1 - b)):
        inv = mp if mp is b else None
        back = t if mp is b else norm(n - 1 - t)
        # every element is visited, or already covered by the value before the loop
        seen = J(m["init"], elem(t))
        if not ex.decide(cover, z3.Or(subst(m["dom"], [(b, back)]), seen)):
            continue
        s = st.clone()
        for x in m["pc"]:
            s.assume(x)
        s.assume(m["dom"])
        s.assume(K(h))
        s2 = s.clone()
        s2.assume(J(h, elem(t)))
        if not ex.decide(s, J(e, elem(mp)), 5000):
            continue
        ex.oblige(st, K(m["init"]), name + ": invariant holds before the loop", where=where)
        ex.oblige(cover, z3.Or(subst(m["dom"], [(b, back)]), seen), name + ": every element is visited or covered before the loop", where=where)
        ex.oblige(s, K(e), name + ": invariant kept by an iteration", where=where)
        ex.oblige(s, J(e, elem(mp)), name + ": invariant holds for the visited element", where=where)
        ex.oblige(s2, J(e, elem(t)), name + ": invariant kept for earlier elements", where=where)
        st.assume(K(res))
        return lambda x: J(res, elem(x))
    raise ToolLimit("%s: the loop does not carry the invariant" % name)


def summed(ex, st, res, n, elem, where, name):
    """`res` is the sum of elem(t) over t in [0,n): obligations on the increments of the summarised loop"""
    m = getattr(ex, "sums", {}).get(res.get_id())
    if m is None:
        raise ToolLimit("%s: result is not a recognised sum" % name)
    r, d, b, dom, v0 = m
    for mp, back in ((b, b), (norm(n - 1 - b), norm(n - 1 - b)), (norm(b - 1), norm(b + 1)), (norm(n - b), norm(n - b))):
        s = st.clone()
        s.assume(dom)
        if ex.decide(s, d == elem(mp), 3000):
            ex.oblige(s, d == elem(mp), name + ": each iteration adds its element", where=where)
            s2 = st.clone()
            s2.assume(b >= 0)
            s2.assume(b < n)
            ex.oblige(s2, subst(dom, [(b, back)]), name + ": every element is visited", where=where)
            s3 = st.clone()
            s3.assume(dom)
            ex.oblige(s3, z3.And(mp >= 0, mp < n), name + ": nothing else is visited", where=where)
            ex.oblige(st, v0 == 0, name + ": sum starts at zero", where=where)
            return
    raise ToolLimit("%s: increments not recognised" % name)


def pyth(e, ang):
    """e with sin(ang)^2 written as 1 - cos(ang)^2 (an identity)"""
    c, s = T.atom_key(mathfn("cos", ang)), T.atom_key(mathfn("sin", ang))
    p = T.poly(norm(e))
    while True:
        out, ch = {}, False
        for m, k in p.items():
            if list(m).count(s) >= 2:
                r = list(m)
                r.remove(s)
                r.remove(s)
                out = T.padd(out, {tuple(sorted(r)): k})
                out = T.padd(out, {tuple(sorted(r + [c, c])): -k})
                ch = True
            else:
                out = T.padd(out, {m: k})
        p = out
        if not ch:
            return T.from_poly(p, T.Real)


def rat(e):
    """e as a quotient of polynomials (N, D, divisors that were cleared)"""
    N, D, ds = {}, {(): Fraction(1)}, []
    inv = {}
    for m, c in T.poly(norm(e)).items():
        n, d = {(): c}, {(): Fraction(1)}
        for a in m:
            x = T._atoms[a]
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV and T.is_num(x.arg(0)) and T.num(x.arg(0)) == 1:
                if a not in inv:
                    inv[a] = rat(x.arg(1))
                    ds += inv[a][2] + [x.arg(1)]
                xn, xd, _ = inv[a]
                n, d = T.pmul(n, xd), T.pmul(d, xn)
            else:
                n = T.pmul(n, {(a,): Fraction(1)})
        if d == D:
            N = T.padd(N, n)
        else:
            N, D = T.padd(T.pmul(N, d), T.pmul(n, D)), T.pmul(D, d)
    return N, D, ds


def ite_cases(e, conds=()):
    """the cases of nested conditionals"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        yield from ite_cases(e.arg(1), conds + (e.arg(0),))
        yield from ite_cases(e.arg(2), conds + (z3.Not(e.arg(0)),))
    else:
        yield conds, e


def req(ex, st, e, want, name, where):
    """e == want for a rational expression: in each case that can happen the divisors are not zero and the cleared equation is an identity"""
    for conds, leaf in ite_cases(e):
        s = st.clone()
        for x in conds:
            s.assume(x)
        if ex.decide(s, z3.BoolVal(False), 5000):
            continue
        N, D, ds = rat(norm(leaf - want))
        seen = set()
        for d in ds:
            if d.get_id() in seen:
                continue
            seen.add(d.get_id())
            n = T.from_poly(rat(d)[0], T.Real)
            ex.oblige(s, n != 0, name + ": divisor is not zero", where=where)
        ex.oblige(s, T.from_poly(N, T.Real) == 0, name, where=where)


def opaque(fn, *terms):
    """the terms with each distinct application of fn replaced by a variable (a stronger statement than the original)"""
    seen, pairs, done = {}, [], set()

    def walk(e):
        if e.get_id() in done:
            return
        done.add(e.get_id())
        if z3.is_app(e) and e.decl().eq(fn):
            k = tuple(norm(a).get_id() for a in e.children())
            if k not in seen:
                seen[k] = T.fresh("v", e.sort())
            pairs.append((e, seen[k]))
            return
        for x in e.children():
            walk(x)
    for t in terms:
        walk(t)
    return [z3.substitute(t, *pairs) if pairs else t for t in terms]
