"""C20: points, lines, planes, triangles and transformations in space."""
from .lib import *

TU = {"file": "geom.cpp"}
N = "NRLib::"
PT, LN, PL, TR, TF = [N + s for s in ("Point", "Line", "Plane", "Triangle", "Transformation")]


def start(c, K=None):
    return c.exec(K or {}), State()


def fnd(c, q, n, pred=lambda f: True):
    fs = [f for f in c.P.find(q, n) if pred(f)]
    if len(fs) != 1:
        raise ToolLimit("%d candidates for %s/%d" % (len(fs), q, n))
    return fs[0]


def val(ex, st, r):
    return ex.load(st, r) if isinstance(r, LV) else r


def xyz(v):
    return [norm(v.f[k]) for k in "xyz"]


def sym(n):
    return [R(n + k) for k in "xyz"]


def pt(ex, st, v, name="pt"):
    if isinstance(v, str):
        name, v = v, sym(v)
    return ex.alloc(st, Rec(PT, dict(zip("xyz", [norm(x) for x in v]))), name)


def dot(a, b):
    return norm(sum(x * y for x, y in zip(a, b)))


def cross(a, b):
    return [norm(a[1] * b[2] - a[2] * b[1]), norm(a[2] * b[0] - a[0] * b[2]), norm(a[0] * b[1] - a[1] * b[0])]


def add(a, b):
    return [norm(x + y) for x, y in zip(a, b)]


def sub(a, b):
    return [norm(x - y) for x, y in zip(a, b)]


def mul(t, a):
    return [norm(t * x) for x in a]


def ab(x):
    return z3.If(x >= 0, x, -x)


def eq(ex, st, got, want, name, where):
    for k, g, w in zip("xyz", got, want):
        ex.oblige(st, g == norm(w), "%s (%s)" % (name, k), where=where)


def args(*a):
    return [Arg(lv=x) if isinstance(x, LV) else Arg(val=x) for x in a]


# ---- points
def u_algebra(c):
    a, b, t = sym("a"), sym("b"), R("t")
    def free(name, argf, want, n=2, pick=lambda f: True, pre=None):
        ex, st = start(c)
        if pre is not None:
            st.assume(pre)
        A, B = pt(ex, st, "a"), pt(ex, st, "b")
        r = val(ex, st, ex.call_func(fnd(c, N + name, n, pick), None, args(*argf(A, B)), st, None))
        if isinstance(r, Rec):
            eq(ex, st, xyz(r), want, name, N + name)
        else:
            ex.oblige(st, r == want, name, where=N + name)
        eq(ex, st, xyz(ex.load(st, A)) + xyz(ex.load(st, B)), a + b, name + " leaves its operands", N + name)
        c.cover(ex, st, name)
    P2 = lambda f: all("Point" in str(p.get("type")) for p in f.params)
    DP = lambda f: "Point" in str(f.params[1].get("type")) and "Point" not in str(f.params[0].get("type"))
    PD = lambda f: "Point" in str(f.params[0].get("type")) and "Point" not in str(f.params[1].get("type"))
    free("operator+", lambda A, B: (A, B), add(a, b), pick=P2)
    free("operator-", lambda A, B: (A, B), sub(a, b), pick=P2)
    free("operator*", lambda A, B: (t, A), mul(t, a), pick=DP)
    free("operator*", lambda A, B: (A, t), mul(t, a), pick=PD)
    free("operator/", lambda A, B: (A, t), [x / t for x in a], pick=PD, pre=t != 0)
    free("Dot", lambda A, B: (A, B), dot(a, b))
    free("Cross", lambda A, B: (A, B), cross(a, b))

    def mem(name, argf, want, n, changes=None, pre=None):
        ex, st = start(c)
        if pre is not None:
            st.assume(pre)
        A, B = pt(ex, st, "a"), pt(ex, st, "b")
        r = val(ex, st, ex.call_func(fnd(c, PT + "::" + name, n), A, args(*argf(B)), st, None))
        w = PT + "::" + name
        if want is not None:
            if isinstance(r, Rec):
                eq(ex, st, xyz(r), want, name + " result", w)
            else:
                ex.oblige(st, r == want, name, where=w)
        eq(ex, st, xyz(ex.load(st, A)), changes if changes is not None else a, name + " object", w)
        c.cover(ex, st, name)
    mem("operator+=", lambda B: (B,), add(a, b), 1, add(a, b))
    mem("operator-=", lambda B: (B,), sub(a, b), 1, sub(a, b))
    mem("operator*=", lambda B: (t,), mul(t, a), 1, mul(t, a))
    mem("operator/=", lambda B: (t,), [x / t for x in a], 1, [x / t for x in a], t != 0)
    mem("operator-", lambda B: (), mul(rv(-1), a), 0)
    mem("Dot", lambda B: (B,), dot(a, b), 1)
    mem("Cross", lambda B: (B,), cross(a, b), 1)
    mem("operator==", lambda B: (B,), z3.And(*[x == y for x, y in zip(a, b)]), 1)
    mem("operator!=", lambda B: (B,), z3.Or(*[x != y for x, y in zip(a, b)]), 1)
    mem("SetPoint", lambda B: (b[0], b[1], b[2]), None, 3, b)
    mem("LeftFromLineXY", lambda B: (B, B), rv(0), 2)
    tol = R("tol")
    mem("IsEqual", lambda B: (B, tol), z3.And(*[ab(x - y) <= z3.If(ab(y) < 1, tol, ab(y) * tol) for x, y in zip(a, b)]), 2)
    ex, st = start(c)
    A, B, C_ = pt(ex, st, "a"), pt(ex, st, "b"), pt(ex, st, "c")
    cc = sym("c")
    r = ex.call_func(fnd(c, PT + "::LeftFromLineXY", 2), A, args(B, C_), st, None)
    ex.oblige(st, norm(r) == cross(sub(cc, b), sub(a, b))[2], "side of a line in the plane", where=PT + "::LeftFromLineXY")


def u_swap(c):
    ex, st = start(c)
    A, B = pt(ex, st, "a"), pt(ex, st, "b")
    ex.call_func(fnd(c, PT + "::Swap", 1), A, args(B), st, None)
    eq(ex, st, xyz(ex.load(st, A)) + xyz(ex.load(st, B)), sym("b") + sym("a"), "swapped", PT + "::Swap")
    o = ex.construct(PT, [], st, None)
    eq(ex, st, xyz(o), [rv(0)] * 3, "default point", PT)
    o = ex.construct(PT, args(*sym("a")), st, None)
    eq(ex, st, xyz(o), sym("a"), "coordinates", PT)


def isroot(ex, st, r, sq, name, where):
    """r is the non-negative root of sq"""
    ex.oblige(st, r >= 0, name + " is not negative", where=where)
    ex.oblige(st, norm(r * r) == norm(sq), name + " squared", where=where)


def u_norms(c):
    a, b = sym("a"), sym("b")
    ex, st = start(c)
    A, B = pt(ex, st, "a"), pt(ex, st, "b")
    isroot(ex, st, val(ex, st, ex.call_func(fnd(c, PT + "::Norm", 0), A, [], st, None)), dot(a, a), "length", PT + "::Norm")
    isroot(ex, st, val(ex, st, ex.call_func(fnd(c, N + "Norm", 1), None, args(A), st, None)), dot(a, a), "length", N + "Norm")
    d = sub(a, b)
    isroot(ex, st, val(ex, st, ex.call_func(fnd(c, PT + "::GetDistance", 1), A, args(B), st, None)), dot(d, d), "distance", PT + "::GetDistance")
    isroot(ex, st, val(ex, st, ex.call_func(fnd(c, PT + "::GetDistanceXY", 1), A, args(B), st, None)), norm(d[0] * d[0] + d[1] * d[1]), "distance in the plane", PT + "::GetDistanceXY")


def nonzero(v):
    return z3.Or(*[x != 0 for x in v])


def u_normalized(c):
    a = sym("a")
    for nm in ("GetNormalized", "Normalize"):
        for zero in (False, True):
            ex, st = start(c)
            A = pt(ex, st, mul(rv(0), a) if zero else a, "a")
            if not zero:
                st.assume(dot(a, a) > 0)
            r = ex.call_func(fnd(c, PT + "::" + nm, 0), A, [], st, None)
            r = xyz(val(ex, st, r)) if nm == "GetNormalized" else xyz(ex.load(st, A))
            w = PT + "::" + nm
            if zero:
                eq(ex, st, r, [rv(0)] * 3, "the zero vector stays", w)
            else:
                L = sqrt(dot(a, a))
                eq(ex, st, [norm(x * L) for x in r], a, "same direction", w)
                ex.oblige(st, L > 0, "positive length", where=w)


def u_angle(c):
    ex, st = start(c)
    a, b = sym("a"), sym("b")
    A, B = pt(ex, st, "a"), pt(ex, st, "b")
    r = norm(val(ex, st, ex.call_func(fnd(c, PT + "::GetAngle", 1), A, args(B), st, None)))
    w = PT + "::GetAngle"
    s = st.clone()
    s.assume(dot(a, a) > 0)
    s.assume(dot(b, b) > 0)
    want = norm(dot(a, b) / (sqrt(dot(a, a)) * sqrt(dot(b, b))))
    s.assume(want <= 1)
    s.assume(want >= -1)       # Cauchy-Schwarz
    ex.oblige(s, r == mathfn("acos", want), "angle from the scalar product", where=w)
    s = st.clone()
    s.assume(dot(a, a) == 0)
    ex.oblige(s, r == 0, "angle with the zero vector", where=w)


def u_inverse(c):
    ex, st = start(c)
    v = [sym("v%d" % k) for k in (1, 2, 3)]
    V_ = [pt(ex, st, "v%d" % k) for k in (1, 2, 3)]
    S = [pt(ex, st, "s%d" % k) for k in (1, 2, 3)]
    d = ex.alloc(st, R("det0"), "det")
    D = dot(v[2], cross(v[0], v[1]))
    st.assume(D != 0)
    w = N + "NRLibPrivate::Matrix3DInverse"
    ex.call_func(fnd(c, w, 7), None, args(*V_, d, *S), st, None)
    ex.oblige(st, norm(ex.load(st, d)) == D, "determinant", where=w)
    s = [xyz(ex.load(st, x)) for x in S]
    i = 1 / D
    for k, (j, l) in enumerate(((1, 2), (2, 0), (0, 1))):
        co = cross(v[j], v[l])
        for m_ in range(3):
            ex.oblige(st, s[m_][k] * D == co[m_], "inverse matrix (%d,%d)" % (m_, k), where=w)


# ---- lines
FLAGS = [(e1, e2) for e1 in (True, False) for e2 in (True, False)]


def line(ex, st, c, p, q_, e1, e2):
    o = ex.construct(LN, args(pt(ex, st, p), pt(ex, st, q_), z3.BoolVal(e1), z3.BoolVal(e2)), st, None)
    return ex.alloc(st, o, "line")


def mlen(st, u, name="u"):
    """|u|^2 of a direction that is not zero"""
    st.assume(dot(u, u) > 0)
    return dot(u, u)


def u_lineparts(c):
    for e1, e2 in FLAGS:
        ex, st = start(c)
        l = line(ex, st, c, sym("p"), sym("q"), e1, e2)
        isl(c, ex, st, l, sym("p"), sym("q"), e1, e2, "constructed", LN)
        s = st.clone()
        ex.call_func(fnd(c, LN + "::SetPt", 4), l, args(pt(ex, s, "r"), pt(ex, s, "s"), z3.BoolVal(e2), z3.BoolVal(not e1)), s, None)
        isl(c, ex, s, l, sym("r"), sym("s"), e2, not e1, "set", LN + "::SetPt")
        r = ex.call_func(fnd(c, LN + "::LineXY", 0), l, [], st, None)
        isl(c, ex, st, ex.alloc(st, val(ex, st, r), "xy"), sym("p")[:2] + [rv(0)], sym("q")[:2] + [rv(0)], e1, e2, "projected", LN + "::LineXY")
        r = norm(val(ex, st, ex.call_func(fnd(c, LN + "::GetLength", 0), l, [], st, None)))
        u = sub(sym("q"), sym("p"))
        if e1 and e2:
            isroot(ex, st, r, dot(u, u), "length", LN + "::GetLength")
    ex, st = start(c)
    p, d = pt(ex, st, "p"), pt(ex, st, "d")
    for nm, e1, e2, end in (("InfiniteLine", False, False, add(sym("p"), sym("d"))), ("Ray", True, False, add(sym("p"), sym("d"))), ("Segment", True, True, sym("d"))):
        o = ex.call_func(fnd(c, LN + "::" + nm, 2, lambda f: "Point" in str(f.params[1].get("type"))), None, args(p, d), st, None)
        isl(c, ex, st, ex.alloc(st, val(ex, st, o), "made"), sym("p"), end, e1, e2, nm, LN + "::" + nm)
    # by angle: the direction matters
    o = val(ex, st, ex.call_func(fnd(c, LN + "::InfiniteLine", 2, lambda f: "Point" not in str(f.params[1].get("type"))), None, args(p, ex.alloc(st, R("angle"), "angle")), st, None))
    l = ex.alloc(st, o, "made")
    b = point_of(c, ex, st, l, "GetPt2")
    dv = sub(b, sym("p"))
    cs, sn = mathfn("cos", R("angle")), mathfn("sin", R("angle"))
    ex.oblige(st, norm(dv[0] * sn - dv[1] * cs) == 0, "direction of the angle", where=LN + "::InfiniteLine")
    ex.oblige(st, z3.Implies(norm(cs * cs + sn * sn) == 1, norm(dv[0] * cs + dv[1] * sn) > 0), "towards the angle", where=LN + "::InfiniteLine")
    ex.oblige(st, dv[2] == 0, "horizontal", where=LN + "::InfiniteLine")


def point_of(c, ex, st, l, nm):
    f = fnd(c, LN + "::" + nm, 0, lambda f: f.const)
    return xyz(val(ex, st, ex.call_func(f, l, [], st, None)))


def isl(c, ex, st, l, p, q_, e1, e2, what, where):
    eq(ex, st, point_of(c, ex, st, l, "GetPt1"), p, "first point of the line " + what, where)
    eq(ex, st, point_of(c, ex, st, l, "GetPt2"), q_, "second point of the line " + what, where)
    for nm, e in (("IsEndPt1", e1), ("IsEndPt2", e2)):
        r = val(ex, st, ex.call_func(fnd(c, LN + "::" + nm, 0), l, [], st, None))
        ex.oblige(st, r == z3.BoolVal(e), "%s of the line %s" % (nm, what), where=where)
    for k, (e, p_) in enumerate(((e1, p), (e2, q_))):
        o = pt(ex, st, "any")
        r = val(ex, st, ex.call_func(fnd(c, LN + "::GetPt%d" % (k + 1), 1), l, args(o), st, None))
        ex.oblige(st, r == z3.BoolVal(e), "end flag %d of the line %s" % (k + 1, what), where=where)
        eq(ex, st, xyz(ex.load(st, o)), p_, "point %d of the line %s" % (k + 1, what), where)


def c_parm(a, u):
    return dot(a, u) / dot(u, u)


def u_proj(e1, e2, zero=False):
    """nearest point of the line: coordinates in the frame of the line, p = p1 + t u + n with n orthogonal to u"""
    def run(c):
        ex, st = start(c)
        p1, u, t, n = sym("p"), sym("u"), R("t"), sym("n")
        if zero:
            u = [rv(0)] * 3
        else:
            st.assume(dot(u, u) > 0)
            st.assume(dot(u, n) == 0)
        x = add(add(p1, mul(t, u)), n)
        l = line(ex, st, c, p1, add(p1, u), e1, e2)
        tc = t
        if e1:
            tc = z3.If(tc < 0, rv(0), tc)
        if e2:
            tc = z3.If(tc > 1, rv(1), tc)
        if zero:
            tc = rv(0)
        X = pt(ex, st, x)
        c.cover(ex, st, "line and point")
        near = add(p1, mul(tc, u))
        w = LN + "::FindProjection"
        r = xyz(val(ex, st, ex.call_func(fnd(c, w, 1), l, args(X), st, None)))
        cases = [(z3.And(t >= 0, t <= 1), t)] + ([(t < 0, rv(0) if e1 else t), (t > 1, rv(1) if e2 else t)])
        if zero:
            cases = [(z3.BoolVal(True), rv(0))]
        dists = []
        for cond, tt in cases:
            s = st.clone()
            s.assume(cond)
            eq(ex, s, r, add(p1, mul(tt, u)), "nearest point of the line", w)
        if zero:
            return
        s = st.clone()
        pr = norm(val(ex, s, ex.call_func(fnd(c, LN + "::FindParameter", 1), l, args(X), s, None)))
        ex.oblige(s, pr == t, "parameter of the projection", where=LN + "::FindParameter")
    return run


def u_dist(e1, e2):
    """distances against the contract of FindProjection (proved above)"""
    def run(c):
        near = sym("near")
        K = {LN + "::FindProjection": lambda ex, st, f, this, a: Rec(PT, dict(zip("xyz", near)))}
        ex, st = start(c, K)
        l = line(ex, st, c, sym("p"), sym("q"), e1, e2)
        X = pt(ex, st, "x")
        d = sub(sym("x"), near)
        isroot(ex, st, val(ex, st, ex.call_func(fnd(c, LN + "::FindDistance", 1, lambda f: "Point" in str(f.params[0].get("type"))), l, args(X), st, None)), dot(d, d), "distance to the nearest point", LN + "::FindDistance")
        s = st.clone()
        b = val(ex, s, ex.call_func(fnd(c, LN + "::IsPointOnLine", 2), l, args(X, R("eps")), s, None))
        s.assume(R("eps") > 0)
        ex.oblige(s, b == (dot(d, d) < R("eps") * R("eps")), "on the line when nearer than the limit", where=LN + "::IsPointOnLine")
    return run


def u_side(c):
    ex, st = start(c)
    p1, u, t, n = sym("p"), sym("u"), R("t"), sym("n")
    st.assume(dot(u, n) == 0)
    st.assume(norm(u[0] * u[0] + u[1] * u[1]) > 0)
    for e1, e2 in FLAGS:
        s = st.clone()
        l = line(ex, s, c, p1, add(p1, u), e1, e2)
        tt = R("nearest")
        X = pt(ex, s, "x")
        near = add(p1, mul(tt, u))
        ex.contracts[LN + "::FindProjection"] = lambda ex, st, f, this, a: Rec(PT, dict(zip("xyz", near)))
        side = ex.alloc(s, z3.Bool("side0"), "side")
        d = sub(sym("x"), near)
        r = val(ex, s, ex.call_func(fnd(c, LN + "::FindDistanceAndSide", 2), l, args(X, side), s, None))
        w = LN + "::FindDistanceAndSide"
        isroot(ex, s, r, dot(d, d), "distance to the nearest point", w)
        z = cross(u, sub(sym("x"), p1))[2]
        g = val(ex, s, ex.load(s, side))
        for cond, want in ((z < 0, True), (z > 0, False)):
            s2 = s.clone()
            s2.assume(cond)
            ex.oblige(s2, g == z3.BoolVal(want), "side of the line", where=w)


def u_parallel(c):
    a, b = sym("a"), sym("b")
    K = {LN + "::GetDir": lambda ex, st, f, this, x: Rec(PT, dict(zip("xyz", a if this.root == ex.l1.root else b)))}
    cr = sym("cross")
    def c_cross(ex, st, f, this, x):
        vs = [xyz(ex.load(st, z.lv) if z.lv is not None else z.val) for z in ([Arg(lv=this)] if this is not None else []) + list(x)]
        for i, j, sg in ((a, b, 1), (b, a, -1)):
            if all(norm(y - z).eq(rv(0)) for y, z in zip(vs[0] + vs[1], i + j)):
                return Rec(PT, dict(zip("xyz", mul(rv(sg), cr))))
        return NotImplemented
    K[N + "Cross"] = K[PT + "::Cross"] = c_cross
    ex, st = start(c, K)
    ex.l1 = line(ex, st, c, sym("p"), sym("q"), True, True)
    l2 = line(ex, st, c, sym("r"), sym("s"), True, True)
    e = R("eps")
    w = LN + "::IsParallel"
    r = val(ex, st, ex.call_func(fnd(c, w, 2), ex.l1, args(l2, e), st, None))
    x = cr                     # the cross product of the two directions
    s = st.clone()
    s.assume(e > 0)
    s.assume(dot(x, x) != e * e)
    ex.oblige(s, r == (dot(x, x) < e * e), "parallel when the directions differ less than the limit", where=w)
    s = st.clone()
    s.assume(e == 0)
    s.assume(x[0] == 0)
    s.assume(x[1] == 0)
    s.assume(x[2] == 0)
    ex.oblige(s, r, "exactly parallel lines are parallel for every limit", where=w)


def free(e1, e2, s_):
    """parameter s_ is allowed on a line with these ends"""
    return ([s_ >= 0] if e1 else []) + ([s_ <= 1] if e2 else [])


def c_dot(table):
    """contract of Dot on the vectors the argument is about: the symbol of the pair (the body otherwise)"""
    def run(ex, st, f, this, a):
        vs = ([ex.load(st, this)] if this is not None else []) + [ex.load(st, x.lv) if x.lv is not None else x.val for x in a]
        x, y = [xyz(v) for v in vs]
        def find(v):
            for nm, w in table["vec"].items():
                for sg in (1, -1):
                    if all(norm(p - sg * q_).eq(rv(0)) for p, q_ in zip(v, w)):
                        return nm, sg
            return None
        i, j = find(x), find(y)
        if i is None or j is None:
            return NotImplemented
        k = tuple(sorted((i[0], j[0])))
        if k not in table["dot"]:
            return NotImplemented
        return norm(i[1] * j[1] * table["dot"][k])
    return run


def along(v, u):
    """the factor s of v = s u (u with symbols as coordinates)"""
    out = []
    for x, y in zip(v, u):
        p = T.poly(norm(x))
        k = T.atom_key(y)
        q_, r = T.pdiv_monomial(p, (k,))
        if r:
            return None
        out.append(T.from_poly(q_, T.Real))
    return out


def best(e1, e2, s_, g):
    """first-order condition in one parameter: slope zero, or pushing against an end"""
    return z3.Or(g == 0, *([z3.And(s_ == 0, g >= 0)] if e1 else []), *([z3.And(s_ == 1, g <= 0)] if e2 else []))


def u_linedist(F, G_, degenerate=None):
    """nearest points of two lines: the chosen parameters satisfy the optimality conditions of the convex squared distance"""
    def run(c):
        p, r, u, v = sym("p"), sym("r"), sym("u"), sym("v")
        w_ = sub(p, r)
        a, b, cc, d, e = [R("dot_" + k) for k in ("uu", "uv", "vv", "uw", "vw")]
        table = {"vec": {"u": u, "v": v, "w": w_}, "dot": {("u", "u"): a, ("u", "v"): b, ("v", "v"): cc, ("u", "w"): d, ("v", "w"): e}}
        if degenerate == "second":
            v = [rv(0)] * 3
            table = {"vec": {"u": u, "w": w_}, "dot": {("u", "u"): a, ("u", "w"): d}}
        if degenerate == "first":
            u = [rv(0)] * 3
            table = {"vec": {"v": v, "w": w_}, "dot": {("v", "v"): cc, ("v", "w"): e}}
        ex, st = start(c, {N + "Dot": c_dot(table), PT + "::Dot": c_dot(table)})
        if degenerate != "first":
            st.assume(a > 0)
        if degenerate != "second":
            st.assume(cc > 0)
        if degenerate is None:
            st.assume(a * cc - b * b >= 0)       # Cauchy-Schwarz
            st.assume(z3.Implies(a * cc - b * b == 0, z3.And(a * e == b * d, b * e == cc * d)))     # equality: v is a multiple of u
        l1 = line(ex, st, c, p, add(p, u), *F)
        l2 = line(ex, st, c, r, add(r, v), *G_)
        o1, o2 = pt(ex, st, "o"), pt(ex, st, "i")
        c.cover(ex, st, "two lines")
        w = LN + "::FindDistance"
        dist = val(ex, st, ex.call_func(fnd(c, w, 3), l1, args(l2, o1, o2), st, None))
        s3 = along(sub(xyz(ex.load(st, o1)), p), u) if degenerate != "first" else [rv(0)] * 3
        t3 = along(sub(xyz(ex.load(st, o2)), r), v) if degenerate != "second" else [rv(0)] * 3
        if s3 is None or t3 is None:
            raise ToolLimit("nearest points are not written along the lines")
        dv = sub(xyz(ex.load(st, o1)), xyz(ex.load(st, o2)))
        ex.oblige(st, norm(dist) == norm(sqrt(dot(dv, dv))), "distance of the two points", where=w)
        for k in (1, 2):
            for g, nm in ((s3, "first"), (t3, "second")):
                ex.oblige(st, g[0] == g[k], "the point lies on the %s line" % nm, where=w)
        s_, t = s3[0], t3[0]
        if degenerate == "first":
            for h in free(*G_, t):
                ex.oblige(st, h, "the nearest point is not beyond an end of the line", where=w)
            ex.oblige(st, best(*G_, t, norm(cc * t - e)), "no point of the line is nearer", where=w)
            eq(ex, st, xyz(ex.load(st, o1)), p, "the point itself", w)
            return
        if degenerate == "second":
            for h in free(*F, s_):
                ex.oblige(st, h, "the nearest point is not beyond an end of the line", where=w)
            ex.oblige(st, best(*F, s_, norm(a * s_ + d)), "no point of the line is nearer", where=w)
            eq(ex, st, xyz(ex.load(st, o2)), r, "the point itself", w)
            return
        for h in free(*F, s_) + free(*G_, t):
            ex.oblige(st, h, "the nearest points are not beyond an end", where=w)
        dd, sn, tn = norm(a * cc - b * b), norm(b * e - cc * d), norm(a * e - b * d)
        C1 = [[dd == 0], [dd > 0, sn < 0], [dd > 0, sn >= 0, sn <= dd], [dd > 0, sn > dd]]
        C2 = [[e < 0], [e >= 0, e <= cc], [e > cc]]
        for i, k1 in enumerate(C1):
            for j, k2 in enumerate([[]] if F != (True, True) or G_ != (True, True) else C2):
                s2 = st.clone()
                for h in k1 + k2:
                    s2.assume(h)
                ex.oblige(s2, best(*F, s_, norm(a * s_ - b * t + d)), "no point of the first line is nearer (case %d%d)" % (i, j), where=w)
                ex.oblige(s2, best(*G_, t, norm(cc * t - b * s_ - e)), "no point of the second line is nearer (case %d%d)" % (i, j), where=w)
    return run


def u_convex(c):
    """lemma: first-order conditions give the least distance over all allowed pairs"""
    ex, st = start(c)
    a, b, cc, d, e = [R("dot_" + k) for k in ("uu", "uv", "vv", "uw", "vw")]
    s_, t, x, y = R("s"), R("t"), R("s1"), R("t1")
    f = lambda s_, t: norm(a * s_ * s_ - 2 * b * s_ * t + cc * t * t + 2 * d * s_ - 2 * e * t)
    gs, gt = norm(a * s_ - b * t + d), norm(cc * t - b * s_ - e)
    ds, dt = x - s_, y - t
    ex.oblige(st, norm(f(x, y) - f(s_, t)) == norm(2 * gs * ds + 2 * gt * dt + a * ds * ds - 2 * b * ds * dt + cc * dt * dt), "expansion of the squared distance", where="lemma")
    X, Y = R("X"), R("Y")
    st.assume(a > 0)
    st.assume(a * cc - b * b >= 0)
    ex.oblige(st, norm(a * (a * X * X - 2 * b * X * Y + cc * Y * Y)) == norm((a * X - b * Y) * (a * X - b * Y) + (a * cc - b * b) * Y * Y), "the quadratic part is a sum of squares", where="lemma")
    for e1, e2 in FLAGS:
        s2 = st.clone()
        s2.assume(best(e1, e2, s_, R("g")))
        for h in free(e1, e2, x) + free(e1, e2, s_):
            s2.assume(h)
        ex.oblige(s2, R("g") * (x - s_) >= 0, "the linear part is not negative %d%d" % (e1, e2), where="lemma")


# ---- transformations
def u_transform(name, pars, f):
    """a transformation applied after whatever was there before"""
    def run(c):
        ex, st = start(c)
        o = ex.construct(TF, [], st, None)
        T_ = ex.alloc(st, o, "transformation")
        w = TF + "::" + name
        P_ = pt(ex, st, "x")
        ex.call_func(fnd(c, TF + "::Transform", 1), T_, args(P_), st, None)
        eq(ex, st, xyz(ex.load(st, P_)), sym("x"), "a new transformation leaves points", TF)
        # arbitrary earlier transformation
        mats = [k for k, v in o.f.items()]
        if len(mats) != 1:
            raise ToolLimit("transformation state")
        A = [[R("m%d%d" % (i, j)) if i < 3 else rv(1 if j == 3 else 0) for j in range(4)] for i in range(4)]
        ex.store(st, T_, Rec(TF, {mats[0]: matrix(ex, st, o.f[mats[0]], A)}))
        x = sym("x")
        y = [norm(sum(A[i][j] * x[j] for j in range(3)) + A[i][3]) for i in range(3)]
        P_ = pt(ex, st, "x")
        ex.call_func(fnd(c, TF + "::Transform", 1), T_, args(P_), st, None)
        eq(ex, st, xyz(ex.load(st, P_)), y, "the earlier transformation", TF + "::Transform")
        v = [R(k) for k in pars]
        ex.call_func(fnd(c, w, len(v)), T_, args(*v), st, None)
        P_ = pt(ex, st, "x")
        c.cover(ex, st, name)
        ex.call_func(fnd(c, TF + "::Transform", 1), T_, args(P_), st, None)
        eq(ex, st, xyz(ex.load(st, P_)), f(*y, *v), "applied after the earlier one", w)
    return run


def matrix(ex, st, old, A):
    if not isinstance(old, ListV):
        raise ToolLimit("matrix representation %s" % type(old).__name__)
    return ListV(old.elem, [ListV(r.elem, [norm(x) for x in A[i]]) for i, r in enumerate(old.items)])


def rot(i, j):
    def f(x, y, z, a):
        v = [x, y, z]
        cs, sn = mathfn("cos", a), mathfn("sin", a)
        v[i], v[j] = cs * v[i] - sn * v[j], sn * v[i] + cs * v[j]
        return v
    return f


OPS = [("TranslateX", ("t",), lambda x, y, z, t: [x + t, y, z]), ("TranslateY", ("t",), lambda x, y, z, t: [x, y + t, z]), ("TranslateZ", ("t",), lambda x, y, z, t: [x, y, z + t]),
       ("StretchX", ("t",), lambda x, y, z, t: [t * x, y, z]), ("StretchY", ("t",), lambda x, y, z, t: [x, t * y, z]), ("StretchZ", ("t",), lambda x, y, z, t: [x, y, t * z]),
       ("RotateX", ("t",), rot(1, 2)), ("RotateY", ("t",), rot(2, 0)), ("RotateZ", ("t",), rot(0, 1)),
       ("ShearXY", ("t", "h"), lambda x, y, z, t, h: [x + t * z, y + h * z, z]), ("ShearXZ", ("t", "h"), lambda x, y, z, t, h: [x + t * y, y, z + h * y]), ("ShearYZ", ("t", "h"), lambda x, y, z, t, h: [x, y + t * x, z + h * x]),
       ("MirrorXY", (), lambda x, y, z: [x, y, -z]), ("MirrorXZ", (), lambda x, y, z: [x, -y, z]), ("MirrorYZ", (), lambda x, y, z: [-x, y, z])]


def u_intersect(kind, infinite):
    """lines in the plane: q1 is placed so that the lines meet at parameters s and t"""
    def run(c):
        ex, st = start(c)
        w = LN + "::IntersectXY"
        p1, u, v, s_, t = sym("p"), sym("u"), sym("v"), R("s"), R("t")
        den = norm(u[0] * v[1] - u[1] * v[0])
        x = add(p1, mul(s_, u))
        q1 = sub(x, mul(t, v))
        q1[2] = R("qz")
        if kind == "parallel":
            k = R("k")
            v = [norm(k * u[0]), norm(k * u[1]), v[2]]
            q1 = sym("q")
        else:
            st.assume(den != 0)
        l1 = line(ex, st, c, p1, add(p1, u), True, True)
        l2 = line(ex, st, c, q1, add(q1, v), True, True)
        o = pt(ex, st, "o")
        c.cover(ex, st, "two lines")
        inf = ex.alloc(st, z3.BoolVal(infinite), "infinite")
        r = val(ex, st, ex.call_func(fnd(c, w, 3), l1, args(l2, o, inf), st, None))
        g = xyz(ex.load(st, o))
        if kind == "parallel":
            ex.oblige(st, z3.Not(r), "parallel lines do not meet", where=w)
            eq(ex, st, g, [rv(0)] * 3, "no point", w)
            return
        hit = [t >= 0, t <= 1] + ([] if infinite else [s_ >= 0, s_ <= 1])
        s2 = st.clone()
        for h in hit:
            s2.assume(h)
        ex.oblige(s2, r, "meeting lines are found", where=w)
        eq(ex, s2, g, [x[0], x[1], rv(0)], "the meeting point", w)
        for k, h in enumerate(hit):
            s2 = st.clone()
            s2.assume(z3.Not(h))
            ex.oblige(s2, z3.Not(r), "lines that end before do not meet (%d)" % k, where=w)
            eq(ex, s2, g, [rv(0)] * 3, "no point (%d)" % k, w)
    return run


# ---- planes
def plane(ex, st, c):
    """a plane as the constructors leave it: a point and a normal of length one"""
    n = sym("n")
    o = ex.construct(PL, args(pt(ex, st, "r"), pt(ex, st, n)), st, None)
    return ex.alloc(st, o, "plane")


UNIT = {PT + "::GetNormalized": lambda ex, st, f, this, a: ex.load(st, this)}     # of a vector of length one


def u_planector(c):
    NZ = sym("normalized")
    seen = []
    def nz(ex, st, f, this, a):
        seen.append(xyz(ex.load(st, this)))
        return Rec(PT, dict(zip("xyz", NZ)))
    ex, st = start(c, {PT + "::GetNormalized": nz})
    o = ex.alloc(st, ex.construct(PL, args(pt(ex, st, "r"), pt(ex, st, "n")), st, None), "plane")
    g = lambda nm: xyz(val(ex, st, ex.call_func(fnd(c, PL + "::" + nm, 0), o, [], st, None)))
    w = PL + "::Plane"
    eq(ex, st, g("GetRefPoint"), sym("r"), "reference point", w)
    eq(ex, st, g("GetNormalVector"), NZ, "normal of length one", w)
    if not seen:
        raise ToolLimit("normal not normalised by GetNormalized")
    eq(ex, st, seen[-1], sym("n"), "direction of the normal", w)
    a, b, d = sym("a"), sym("b"), sym("d")
    x = cross(sub(b, a), sub(d, a))
    st.assume(dot(x, x) > 0)
    del seen[:]
    o = ex.alloc(st, ex.construct(PL, args(pt(ex, st, "a"), pt(ex, st, "b"), pt(ex, st, "d")), st, None), "plane")
    eq(ex, st, g("GetNormalVector"), NZ, "normal of length one (three points)", w)
    if not seen:
        raise ToolLimit("normal not normalised by GetNormalized")
    eq(ex, st, cross(seen[-1], x), [rv(0)] * 3, "normal to the three points", w)
    ex.oblige(st, norm(dot(seen[-1], x)) > 0, "orientation of the three points", where=w)
    R_ = g("GetRefPoint")
    ex.oblige(st, z3.Or(*[z3.And(*[x == y for x, y in zip(R_, v)]) for v in (a, b, d)]), "reference point is one of the points", where=w)


def u_plane(c):
    r, n, x = sym("r"), sym("n"), sym("x")
    ex, st = start(c, UNIT)
    st.assume(dot(n, n) == 1)
    o = plane(ex, st, c)
    X = pt(ex, st, "x")
    h = dot(n, sub(x, r))
    f = lambda nm, k, *a: val(ex, st, ex.call_func(fnd(c, PL + "::" + nm, k), o, args(*a), st, None))
    d = norm(f("FindDistance", 1, X))
    ex.oblige(st, d == ab(h), "distance to the plane", where=PL + "::FindDistance")
    eq(ex, st, xyz(f("FindProjection", 1, X)), sub(x, mul(h, n)), "foot of the perpendicular", PL + "::FindProjection")
    ex.oblige(st, f("IsPointOnPlane", 2, X, R("eps")) == (ab(h) <= R("eps")), "on the plane within the limit", where=PL + "::IsPointOnPlane")
    ex.oblige(st, f("IsOnPositiveSide", 1, X) == (h > 0), "side of the plane", where=PL + "::IsOnPositiveSide")


def u_planeline(e1, e2):
    """the line meets the plane at its parameter t"""
    def run(c):
        ex, st = start(c, UNIT)
        n, x, u, t, w_ = sym("n"), sym("x"), sym("u"), R("t"), sym("w")
        st.assume(dot(n, n) == 1)
        b = dot(n, u)
        # reference point anywhere in the plane through the meeting point
        st.assume(dot(n, sub(sym("r"), x)) == 0)
        o = plane(ex, st, c)
        p1 = sub(x, mul(t, u))
        l = line(ex, st, c, p1, add(p1, u), e1, e2)
        c.cover(ex, st, "plane and line")
        w = PL + "::FindIntersection"
        eps = R("eps")
        par = val(ex, st, ex.call_func(fnd(c, PL + "::IsParallel", 2), o, args(l, eps), st, None))
        ex.oblige(st, par == (ab(b) <= eps), "parallel to the plane within the limit", where=PL + "::IsParallel")
        out = pt(ex, st, "out")
        st.assume(eps >= 0)
        s = st.clone()
        got = val(ex, s, ex.call_func(fnd(c, w, 3), o, args(l, out, eps), s, None))
        s2 = s.clone()
        s2.assume(ab(b) <= eps)
        ex.oblige(s2, z3.Not(got), "a parallel line does not meet the plane", where=w)
        s.assume(ab(b) > eps)
        s2 = s.clone()
        for h in free(e1, e2, t):
            s2.assume(h)
        ex.oblige(s2, got, "the line meets the plane", where=w)
        eq(ex, s2, xyz(ex.load(s2, out)), x, "meeting point", w)
        for k, h in enumerate(free(e1, e2, t)):
            s2 = s.clone()
            s2.assume(z3.Not(h))
            ex.oblige(s2, z3.Not(got), "a line that ends before the plane (%d)" % k, where=w)
        s = st.clone()
        s.assume(b != 0)
        got = xyz(val(ex, s, ex.call_func(fnd(c, w, 1, lambda f: "Line" in str(f.params[0].get("type"))), o, args(l), s, None)))
        eq(ex, s, got, x, "meeting point of the extended line", w)
    return run


def u_planes(c):
    a, n, b, m_ = sym("a"), sym("n"), sym("b"), sym("m")
    for par in (False, True):
        ex, st = start(c, UNIT)
        mm = n if par else m_
        P1 = ex.alloc(st, ex.construct(PL, args(pt(ex, st, "a"), pt(ex, st, n)), st, None), "plane")
        P2 = ex.alloc(st, ex.construct(PL, args(pt(ex, st, "b"), pt(ex, st, mm)), st, None), "plane")
        x = cross(n, mm)
        full = st.clone()          # what is assumed of the two planes
        full.assume(dot(n, n) == 1)
        full.assume(dot(mm, mm) == 1)
        if not par:
            full.assume(dot(x, x) > 0)
            full.assume(R("k") == dot(n, m_))
            # consequences, the only facts given to the solver: |n x m| > 0, k^2 < 1 (Lagrange's identity), and what the
            # lengths of the normals make of their coefficients in the first point
            table = {"vec": {"n": n, "m": m_, "a": a, "b": b}, "dot": {("m", "n"): R("k"), ("a", "n"): R("da"), ("b", "m"): R("db")}}
            ex.contracts[N + "Dot"] = ex.contracts[PT + "::Dot"] = c_dot(table)
            def c_norm(ex, st, f, this, z):
                v = xyz(ex.load(st, this if this is not None else z[0].lv) if this is not None or z[0].lv is not None else z[0].val)
                return R("L") if any(all(norm(y - sg * w_).eq(rv(0)) for y, w_ in zip(v, x)) for sg in (1, -1)) else NotImplemented
            ex.contracts[N + "Norm"] = ex.contracts[PT + "::Norm"] = c_norm
            st.assume(R("L") > 0)
            st.assume(R("da") == dot(n, a))
            st.assume(R("db") == dot(m_, b))
            st.assume(norm(1 - R("k") * R("k")) > 0)
            D_ = 1 / norm(1 - R("k") * R("k"))
            for C in (norm((R("da") - R("db") * R("k")) * D_), norm((R("db") - R("da") * R("k")) * D_)):
                for y, w_, val_ in ((n, n, rv(1)), (m_, m_, rv(1)), (n, m_, R("k"))):
                    st.assume(norm(C * dot(y, w_)) == norm(C * val_))
            for y in (R("da"), R("db")):
                st.assume(norm(y * D_ - y * D_ * R("k") * R("k")) == y)
        c.cover(ex, full, "two planes")
        w = PL + "::FindIntersection"
        o = val(ex, st, ex.call_func(fnd(c, w, 1, lambda f: "Plane" in str(f.params[0].get("type"))), P1, args(P2), st, None))
        l = ex.alloc(st, o, "line")
        p, q_ = point_of(c, ex, st, l, "GetPt1"), point_of(c, ex, st, l, "GetPt2")
        if par:
            eq(ex, st, p, q_, "no line for parallel planes", w)
            continue
        for nm, z in (("first", p), ("second", q_)):
            ex.oblige(st, dot(n, sub(z, a)) == 0, nm + " point in the first plane", where=w)
            ex.oblige(st, dot(m_, sub(z, b)) == 0, nm + " point in the second plane", where=w)
        full.assume(R("L") > 0)
        full.assume(norm(1 - R("k") * R("k")) > 0)
        eq(ex, st, cross(sub(q_, p), x), [rv(0)] * 3, "direction of the line", w)
        ex.oblige(full, norm(dot(sub(q_, p), x)) != 0, "two different points", where=w)
        for nm in ("IsEndPt1", "IsEndPt2"):
            ex.oblige(st, z3.Not(val(ex, st, ex.call_func(fnd(c, LN + "::" + nm, 0), l, [], st, None))), "infinite line", where=w)


# ---- triangles
def u_triangle(e1, e2, edge):
    """the line meets the plane of the triangle at p1 + s u + t v, at its parameter r"""
    def run(c):
        ex, st = start(c)
        p1, u, v, d, s_, t, r = sym("p"), sym("u"), sym("v"), sym("d"), R("s"), R("t"), R("r")
        n = cross(u, v)
        st.assume(dot(n, d) != 0)
        x = add(add(p1, mul(s_, u)), mul(t, v))
        q1 = sub(x, mul(r, d))
        o = ex.alloc(st, ex.construct(TR, args(pt(ex, st, p1), pt(ex, st, add(p1, u)), pt(ex, st, add(p1, v))), st, None), "triangle")
        l = line(ex, st, c, q1, add(q1, d), e1, e2)
        out = pt(ex, st, "out")
        w = TR + "::FindIntersection"
        c.cover(ex, st, "triangle and line")
        got = val(ex, st, ex.call_func(fnd(c, w, 3), o, args(l, out, z3.BoolVal(edge)), st, None))
        ins = free(e1, e2, r) + ([s_ >= 0, t >= 0, s_ + t <= 1] if edge else [s_ > 0, t > 0, s_ + t < 1])
        s2 = st.clone()
        for h in ins:
            s2.assume(h)
        ex.oblige(s2, got, "a line through the triangle meets it", where=w)
        eq(ex, s2, xyz(ex.load(s2, out)), x, "meeting point", w)
        for k, h in enumerate(ins):
            s2 = st.clone()
            s2.assume(z3.Not(h))
            ex.oblige(s2, z3.Not(got), "a line beside the triangle misses it (%d)" % k, where=w)
    return run


def u_flat(kind):
    """a degenerate triangle, or a line parallel to the plane of the triangle, has no intersection"""
    def run(c):
        ex, st = start(c)
        p1, u, v, d, q1 = sym("p"), sym("u"), sym("v"), sym("d"), sym("q")
        if kind == "degenerate":
            v = mul(R("k"), u)
        elif kind == "point":
            u, v = [rv(0)] * 3, v
        else:
            d = add(mul(R("g"), u), mul(R("h"), v))
        o = ex.alloc(st, ex.construct(TR, args(pt(ex, st, p1), pt(ex, st, add(p1, u)), pt(ex, st, add(p1, v))), st, None), "triangle")
        for e1, e2 in FLAGS:
            for edge in (True, False):
                s2 = st.clone()
                l = line(ex, s2, c, q1, add(q1, d), e1, e2)
                got = val(ex, s2, ex.call_func(fnd(c, TR + "::FindIntersection", 3), o, args(l, pt(ex, s2, "out"), z3.BoolVal(edge)), s2, None))
                ex.oblige(s2, z3.Not(got), "no intersection (%s) %d%d%d" % (kind, e1, e2, edge), where=TR + "::FindIntersection")
    return run


def u_nearest(c):
    """nearest point of a triangle: the meeting point, or the nearest point of the nearest edge, given the contracts of the intersection and of the distance of lines"""
    E, D, hit = [sym("edge%d" % k) for k in range(3)], [R("dist%d" % k) for k in range(3)], z3.Bool("meets")
    P_ = [sym("p"), sym("q"), sym("r")]
    sides = [(0, 1), (1, 2), (0, 2)]
    box = {}

    def same(a, b):
        return all(norm(x - y).eq(rv(0)) for x, y in zip(a, b))

    def which(ex, st, lv):
        a, b = point_of(c, ex, st, lv, "GetPt1"), point_of(c, ex, st, lv, "GetPt2")
        ends = [val(ex, st, ex.call_func(fnd(c, LN + "::" + n, 0), lv, [], st, None)) for n in ("IsEndPt1", "IsEndPt2")]
        if same(a, sym("a")) and same(b, sym("b")):
            return "line" if all(x.eq(y) for x, y in zip(ends, (z3.Bool("e1"), z3.Bool("e2")))) else None
        for k, (i, j) in enumerate(sides):
            if (same(a, P_[i]) and same(b, P_[j]) or same(a, P_[j]) and same(b, P_[i])) and all(z3.is_true(z3.simplify(x)) for x in ends):
                return k
        return None

    def c_meet(ex, st, f, this, a):
        if len(a) < 2 or a[0].lv is None or which(ex, st, a[0].lv) != "line":
            return NotImplemented
        edge = a[2].val if len(a) > 2 and a[2].val is not None else z3.BoolVal(False)
        ex.oblige(st, edge, "the edge belongs to the triangle", where=TR + "::FindNearestPoint")
        ex.store(st, a[1].lv, Rec(PT, dict(zip("xyz", sym("meet")))))
        return hit

    def c_dist(ex, st, f, this, a):
        if len(a) not in (1, 3) or a[0].lv is None:
            return NotImplemented
        if "Line" not in str(f.params[0].get("type")):
            return NotImplemented
        i, j = which(ex, st, this), which(ex, st, a[0].lv)
        if not ((i == "line") != (j == "line")) or i is None or j is None:
            return NotImplemented
        k = j if i == "line" else i
        if len(a) == 3:
            mine, other = (a[2], a[1]) if i == "line" else (a[1], a[2])
            ex.store(st, other.lv, Rec(PT, dict(zip("xyz", sym("other%d" % k)))))
            ex.store(st, mine.lv, Rec(PT, dict(zip("xyz", E[k]))))
        return D[k]

    ex, st = start(c, {TR + "::FindIntersection": c_meet, LN + "::FindDistance": c_dist})
    for d in D:
        st.assume(d >= 0)
    l = line(ex, st, c, sym("a"), sym("b"), True, True)
    r = ex.load(st, l)
    r = Rec(r.cls, dict(r.f, end1_=z3.Bool("e1"), end2_=z3.Bool("e2"))) if {"end1_", "end2_"} <= set(r.f) else r
    ex.store(st, l, r)
    o = ex.alloc(st, ex.construct(TR, args(*[pt(ex, st, x) for x in P_]), st, None), "triangle")
    out = pt(ex, st, "out")
    w = TR + "::FindNearestPoint"
    c.cover(ex, st, "triangle and line")
    got = norm(val(ex, st, ex.call_func(fnd(c, w, 2), o, args(l, out), st, None)))
    n = xyz(ex.load(st, out))
    s2 = st.clone()
    s2.assume(hit)
    ex.oblige(s2, got == 0, "a line that meets the triangle has distance zero", where=w)
    eq(ex, s2, n, sym("meet"), "the nearest point is the meeting point", w)
    s2 = st.clone()
    s2.assume(z3.Not(hit))
    for k in range(3):
        ex.oblige(s2, got <= D[k], "no edge is nearer (%d)" % k, where=w)
    ex.oblige(s2, z3.Or(*[z3.And(got == D[k], *[x == y for x, y in zip(n, E[k])]) for k in range(3)]), "the nearest point of a nearest edge", where=w)


def plist(ex, st, n):
    F = [z3.Function("list_" + k, T.Int, T.Real) for k in "xyz"]
    at = lambda i: [f(norm(i)) for f in F]
    return ex.alloc(st, ArrV(PT, Base("fn", lambda i: Rec(PT, dict(zip("xyz", at(i))))), (), n), "points"), at


def u_listlen(c):
    ex, st = start(c)
    n = z3.Int("n")
    st.assume(n >= 0)
    l, at = plist(ex, st, n)
    w = PT + "::CalculatePointVectorLength"
    f = fnd(c, w, 1)
    s = st.clone()
    s.assume(n < 2)
    ex.oblige(s, norm(val(ex, s, ex.call_func(f, None, args(l), s, None))) == 0, "a list without a step has length zero", where=w)
    s = st.clone()
    s.assume(n >= 2)
    r = norm(val(ex, s, ex.call_func(f, None, args(l), s, None)))
    step = lambda t: norm(sqrt(dot(sub(at(t + 1), at(t)), sub(at(t + 1), at(t)))))
    summed(ex, s, r, norm(n - 1), step, w, "length of a list of points")


def u_inlist(c):
    ex, st = start(c)
    n, t = z3.Int("n"), z3.Int("t")
    st.assume(n >= 0)
    l, at = plist(ex, st, n)
    p = pt(ex, st, "p")
    w = PT + "::IsInList"
    same = lambda i: z3.And(*[x == y for x, y in zip(at(i), sym("p"))])

    def templates(ex, st, vals):
        ints = [v for v in vals if isinstance(v, z3.ExprRef) and v.sort() == T.Int]
        flags = [v for v in vals if isinstance(v, z3.ExprRef) and v.sort() == T.Bool]
        out = [v >= 0 for v in ints] + [v <= n for v in ints] + [z3.Not(b) for b in flags]
        for v in ints:
            for h in (t < v, t >= v):
                out += [z3.Implies(z3.And(h, t >= 0, t < n), z3.Not(same(t)))] + [z3.Implies(z3.And(h, t >= 0, t < n, same(t)), b) for b in flags]
        return out
    ex.loop_candidates = templates
    s = st.clone()
    s.assume(z3.And(t >= 0, t < n))
    s.assume(same(t))
    r = val(ex, s, ex.call_func(fnd(c, w, 1), p, args(l), s, None))
    ex.oblige(s, r, "a member of the list is found", where=w)
    s = st.clone()
    i = z3.Int("i")
    s.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Not(same(i)))))
    r = val(ex, s, ex.call_func(fnd(c, w, 1), p, args(l), s, None))
    ex.oblige(s, z3.Not(r), "a point that is not in the list is not found", where=w)
    ex.loop_candidates = None


def u_overlap(c):
    """overlapping lines: parallel, and an end of one is on the other (given the contracts of IsParallel and IsPointOnLine)"""
    par, lim = z3.Bool("par"), R("limit")
    P_ = [sym("p"), sym("q"), sym("r"), sym("s")]
    on = [z3.Bool("on%d" % k) for k in range(4)]

    def same(a, b):
        return all(norm(x - y).eq(rv(0)) for x, y in zip(a, b))

    def first(ex, st, lv):
        return same(point_of(c, ex, st, lv, "GetPt1"), P_[0])

    def lim_ok(ex, st, a):
        x = norm(val(ex, st, a.lv if a.lv is not None else a.val))
        return x.eq(lim)

    def c_par(ex, st, f, this, a):
        if first(ex, st, this) == first(ex, st, a[0].lv) or not lim_ok(ex, st, a[1]):
            return NotImplemented
        return par

    def c_on(ex, st, f, this, a):
        x = xyz(ex.load(st, a[0].lv) if a[0].lv is not None else a[0].val)
        mine = first(ex, st, this)
        for k in range(4):
            if same(x, P_[k]) and (k >= 2) == mine and lim_ok(ex, st, a[1]):
                return on[k]
        return NotImplemented

    ex, st = start(c, {LN + "::IsParallel": c_par, LN + "::IsPointOnLine": c_on})
    l, m = line(ex, st, c, P_[0], P_[1], True, True), line(ex, st, c, P_[2], P_[3], True, True)
    w = LN + "::IsOverLapping"
    got = val(ex, st, ex.call_func(fnd(c, w, 2), l, args(m, lim), st, None))
    ex.oblige(st, got == z3.And(par, z3.Or(*on)), "overlapping: parallel with an end point of one on the other", where=w)


def u_defaults(c):
    """omitted arguments: exact comparisons, segments, and bounded lines"""
    ex, st = start(c)
    pl = lambda f: "Point" in str(f.params[1].get("type"))

    def dflt(w, n, i, want, desc, pred=lambda f: True):
        fs = [f for f in c.P.find(w, n) if pred(f)]
        if len(fs) != 1:
            raise ToolLimit("%d candidates for %s/%d" % (len(fs), w, n))
        v = val(ex, st, ex.ev(ex.default_arg(fs[0], i), st))
        ex.oblige(st, want(norm(v) if not z3.is_bool(v) else v), desc, where=w)
    zero, small = (lambda v: v == 0), (lambda v: z3.And(v > 0, v <= q("1/1000")))
    for w, n, i, f, d in ((LN + "::IsParallel", 2, 1, zero, "exactly parallel"), (LN + "::IsPointOnLine", 2, 1, small, "a small positive limit"), (LN + "::IsOverLapping", 2, 1, small, "a small positive limit"),
                          (LN + "::IntersectXY", 3, 2, z3.Not, "bounded lines"), (LN + "::SetPt", 4, 2, lambda v: v, "ends at the first point"), (LN + "::SetPt", 4, 3, lambda v: v, "ends at the second point"),
                          (LN + "::Line", 4, 2, lambda v: v, "ends at the first point"), (LN + "::Line", 4, 3, lambda v: v, "ends at the second point"),
                          (PL + "::FindIntersection", 3, 2, zero, "exactly parallel"), (PL + "::IsParallel", 2, 1, zero, "exactly parallel"), (PL + "::IsPointOnPlane", 2, 1, small, "a small positive limit")):
        dflt(w, n, i, f, "omitted argument: " + d)
    c.cover(ex, st, "omitted arguments")


def units():
    us = [("omitted arguments", u_defaults), ("point algebra", u_algebra), ("point swap", u_swap), ("lengths", u_norms), ("normalising", u_normalized), ("angle", u_angle), ("inverse matrix", u_inverse),
          ("line parts", u_lineparts), ("zero-length line", u_proj(True, True, True)), ("side", u_side), ("parallel", u_parallel)]
    for e1, e2 in FLAGS:
        us += [("projection on a line %d%d" % (e1, e2), u_proj(e1, e2)), ("distance to a line %d%d" % (e1, e2), u_dist(e1, e2))]
        us += [("plane and line %d%d" % (e1, e2), u_planeline(e1, e2))]
    us += [("crossing lines %d" % i, u_intersect("cross", i)) for i in (False, True)] + [("parallel lines %d" % i, u_intersect("parallel", i)) for i in (False, True)]
    us += [("plane construction", u_planector), ("plane", u_plane), ("two planes", u_planes)]
    us += [("triangle %d%d%d" % (e1, e2, g), u_triangle(e1, e2, g)) for e1, e2 in FLAGS for g in (True, False)]
    us += [("distance of lines %d%d %d%d" % (F + G_), u_linedist(F, G_)) for F in FLAGS for G_ in FLAGS]
    us += [("distance of a line %d%d from a point" % F, u_linedist(F, (True, True), "second")) for F in FLAGS]
    us += [("distance of a point from a line %d%d" % F, u_linedist((True, True), F, "first")) for F in FLAGS]
    us += [("least distance lemma", u_convex), ("nearest point of a triangle", u_nearest), ("overlapping lines", u_overlap), ("length of a list", u_listlen), ("member of a list", u_inlist)]
    us += [("triangle %s" % k, u_flat(k)) for k in ("degenerate", "point", "parallel")]
    us += [(n, u_transform(n, p, f)) for n, p, f in OPS]
    return [(TU, Unit(n, f, tmo=60)) for n, f in us]


ASSUMPTIONS = ["a normal vector has length one in real arithmetic; exact comparisons (parallel, on the edge) are those of real numbers",
               "facts of vector algebra used as lemmas: Cauchy-Schwarz with its equality case, Lagrange's identity"]


def gen(rng, budget, tier):
    for k in range({"std": 600, "deep": 8000}[budget]):
        for s in ("points", "lines", "planes", "triangles", "transformations"):
            yield "%s %d" % (s, rng.randint(1, 10 ** 9))


def harness(scratch):
    return Harness(scratch, "geom.cpp", ["nrlib/geometry/%s.cpp" % s for s in ("point", "line", "plane", "triangle", "transformation")], gen,
                   "random and lattice points, lines of every kind, planes, triangles and chains of transformations against vector algebra")
