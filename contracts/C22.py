"""C22: polygons: membership, orientation, convexity, extent, circumference and distances along the border."""
from .lib import *
from .C20 import fnd, val, xyz, sym, pt, dot, sub, eq, args, sqrt, PT

TU = {"file": "poly.cpp"}
PG = "NRLib::Polygon"
F = [z3.Function("p" + k, T.Int, T.Real) for k in "xyz"]
n = I("n")


def at(i):
    return [f(norm(i)) for f in F]


def start(c, K=None, least=0):
    ex, st = c.exec(K or {}), State()
    ex.check_bounds = True
    st.assume(n >= least)
    st.assume(n < 2 ** 31)
    st.assume(z3.ForAll([I("flat")], F[2](I("flat")) == 0))          # a polygon in the plane
    return ex, st


def poly(c, ex, st):
    fs = c.P.classes[PG]["fields"]
    if len(fs) != 1:
        raise ToolLimit("members of Polygon")
    return ex.alloc(st, Rec(PG, {fs[0][0]: ArrV(PT, Base("fn", lambda i: Rec(PT, dict(zip("xyz", at(i)[:2] + [rv(0)])))), (), n)}), "polygon")


def points(ex, st, o):
    v = ex.load(st, o)
    return list(v.f.values())[0] if isinstance(v, Rec) else v


def size(ex, st, v):
    return norm(v.size) if isinstance(v, ArrV) else iv(len(v.items))


def item(ex, st, v, i):
    return xyz(ex.elem(st, v, i))


def reals(vals):
    return [v for v in vals if isinstance(v, z3.ExprRef) and v.sort() == T.Real]


def ints(vals):
    return [v for v in vals if isinstance(v, z3.ExprRef) and v.sort() == T.Int]


def bools(vals):
    return [v for v in vals if isinstance(v, z3.ExprRef) and v.sort() == T.Bool]


prev = lambda i: z3.If(i <= 0, n - 1, i - 1)
nxt = lambda i: z3.If(i + 1 < n, i + 1, iv(0))


# ---- parts
def u_parts(c):
    ex, st = start(c)
    c.cover(ex, st, "any polygon")
    w = PG + "::Polygon"
    o = ex.alloc(st, ex.construct(PG, [], st, None), "empty")
    S = fnd(c, PG + "::GetSize", 0)
    ex.oblige(st, val(ex, st, ex.call_func(S, o, [], st, None)) == 0, "a new polygon is empty", where=w)
    o = ex.alloc(st, ex.construct(PG, args(n), st, None), "sized")
    ex.oblige(st, val(ex, st, ex.call_func(S, o, [], st, None)) == n, "a polygon of given size", where=w)
    o = poly(c, ex, st)
    ex.oblige(st, val(ex, st, ex.call_func(S, o, [], st, None)) == n, "number of points", where=PG + "::GetSize")
    t = I("t")
    s = st.clone()
    s.assume(z3.And(t >= 0, t < n))
    for nm in ("operator()", "operator[]"):
        for k, f in enumerate(c.P.find(PG + "::" + nm, 1)):
            eq(ex, s, xyz(val(ex, s, ex.call_func(f, o, args(t), s, None))), at(t)[:2] + [rv(0)], "%s: the point of that number" % nm, PG + "::" + nm)
    for k, f in enumerate(c.P.find(PG + "::GetPoints", 2)):
        for closed in (False, True, None):
            s = st.clone()
            out = ex.alloc(s, ArrV(PT, Base("fn", lambda i: Rec(PT, dict(zip("xyz", [R("old")] * 3)))), (), I("oldsize")), "out")
            a = args(out) + ([Arg(val=z3.BoolVal(closed))] if closed is not None else [Arg(val=ex.ev(ex.default_arg(f, 1), s))])
            r = ex.call_func(f, o, a, s, None)
            v = val(ex, s, r)
            w = PG + "::GetPoints"
            m = z3.If(z3.And(z3.BoolVal(bool(closed)), n > 0), n + 1, n)
            ex.oblige(s, z3.BoolVal(isinstance(r, LV) and r.root == out.root), "the vector given is returned (%s)" % closed, where=w)
            ex.oblige(s, size(ex, s, v) == m, "number of points copied (%s)" % closed, where=w)
            s.assume(z3.And(t >= 0, t < m))
            s2 = s.clone()
            s2.assume(t < n)
            eq(ex, s2, item(ex, s2, v, t), at(t)[:2] + [rv(0)], "the points in order (%s)" % closed, w)
            if closed:
                s.assume(t == n)
                eq(ex, s, item(ex, s, v, t), at(iv(0))[:2] + [rv(0)], "the first point again", w)
    s = st.clone()
    w = PG + "::AddPoint"
    ex.call_func(fnd(c, w, 1), o, args(pt(ex, s, "q")), s, None)
    v = points(ex, s, o)
    ex.oblige(s, size(ex, s, v) == n + 1, "one more point", where=w)
    eq(ex, s, item(ex, s, v, n), sym("q"), "the new point is the last", w)
    s.assume(z3.And(t >= 0, t < n))
    eq(ex, s, item(ex, s, v, t), at(t)[:2] + [rv(0)], "the other points are kept", w)


# ---- membership
def meets(i, j, x, y):
    """the edge from point i to point j crosses the ray from (x,y) in the direction of x; only one end of the edge counts"""
    a, b = at(i), at(j)
    lo, hi = z3.If(a[1] <= b[1], a[1], b[1]), z3.If(a[1] >= b[1], a[1], b[1])
    return z3.And(y <= hi, y > lo, x < cut(a, b, y))


def cut(a, b, y):
    return norm(norm((y - a[1]) / (b[1] - a[1])) * (b[0] - a[0]) + a[0])


def lemma(a, b, y):
    lo, hi = z3.If(a[1] <= b[1], a[1], b[1]), z3.If(a[1] >= b[1], a[1], b[1])
    return z3.Implies(z3.And(y <= hi, y > lo), z3.And(cut(a, b, y) <= z3.If(a[0] >= b[0], a[0], b[0]), cut(a, b, y) >= z3.If(a[0] <= b[0], a[0], b[0])))


def u_between(c):
    ex, st = start(c)
    a, b, y = sym("a"), sym("b"), R("y")
    for lo in (True, False):
        for left in (True, False):
            s = st.clone()
            s.assume(y > a[1] if lo else y > b[1])
            s.assume(y <= b[1] if lo else y <= a[1])
            s.assume(a[0] <= b[0] if left else a[0] > b[0])
            ex.oblige(s, lemma(a, b, y), "lemma: an edge is met between its ends (%d%d)" % (lo, left), where=PG + "::IsInsidePolygonXY")


PAR = [z3.Function("odd_back", T.Int, T.Bool), z3.Function("odd_on", T.Int, T.Bool)]      # number of edges met among the first: edges to each point, edges from each point


def edge(kind, k, x, y):
    return meets(prev(k), k, x, y) if kind == 0 else meets(k, nxt(k), x, y)


def u_cycle(c):
    """the number of edges met does not depend on the point it starts from"""
    ex, st = start(c)
    E = z3.Function("edge_to", T.Int, T.Bool)          # the edge that ends in a point
    k = I("k")
    a, b = PAR
    st.assume(n >= 1)
    st.assume(z3.Not(a(0)))
    st.assume(z3.Not(b(0)))
    st.assume(a(1) == E(0))
    w = PG + "::IsInsidePolygonXY"
    ex.oblige(st, z3.Xor(b(0), E(0)) == a(1), "lemma: same parity from any start (first)", where=w)
    s = st.clone()
    s.assume(z3.And(k >= 0, k + 1 < n))
    s.assume(z3.Xor(b(k), E(0)) == a(k + 1))
    s.assume(b(k + 1) == z3.Xor(b(k), E(k + 1)))
    s.assume(a(k + 2) == z3.Xor(a(k + 1), E(k + 1)))
    ex.oblige(s, z3.Xor(b(k + 1), E(0)) == a(k + 2), "lemma: same parity from any start (next)", where=w)
    s = st.clone()
    s.assume(z3.Xor(b(n - 1), E(0)) == a(n))
    s.assume(b(n) == z3.Xor(b(n - 1), E(0)))
    ex.oblige(s, b(n) == a(n), "lemma: same parity from any start (all)", where=w)


def u_inside(overload):
    def run(c):
        ex, st = start(c)
        x, y = R("x"), R("y")
        o = poly(c, ex, st)
        w = PG + "::IsInsidePolygonXY"

        def templates(ex, s, vals):
            I_, B, R_ = ints(vals), bools(vals), reals(vals)
            for v in I_:
                for kind in (0, 1):
                    P = PAR[kind]
                    s.assume(z3.Implies(v >= 1, P(norm(v)) == z3.Xor(P(norm(v - 1)), edge(kind, norm(v - 1), x, y))), "fact")
                    i, j = (prev(norm(v - 1)), norm(v - 1)) if kind == 0 else (norm(v - 1), nxt(norm(v - 1)))
                    s.assume(z3.Implies(v >= 1, lemma(at(i), at(j), y)), "fact")
            out = [v >= 0 for v in I_] + [v <= n for v in I_] + [v < n for v in I_]
            for v in I_:
                out += [b == P(norm(v)) for b in B for P in PAR]
                out += [j == prev(v) for j in I_] + [r == f(prev(v)) for r in R_ for f in F[:2]] + [r == f(v) for r in R_ for f in F[:2]]
            return out
        for P in PAR:
            st.assume(z3.Not(P(iv(0))))
            st.assume(z3.Implies(n >= 1, P(n) == z3.Xor(P(norm(n - 1)), edge(PAR.index(P), norm(n - 1), x, y))))
        st.assume(PAR[0](n) == PAR[1](n))            # the lemma above
        st.assume(z3.Implies(n == 1, z3.Not(PAR[0](n))))
        ex.loop_candidates, ex.prefer_candidates = templates, True
        c.cover(ex, st, "any polygon and point")
        f = fnd(c, w, 1) if overload else fnd(c, w, 2)
        a = args(pt(ex, st, [x, y, R("z")])) if overload else args(x, y)
        r = val(ex, st, ex.call_func(f, o, a, st, None))
        ex.oblige(st, r == PAR[0](n), "inside exactly when a ray meets an odd number of edges, the closing edge among them", where=w)
        ex.loop_candidates, ex.prefer_candidates = None, False
    return run


def u_single(c):
    ex, st = start(c)
    x, y = R("x"), R("y")
    st.assume(n == 1)
    ex.oblige(st, z3.Not(z3.Xor(z3.BoolVal(False), edge(0, iv(0), x, y))), "lemma: a single point encloses nothing", where=PG + "::IsInsidePolygonXY")


# ---- sums along the border
def cyclic(ex, st, total, term, closing, name, w):
    """`total` (a function of the recognised sum) is the sum of term(i, j) over the edges of the closed polygon"""
    e = lambda t: term(t, norm(t + 1))
    for res, d, b, dom, v0 in list(getattr(ex, "sums", {}).values()):
        # all edges in the loop, or all but the closing one
        for m, el, start_, end in ((n, lambda t: z3.If(t + 1 < n, term(t, norm(t + 1)), term(t, iv(0))), rv(0), rv(0)), (n, lambda t: z3.If(t <= 0, term(norm(n - 1), t), term(norm(t - 1), t)), rv(0), rv(0)),
                                   (norm(n - 1), e, closing, rv(0)), (norm(n - 1), e, rv(0), closing)):
            s = st.clone()
            s.assume(n >= 1)
            if not ex.decide(s, v0 == start_, 3000):
                continue
            ok = total(norm(res + end))
            if not ex.decide(s, ok, 3000):
                continue
            for mp, back in ((b, b), (norm(m - 1 - b), norm(m - 1 - b)), (norm(b - 1), norm(b + 1)), (norm(m - b), norm(m - b))):
                s1 = s.clone()
                s1.assume(dom)
                if ex.decide(s1, d == el(mp), 3000):
                    ex.oblige(s1, d == el(mp), name + ": each iteration adds its edge", where=w)
                    s2 = s.clone()
                    s2.assume(z3.And(b >= 0, b < m))
                    ex.oblige(s2, subst(dom, [(b, back)]), name + ": every edge is visited", where=w)
                    ex.oblige(s1, z3.And(mp >= 0, mp < m), name + ": nothing else is visited", where=w)
                    ex.oblige(s, v0 == start_, name + ": start of the sum", where=w)
                    ex.oblige(s, ok, name + ": the result is the sum over the closed border", where=w)
                    return
    raise ToolLimit(name + ": sum over the edges not recognised")


def u_orientation(c):
    ex, st = start(c, least=1)
    o = poly(c, ex, st)
    w = PG + "::IsCounterclockwise"
    c.cover(ex, st, "any polygon")
    r = val(ex, st, ex.call_func(fnd(c, w, 0), o, [], st, None))
    area = lambda i, j: norm(at(i)[0] * at(j)[1] - at(i)[1] * at(j)[0])
    cyclic(ex, st, lambda s: r == (s >= 0), area, area(norm(n - 1), iv(0)), "twice the signed area", w)


dist = lambda i, j: norm(sqrt(dot(sub(at(j)[:2], at(i)[:2]), sub(at(j)[:2], at(i)[:2]))))


def u_circumference(c):
    ex, st = start(c, least=1)
    o = poly(c, ex, st)
    w = PG + "::GetCircumferenceXY"
    c.cover(ex, st, "any polygon")
    r = norm(val(ex, st, ex.call_func(fnd(c, w, 0), o, [], st, None)))
    cyclic(ex, st, lambda s: r == s, dist, dist(norm(n - 1), iv(0)), "circumference", w)


def u_distance(c):
    C = R("circumference")
    ex, st = start(c, {PG + "::GetCircumferenceXY": lambda ex, st, f, this, a: C}, least=1)
    o = poly(c, ex, st)
    w = PG + "::DistanceBetweenPointsXY"
    i, j = I("i"), I("j")
    for h in (i >= 0, j >= 0, i < n, j < n):
        st.assume(h)
    c.cover(ex, st, "any two points")
    r = norm(val(ex, st, ex.call_func(fnd(c, w, 2), o, args(i, j), st, None)))
    lo, hi = z3.If(i <= j, i, j), z3.If(i <= j, j, i)
    for res, d, b, dom, v0 in list(getattr(ex, "sums", {}).values()):
        want = r == z3.If(res <= C - res, res, norm(C - res))
        s = st.clone()
        if not ex.decide(s, want, 3000):
            continue
        for mp, back in ((b, b), (norm(b - 1), norm(b + 1))):
            s1 = st.clone()
            s1.assume(dom)
            if not ex.decide(s1, d == dist(mp, norm(mp + 1)), 3000):
                continue
            ex.oblige(s1, d == dist(mp, norm(mp + 1)), "distance: each iteration adds its edge", where=w)
            ex.oblige(s1, z3.And(mp >= lo, mp < hi), "distance: only edges between the points", where=w)
            s2 = st.clone()
            s2.assume(z3.And(b >= lo, b < hi))
            ex.oblige(s2, subst(dom, [(b, back)]), "distance: every edge between the points", where=w)
            ex.oblige(st, v0 == 0, "distance: the sum starts at zero", where=w)
            ex.oblige(st, want, "the shorter way round the border", where=w)
            return
    raise ToolLimit("distance along the border: sum not recognised")


# ---- extent
def u_extent(k, phase):
    w = PG + "::XYExtent"
    t, L = I("t"), R("bound")
    f, low = F[k // 2], k % 2 == 0
    le = (lambda a, b: a <= b) if low else (lambda a, b: a >= b)

    def run(c):
        ex, st = start(c, least=1)
        o = poly(c, ex, st)
        if phase == "bounds":
            st.assume(z3.And(t >= 0, t < n))
        else:
            i = I("i")
            st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), le(L, f(i)))))
        c.cover(ex, st, "any polygon")

        def templates(ex, s, vals):
            J, R_ = ints(vals), reals(vals)
            out = [v >= 0 for v in J] + [v <= n for v in J] + [v < n for v in J]
            if phase == "attained":
                out += [le(L, r) for r in R_]
            else:
                out += [z3.Implies(h, le(r, f(t))) for v in J for r in R_ for h in (t < v, t >= v, z3.Or(t > v, t == 0))]
            return out + [r <= r2 for a, r in enumerate(R_) for b, r2 in enumerate(R_) if a != b]
        ex.loop_candidates, ex.prefer_candidates = templates, True
        outs = [ex.alloc(st, R("before%d" % q), "out%d" % q) for q in range(4)]
        ex.call_func(fnd(c, w, 4), o, args(*outs), st, None)
        g = norm(ex.load(st, outs[k]))
        nm = EXT[k]
        if phase == "bounds":
            ex.oblige(st, le(g, f(t)), "no point is beyond " + nm, where=w)
        else:
            ex.oblige(st, le(L, g), nm + " is attained", where=w)
        ex.loop_candidates, ex.prefer_candidates = None, False
    return run


EXT = ("xmin", "xmax", "ymin", "ymax")


# ---- convexity
def turn3(i, j, k):
    u, v = sub(at(j), at(i)), sub(at(k), at(j))
    return norm(u[0] * v[1] - u[1] * v[0])


def u_convex(phase):
    ccw = z3.Bool("counterclockwise")
    w = PG + "::IsConvex"
    t = I("t")
    sgn = lambda v: z3.If(ccw, v >= 0, v <= 0)

    def run(c):
        ex, st = start(c, {PG + "::IsCounterclockwise": lambda ex, st, f, this, a: ccw}, least=3)
        o = poly(c, ex, st)
        i = I("i")
        k = {"a turn": (t, t + 1, t + 2), "last but one": (n - 2, n - 1, iv(0)), "last": (n - 1, iv(0), iv(1))}.get(phase)
        if k is None:
            st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n - 2), sgn(turn3(i, i + 1, i + 2)))))
            for k in ((n - 2, n - 1, iv(0)), (n - 1, iv(0), iv(1))):
                st.assume(sgn(turn3(*k)))
        else:
            st.assume(z3.And(t >= 0, t < n - 2))
            st.assume(z3.Not(sgn(turn3(*k))))

        def templates(ex, s, vals):
            J, B = ints(vals), bools(vals)
            out = [v >= 0 for v in J] + [v <= n for v in J] + [v <= n - 2 for v in J] + B + [z3.Not(b) for b in B]
            if phase == "a turn":
                out += [t >= v for v in J] + [z3.Implies(t < v, b) for v in J for b in B] + [z3.Implies(t < v, z3.Not(b)) for v in J for b in B]
            return out
        ex.loop_candidates, ex.prefer_candidates = templates, True
        c.cover(ex, st, phase)
        r = val(ex, st, ex.call_func(fnd(c, w, 0), o, [], st, None))
        if phase == "convex":
            ex.oblige(st, r, "a polygon that never turns the other way is convex", where=w)
        else:
            ex.oblige(st, z3.Not(r), "a polygon with a turn the other way is not convex (%s)" % phase, where=w)
        ex.loop_candidates, ex.prefer_candidates = None, False
    return run


# ---- position of a point
def u_position(c):
    w = PG + "::FindPointPosition"
    t = I("t")
    same = lambda i: z3.And(*[a == b for a, b in zip(at(i)[:2] + [rv(0)], sym("q"))])
    ex, st = start(c)
    o = poly(c, ex, st)
    c.cover(ex, st, "any point")

    def templates(ex, s, vals):
        out = [v >= 0 for v in ints(vals)] + [v <= n for v in ints(vals)]
        return out + [z3.Implies(z3.And(t >= 0, t < v), z3.Not(same(t))) for v in ints(vals)]
    ex.loop_candidates, ex.prefer_candidates = templates, True
    st.assume(z3.And(t >= 0, t < n))
    r = val(ex, st, ex.call_func(fnd(c, w, 1), o, args(pt(ex, st, "q")), st, None))
    r = norm(r)
    ex.oblige(st, z3.And(r >= 0, r <= n), "a position, or the number of points", where=w)
    s = st.clone()
    s.assume(r < n)
    ex.oblige(s, same(r), "the point is at that position", where=w)
    s = st.clone()
    s.assume(t < r)
    ex.oblige(s, z3.Not(same(t)), "the first such position", where=w)
    ex.loop_candidates, ex.prefer_candidates = None, False


def units():
    us = [("parts of a polygon", u_parts), ("between the ends", u_between), ("any start", u_cycle), ("single point", u_single), ("inside", u_inside(False)), ("inside [point]", u_inside(True)), ("orientation", u_orientation),
          ("circumference", u_circumference), ("distance along the border", u_distance), ("position", u_position)]
    us += [("convexity: " + h, u_convex(h)) for h in ("convex", "a turn", "last but one", "last")]
    us += [("extent: %s %s" % (EXT[k], h), u_extent(k, h)) for k in range(4) for h in ("bounds", "attained")]
    return [(TU, Unit(a, f, tmo=60)) for a, f in us]


ASSUMPTIONS = ["polygons in a horizontal plane (equal z), fewer than 2^31 points", "a sum over a closed border does not depend on the point it starts from"]
BOUNDED = ["MakeConvex: sampled (the result is convex and made of points of the polygon)"]


def gen(rng, budget, tier):
    for k in range({"std": 2000, "deep": 30000}[budget]):
        yield "all %d" % rng.randint(1, 10 ** 9)


def harness(scratch):
    return Harness(scratch, "poly.cpp", ["nrlib/geometry/polygon.cpp", "nrlib/geometry/point.cpp", "nrlib/math/constants.cpp"], gen, "random polygons, also degenerate ones, against direct formulas", tmo=80)
