"""C15: regular and rotated surfaces: geometry, interpolation with missing values, node-wise arithmetic, statistics."""
from .lib import *

SURF = {"file": "surf.cpp"}
RS = "NRLib::RegularSurface<double>"
RR = "NRLib::RegularSurfaceRotated<double>"
SF = "NRLib::Surface<double>"
INSET = z3.Function("is_a_present_value", T.Real, T.Bool)


class S:
    """a surface through its real constructor; arbitrary node values and missing value.
    free: at least two nodes per axis, and the steps dx, dy are the parameters (lx = (ni-1) dx)"""

    def __init__(self, c, ex, st, rotated=False, tag="", fill=True, free=False, miss=True):
        self.c, self.ex, self.rot, self.free = c, ex, rotated, free
        self.cls = RR if rotated else RS
        self.x0, self.y0 = R("x0" + tag), R("y0" + tag)
        self.ni, self.nj = I("ni" + tag), I("nj" + tag)
        self.ang = R("angle" + tag)
        self.val = R("val" + tag)
        for k in (self.ni, self.nj):
            st.assume(k >= (2 if free else 1))
            st.assume(k <= 2 ** 30)
        st.assume(self.ni * self.nj >= 1)
        if free:
            self.dx, self.dy = R("dx" + tag), R("dy" + tag)
            self.lx, self.ly = norm((z3.ToReal(self.ni) - 1) * self.dx), norm((z3.ToReal(self.nj) - 1) * self.dy)
            st.assume(self.dx > 0)
            st.assume(self.dy > 0)
        else:
            self.lx, self.ly = R("lx" + tag), R("ly" + tag)
            self.dx = z3.If(self.ni > 1, self.lx / z3.ToReal(self.ni - 1), rv(1))
            self.dy = z3.If(self.nj > 1, self.ly / z3.ToReal(self.nj - 1), rv(1))
        st.assume(self.lx > 0)
        st.assume(self.ly > 0)
        args = [self.x0, self.y0, self.lx, self.ly, self.ni, self.nj] + ([self.ang] if rotated else []) + [self.val]
        o = ex.construct(self.cls, [Arg(val=a) for a in args], st, None)
        self.lv = ex.alloc(st, o, "surf" + tag)
        self.miss = R("missing" + tag)
        self.X = z3.Function("X" + tag, T.Int, T.Real)
        self.tie(st)
        if fill:
            self.fill(st)
        if miss:
            self.m(st, "SetMissingValue", [self.miss])

    def tie(self, st):
        """with free steps: the step computed by the constructor equals the parameter (obligation), and is written as the parameter from here on"""
        if not self.free:
            return
        ex = self.ex
        for l, v in list(self.leaves(ex.load(st, self.lv), self.lv)):
            if not z3.is_expr(v) or v.sort() != T.Real:
                continue
            for want in (self.dx, self.dy):
                if not v.eq(want) and T.vars_of(v) & T.vars_of(want) and ex.decide(st, v == want, 2000):
                    ex.oblige(st, v == want, "step is length over intervals", where=self.cls)
                    ex.store(st, l, want)

    def leaves(self, v, l):
        if isinstance(v, Rec):
            for k, x in v.f.items():
                yield from self.leaves(x, l.field(k))
        else:
            yield l, v

    def storage(self, st):
        a = [(l, v) for l, v in self.leaves(self.ex.load(st, self.lv), self.lv) if isinstance(v, (ArrV, ListV)) and v.elem == "double"]
        if len(a) != 1:
            raise ToolLimit("no unique storage in " + self.cls)
        return a[0]

    def fill(self, st):
        l, old = self.storage(st)
        old = as_arr(old) if isinstance(old, ListV) else old
        X = self.X
        self.ex.store(st, l, ArrV(old.elem, Base("fn", lambda i: X(i)), (), old.size))

    def find(self, m, n, const=None, types=None):
        for q in (self.cls, "NRLib::Grid2D<double>"):
            fs = [f for f in self.ex.prog.byq.get(q + "::" + m, []) if len(f.params) == n and (const is None or f.const == const)
                  and (types is None or types in f.type)]
            if len(fs) == 1:
                return fs[0]
        raise ToolLimit("no unique %s::%s/%d" % (self.cls, m, n))

    def m(self, st, m, args=(), const=None, types=None):
        f = self.find(m, len(args), const, types)
        return self.ex.call_func(f, self.lv, [a if isinstance(a, Arg) else Arg(val=a) for a in args], st, None)

    def v(self, st, m, args=(), const=None):
        r = self.m(st, m, args, const)
        return self.ex.load(st, r) if isinstance(r, LV) else r

    def outs(self, st, m, ins, sorts, types=None):
        """call with reference results; their values afterwards"""
        ls = [self.ex.alloc(st, (R if t == "r" else I)("old_%d" % k), "out%d" % k) for k, t in enumerate(sorts)]
        self.m(st, m, [Arg(val=a) for a in ins] + [Arg(lv=l) for l in ls], None, types)
        return [self.ex.load(st, l) for l in ls]

    def node(self, i, j):
        return self.X(norm(i + self.ni * j))

    def at(self, st, i, j):
        return self.v(st, "operator()", [i, j], True)

    def inner(self, st, tag=""):
        """a node"""
        i, j = I("i" + tag), I("j" + tag)
        for h in (i >= 0, i < self.ni, j >= 0, j < self.nj, i + self.ni * j >= 0, i + self.ni * j <= self.ni * self.nj - 1):
            st.assume(h)          # the last two: product lemma (proved in C14)
        return i, j

    def w(self, m):
        return self.cls + "::" + m


def place(st, s):
    """the point given by its cell and the relative position in it (every point has exactly one such description)"""
    i, j, a, b = I("i"), I("j"), R("a"), R("b")
    for h in (a >= 0, a < 1, b >= 0, b < 1, i >= -2 ** 30, i <= 2 ** 30, j >= -2 ** 30, j <= 2 ** 30):
        st.assume(h)
    return norm((z3.ToReal(i) + a) * s.dx), norm((z3.ToReal(j) + b) * s.dy), i, j, a, b


def cs(ang):
    return mathfn("cos", ang), mathfn("sin", ang)


def glob(s, u, v):
    """global coordinates of the point (u, v) given relative to the corner along the surface's own axes"""
    if not s.rot:
        return norm(s.x0 + u), norm(s.y0 + v)
    c, n = cs(s.ang)
    return norm(s.x0 + c * u - n * v), norm(s.y0 + n * u + c * v)


def u_geometry(rot):
    def run(c):
        ex = c.exec()
        st = State()
        s = S(c, ex, st, rot)
        c.cover(ex, st, "any surface")
        w = s.cls
        for m, t in (("GetNI", s.ni), ("GetNJ", s.nj), ("GetN", s.ni * s.nj), ("GetLengthX", s.lx), ("GetLengthY", s.ly), ("GetDX", s.dx), ("GetDY", s.dy),
                     ("GetMissingValue", s.miss)):
            ex.oblige(st, s.v(st, m) == t, m, where=s.w(m))
        if rot:
            for m, t in (("GetXRef", s.x0), ("GetYRef", s.y0), ("GetAngle", s.ang)):
                ex.oblige(st, s.v(st, m) == t, m, where=s.w(m))
        else:
            for m, t in (("GetXMin", s.x0), ("GetYMin", s.y0), ("GetXMax", s.x0 + s.lx), ("GetYMax", s.y0 + s.ly)):
                ex.oblige(st, s.v(st, m) == t, m, where=s.w(m))
        i, j = s.inner(st)
        x, y = s.outs(st, "GetXY", [i, j], "rr")
        gx, gy = glob(s, z3.ToReal(i) * s.dx, z3.ToReal(j) * s.dy)
        ex.oblige(st, z3.And(x == gx, y == gy), "position of a node", where=s.w("GetXY"))
        x, y = s.outs(st, "GetXY", [norm(i + s.ni * j)], "rr")
        ex.oblige(st, z3.And(x == gx, y == gy), "position of a node by flat index", where=s.w("GetXY"))
        ex.oblige(st, s.at(st, i, j) == s.node(i, j), "node access", where=s.w("operator()"))
        ex.oblige(st, s.v(st, "IsMissingAt", [i, j]) == (s.node(i, j) == s.miss), "IsMissingAt", where=s.w("IsMissingAt"))
        ex.oblige(st, s.v(st, "IsMissing", [R("z")]) == (R("z") == s.miss), "IsMissing", where=s.w("IsMissing"))
        if not rot:
            for args, nm in (([i, j], "node"), ([norm(i + s.ni * j)], "node by flat index")):
                x, y, z = s.outs(st, "GetNode", args, "rrr")
                ex.oblige(st, z3.And(x == gx, y == gy, z == s.node(i, j)), nm, where=s.w("GetNode"))
            ex.oblige(st, z3.And(s.v(st, "GetX", [i]) == gx, s.v(st, "GetY", [j]) == gy), "coordinate lines", where=s.w("GetX"))
        # corners of the area are the outermost nodes
        i2, j2 = s.inner(st, "2")
        s.m(st, "SetMissing", [i, j])
        ex.oblige(st, s.at(st, i2, j2) == z3.If(z3.And(i == i2, j == j2), s.miss, s.node(i2, j2)), "SetMissing marks one node",
                  where=s.w("SetMissing"))
    return run


def u_redim(rot):
    """SetDimensions, Resize, (SetAngle): same as a newly built surface with the new parameters"""
    def run(c):
        for what in ("SetDimensions", "Resize") + (("SetAngle",) if rot else ("Swap",)):
            ex = c.exec()
            st = State()
            s = S(c, ex, st, rot)
            n = S(c, ex, st, rot, tag="_new")
            c.cover(ex, st, what)
            if what == "SetDimensions":
                s.m(st, what, [n.x0, n.y0, n.lx, n.ly])
                want = dict(s.__dict__, x0=n.x0, y0=n.y0, lx=n.lx, ly=n.ly)
                dx = z3.If(s.ni > 1, n.lx / z3.ToReal(s.ni - 1), rv(1))
                dy = z3.If(s.nj > 1, n.ly / z3.ToReal(s.nj - 1), rv(1))
            elif what == "Resize":
                s.m(st, what, [n.ni, n.nj, n.val])
                want = dict(s.__dict__, ni=n.ni, nj=n.nj)
                dx = z3.If(n.ni > 1, s.lx / z3.ToReal(n.ni - 1), rv(1))
                dy = z3.If(n.nj > 1, s.ly / z3.ToReal(n.nj - 1), rv(1))
            elif what == "SetAngle":
                s.m(st, what, [n.ang])
                want = dict(s.__dict__, ang=n.ang)
                dx, dy = s.dx, s.dy
            else:
                s.m(st, what, [Arg(lv=n.lv)])
                want = dict(n.__dict__)
                dx, dy = n.dx, n.dy
                for m, t in (("GetXMin", s.x0), ("GetLengthX", s.lx), ("GetDX", s.dx), ("GetMissingValue", s.miss), ("GetNI", s.ni),
                             ("GetYMin", s.y0), ("GetLengthY", s.ly), ("GetDY", s.dy), ("GetNJ", s.nj)):
                    ex.oblige(st, n.v(st, m) == t, "after Swap, other: " + m, where=s.w(what))
                i, j = s.inner(st)
                ex.oblige(st, n.at(st, i, j) == s.X(i + s.ni * j), "after Swap, other: node values", where=s.w(what))
            for m, k in (("GetNI", "ni"), ("GetNJ", "nj"), ("GetLengthX", "lx"), ("GetLengthY", "ly"), ("GetMissingValue", "miss")):
                ex.oblige(st, s.v(st, m) == want[k], "after %s: %s" % (what, m), where=s.w(what))
            ex.oblige(st, z3.And(s.v(st, "GetDX") == dx, s.v(st, "GetDY") == dy), "after %s: steps" % what, where=s.w(what))
            st2 = st.clone()
            k = type("K", (), want)
            i, j = I("i3"), I("j3")
            for h in (i >= 0, i < k.ni, j >= 0, j < k.nj, i + k.ni * j >= 0, i + k.ni * j <= k.ni * k.nj - 1):
                st2.assume(h)
            x, y = s.outs(st2, "GetXY", [i, j], "rr")
            gx, gy = glob(k, z3.ToReal(i) * dx, z3.ToReal(j) * dy)
            ex.oblige(st2, z3.And(x == gx, y == gy), "after %s: position of a node" % what, where=s.w(what))
            z = n.val if what == "Resize" else n.X(i + n.ni * j) if what == "Swap" else s.X(i + s.ni * j)
            ex.oblige(st2, s.at(st2, i, j) == z, "after %s: node values" % what, where=s.w(what))
            if rot:
                bounds(c, ex, st, s, k, "after %s: " % what, s.w(what))
    return run


def bounds(c, ex, st, s, k, pre, w):
    """GetXMin .. GetYMax is the smallest box around the four corners"""
    cx, sx = cs(k.ang)
    P = [glob(type("Q", (), dict(rot=True, x0=k.x0, y0=k.y0, ang=k.ang)), u, v) for u in (rv(0), k.lx) for v in (rv(0), k.ly)]
    for m, ax, lo in (("GetXMin", 0, True), ("GetXMax", 0, False), ("GetYMin", 1, True), ("GetYMax", 1, False)):
        v = s.v(st, m)
        ps = [p[ax] for p in P]
        ex.oblige(st, z3.And([v <= p if lo else v >= p for p in ps]), pre + m + " bounds the corners", where=w)
        ex.oblige(st, z3.Or([v == p for p in ps]), pre + m + " is a corner", where=w)


def u_bounds(c):
    ex = c.exec()
    st = State()
    s = S(c, ex, st, True)
    c.cover(ex, st, "rotated surface")
    bounds(c, ex, st, s, s, "", s.w("CalculateMinMaxXY"))
    # every point of the area is in the box: a convex combination of the corners
    i, j = s.inner(st)
    a, b = R("a"), R("b")
    for h in (a >= 0, a <= 1, b >= 0, b <= 1):
        st.assume(h)
    # bounding values are affine in the corners: checked through the corner with the extreme value
    lx, ly = s.lx, s.ly
    for m, ax, lo in (("GetXMin", 0, True), ("GetXMax", 0, False), ("GetYMin", 1, True), ("GetYMax", 1, False)):
        v = s.v(st, m)
        p = [[glob(s, u, w)[ax] for w in (rv(0), ly)] for u in (rv(0), lx)]
        pt = glob(s, a * lx, b * ly)[ax]
        mix = (1 - a) * (1 - b) * p[0][0] + (1 - a) * b * p[0][1] + a * (1 - b) * p[1][0] + a * b * p[1][1]
        ex.oblige(st, norm(pt) == norm(mix), m + ": a point is a weighted mean of the corners", where=s.w("CalculateMinMaxXY"))
        q0, q1, q2, q3, vv = (R("q%d" % k) for k in range(5))
        s2 = State()
        W = [R("w%d" % k) for k in range(4)]
        for k in range(4):
            s2.assume(W[k] >= 0)
            s2.assume(R("q%d" % k) >= vv if lo else R("q%d" % k) <= vv)
            s2.assume(W[k] * R("q%d" % k) >= W[k] * vv if lo else W[k] * R("q%d" % k) <= W[k] * vv)
        s2.assume(sum(W) == 1)
        t = sum(W[k] * R("q%d" % k) for k in range(4))
        s2.assume(sum(W[k] * vv for k in range(4)) == vv)
        ex.oblige(s2, t >= vv if lo else t <= vv, m + ": a weighted mean is not beyond the extreme", where="lemma")


def corners(s, i, j):
    """the four nodes around the cell, missing outside the grid"""
    out = []
    for dj in (0, 1):
        for di in (0, 1):
            ii, jj = norm(i + di), norm(j + dj)
            inside = z3.And(ii >= 0, ii < s.ni, jj >= 0, jj < s.nj)
            out.append((inside, s.node(ii, jj)))
    return out


def u_getz(rot, pat, inside):
    """one presence pattern of the four corners"""
    def run(c):
        ex = c.exec()
        st = State()
        s = S(c, ex, st, rot, free=True)
        x, y, i, j, a, b = place(st, s)
        K = corners(s, i, j)
        for k in range(4):
            ok, z = K[k]
            st.assume(z3.And(ok, z != s.miss) if pat >> k & 1 else z3.Or(z3.Not(ok), z == s.miss))
            ii, jj = norm(i + k % 2), norm(j + k // 2)
            f = norm(ii + s.ni * jj)
            st.assume(z3.Implies(ok, z3.And(f >= 0, f <= s.ni * s.nj - 1)))
        gx, gy = glob(s, x, y)
        if rot:
            cx, sx = cs(s.ang)
            st.assume(cx * cx + sx * sx == 1)
        c.cover(ex, st, "corner pattern %d" % pat)
        m = "GetZInside" if inside else "GetZ"
        w = s.w(m)
        z = s.v(st, m, [gx, gy])
        Z = [K[k][1] for k in range(4)]
        W = [(1 - a) * (1 - b), a * (1 - b), (1 - a) * b, a * b]
        pres = [k for k in range(4) if pat >> k & 1]
        if pat == 15:
            ex.oblige(st, norm(z) == norm(sum(W[k] * Z[k] for k in range(4))), "bilinear between four present corners", where=w)
            s2 = st.clone()
            s2.assume(a == 0)
            s2.assume(b == 0)
            ex.oblige(s2, z == Z[0], "node value at the node", where=w)
        elif inside or not pres:
            ex.oblige(st, z == s.miss, "missing", where=w)
        else:
            tot = sum(W[k] for k in pres)
            ex.oblige(st, z3.Implies(tot == 0, z == s.miss), "missing where the present corners have no weight", where=w)
            if len(pres) == 1:
                ex.oblige(st, z3.Implies(tot != 0, z == Z[pres[0]]), "the present corner", where=w)
            else:
                ex.oblige(st, z3.Implies(tot != 0, z * tot == sum(W[k] * Z[k] for k in pres)), "weighted mean of the present corners", where=w)
    return run


def u_find(c):
    for what in ("FindGeneralIndex", "FindI", "FindIndex", "FindContIndex", "FindNearestNodeIndex", "IsInsideSurface"):
        ex = c.exec()
        st = State()
        s = S(c, ex, st, free=True)
        u, v, i, j, a, b = place(st, s)
        x, y = glob(s, u, v)
        w = s.w(what)
        inside = z3.And(x >= s.x0, x <= s.x0 + s.lx, y >= s.y0, y <= s.y0 + s.ly)
        if what == "FindGeneralIndex":
            c.cover(ex, st, what)
            r = s.outs(st, what, [x, y], "ii")
            ex.oblige(st, z3.And(r[0] == i, r[1] == j), "cell of any point", where=w)
        elif what == "IsInsideSurface":
            ex.oblige(st, s.v(st, what, [x, y]) == inside, "inside exactly on the area", where=w)
            B = [R(k) for k in ("bx0", "bx1", "by0", "by1")]
            ex.oblige(st, s.v(st, "EnclosesRectangle", B) == z3.And(B[0] >= s.x0, B[1] <= s.x0 + s.lx, B[2] >= s.y0, B[3] <= s.y0 + s.ly),
                      "rectangle is enclosed exactly where its sides are", where=s.w("EnclosesRectangle"))
        elif what == "FindNearestNodeIndex":
            for pa in (0, 1):
                for pb in (0, 1):
                    s2 = st.clone()
                    s2.assume(2 * a >= 1 if pa else 2 * a < 1)
                    s2.assume(2 * b >= 1 if pb else 2 * b < 1)
                    c.cover(ex, s2, what)
                    r = s.outs(s2, what, [x, y], "ii")
                    cl = lambda t, n: z3.If(t < 0, 0, z3.If(t >= n, n - 1, t))
                    ex.oblige(s2, z3.And(r[0] == cl(i + pa, s.ni), r[1] == cl(j + pb, s.nj)), "nearest node, clamped to the grid", where=w)
        else:
            st.assume(inside)
            st.assume(i >= 0)
            st.assume(j >= 0)
            c.cover(ex, st, what)
            if what == "FindI":
                ex.oblige(st, s.v(st, "FindI", [x]) == i, "cell column", where=w)
                ex.oblige(st, s.v(st, "FindJ", [y]) == j, "cell row", where=s.w("FindJ"))
            else:
                r = s.outs(st, what, [x, y], "ii" if what == "FindIndex" else "rr")
                if what == "FindIndex":
                    ex.oblige(st, z3.And(r[0] == i, r[1] == j), "cell of a point inside", where=w)
                else:
                    ex.oblige(st, z3.And(r[0] == z3.ToReal(i) + a, r[1] == z3.ToReal(j) + b), "position in cells", where=w)
    return


def u_scalar(rot):
    def run(c):
        k = R("k")
        for what, f in (("Assign", lambda z, m: k), ("Add", lambda z, m: z3.If(z == m, z, z + k)), ("Subtract", lambda z, m: z3.If(z == m, z, z - k)),
                        ("Multiply", lambda z, m: z3.If(z == m, z, z * k))):
            ex = c.exec()
            st = State()
            s = S(c, ex, st, rot)
            i, j = s.inner(st)
            c.cover(ex, st, what)
            s.m(st, what, [k])
            ex.oblige(st, s.at(st, i, j) == f(s.node(i, j), s.miss), what + " on every node", where=s.w(what))
            ex.oblige(st, z3.And(s.v(st, "GetNI") == s.ni, s.v(st, "GetNJ") == s.nj, s.v(st, "GetDX") == s.dx, s.v(st, "GetDY") == s.dy,
                                 s.v(st, "GetMissingValue") == s.miss), what + " keeps the geometry", where=s.w(what))
    return run


ZFUN = z3.Function("other_z", T.Real, T.Real, T.Real)
OMISS = R("other_missing")


def other(ex, st):
    """the other surface through the contract of Surface: some value or missing at every point"""
    def getz(ex, st, f, this, args):
        a = [norm(ex.argval(x, st)) for x in args]
        return ZFUN(*a)

    def ismissing(ex, st, f, this, args):
        return T.beq(ex.argval(args[0], st), OMISS)

    return getz, ismissing


def u_nonconform(rot):
    def run(c):
        for what, f in (("AddNonConform", lambda z, q: z + q), ("SubtractNonConform", lambda z, q: z - q), ("MultiplyNonConform", lambda z, q: z * q),
                        ("DivideNonConform", lambda z, q: z / q)):
            ex = c.exec()
            st = State()
            s = S(c, ex, st, rot)
            getz, ism = other(ex, st)
            ex.contracts[SF + "::GetZ"] = getz
            ex.contracts[SF + "::IsMissing"] = ism
            o = ex.alloc(st, Rec(SF, {}), "other")
            i, j = s.inner(st)
            c.cover(ex, st, what)
            s.m(st, what, [PtrV(o.root, ())])
            x, y = glob(s, z3.ToReal(i) * s.dx, z3.ToReal(j) * s.dy)
            qz = ZFUN(norm(x), norm(y))
            z = s.node(i, j)
            got = s.at(st, i, j)
            if what.startswith("Div"):
                st.assume(qz != 0)
            ex.oblige(st, z3.Implies(z == s.miss, got == s.miss), what + ": missing stays missing", where=s.w(what))
            # the point at which the other surface was asked is the node (coordinates equal as reals)
            app = T.apps(got, "other_z")
            st2 = st.clone()
            for t in app:
                ex.oblige(st, z3.And(t.arg(0) == x, t.arg(1) == y), what + ": the other surface is taken at the node", where=s.w(what))
                st2.assume(t == qz)
            ex.oblige(st2, z3.Implies(z3.And(z != s.miss, qz == OMISS), got == s.miss), what + ": missing where the other is missing", where=s.w(what))
            ex.oblige(st2, z3.Implies(z3.And(z != s.miss, qz != OMISS), got == f(z, qz)), what + ": the node values combined", where=s.w(what))
    return run


def u_extreme(low, node):
    def run(c):
        ex = c.exec()
        st = State()
        s = S(c, ex, st)
        n = norm(s.ni * s.nj)
        c.cover(ex, st, "any surface")
        m = ("Min" if low else "Max") + ("Node" if node else "")
        w = s.w(m)
        le = (lambda a, b: a <= b) if low else (lambda a, b: a >= b)
        if node:
            li, lj = ex.alloc(st, I("oi"), "oi"), ex.alloc(st, I("oj"), "oj")
            r = s.m(st, m, [Arg(lv=li), Arg(lv=lj)])
            r = ex.load(st, r) if isinstance(r, LV) else r
        else:
            r = s.v(st, m)
        mm = getattr(ex, "reds", {}).get(r.get_id())
        if mm is None:
            raise ToolLimit("no loop result")
        b = mm["b"]
        X, miss = s.X, s.miss
        for x in (b, norm(n - 1 - b), iv(0)):
            st.assume(z3.Implies(X(x) != miss, INSET(X(x))))
        K = lambda h: z3.Or(h == miss, INSET(h))
        J = lambda h, x: z3.Implies(x != miss, z3.And(le(h, x), h != miss))
        inst = inductive(ex, st, r, n, X, J, K, w, "extreme value")
        t = I("t")
        s2 = st.clone()
        for hh in (t >= 0, t < n, inst(t), X(t) != miss):
            s2.assume(hh)
        ex.oblige(s2, z3.And(r != miss, le(r, X(t))), "no present value is beyond the extreme", where=w)
        ex.oblige(st, z3.Or(r == miss, INSET(r)), "the extreme is a present value, or missing", where=w)
        if node:
            # joint invariant of value and index: the index is a node and holds the value
            oi, oj = ex.load(st, li), ex.load(st, lj)
            ks = [m2 for m2 in ex.reds.values() if m2["res"].sort() == T.Int and m2["b"].eq(b)
                  and T.depends(oi, {m2["res"].get_id()})]
            if len(ks) != 1:
                raise ToolLimit("index of the extreme is not a value carried by the loop")
            q = ks[0]
            s3 = st.clone()
            for x in mm["pc"] + q["pc"] + [mm["dom"], q["dom"], b >= 0, b < n]:
                s3.assume(x)
            inv = lambda hv, hi: z3.And(hi >= 0, hi < n, X(hi) == hv)
            ex.oblige(st, inv(mm["init"], q["init"]), "value and index agree before the loop", where=w)
            s3.assume(inv(mm["h"], q["h"]))
            ex.oblige(s3, inv(mm["step"], q["step"]), "value and index agree after an iteration", where=w)
            st.assume(inv(r, q["res"]))
            ix = q["res"]
            ex.oblige(st, z3.And(oi == ix % s.ni, oj == ix / s.ni), "index split into column and row", where=w)
            s4 = State()
            for hh in (s.ni >= 1, ix >= 0, ix < s.ni * s.nj):
                s4.assume(hh)
            u, v = I("u"), I("v")
            s4.assume(ix == u * s.ni + v)
            s4.assume(v >= 0)
            s4.assume(v < s.ni)
            ex.oblige(s4, z3.Implies(u >= s.nj, u * s.ni >= s.nj * s.ni), "lemma: row in range (product)", where="lemma")
    return run


def u_avg(c):
    ex = c.exec()
    st = State()
    s = S(c, ex, st)
    n = norm(s.ni * s.nj)
    w = s.w("Avg")
    c.cover(ex, st, "any surface")
    l = ex.alloc(st, I("old"), "count")
    r = s.m(st, "Avg", [Arg(lv=l)])
    r = ex.load(st, r) if isinstance(r, LV) else r
    cnt = ex.load(st, l)
    summed(ex, st, cnt, n, lambda i: z3.If(s.X(i) != s.miss, iv(1), iv(0)), w, "number of present nodes")
    ok = False
    for v in list(ex.sums.values()):
        t = v[0]
        if t.sort() != T.Real:
            continue
        s2 = st.clone()
        s2.assume(cnt > 0)
        if ex.decide(s2, r * z3.ToReal(cnt) == t, 3000):
            ok = True
            ex.oblige(s2, r * z3.ToReal(cnt) == t, "average is sum over number", where=w)
            summed(ex, st, t, n, lambda i: z3.If(s.X(i) != s.miss, s.X(i), rv(0)), w, "sum of present nodes")
    if not ok:
        raise ToolLimit("average not recognised")
    ex.oblige(st, z3.Implies(cnt <= 0, r == s.miss), "missing when nothing is present", where=w)


def u_neigh(cx, cy):
    """where the node lies along each axis: 0 first, 1 between, 2 last, 3 only one"""
    def run(c):
        ex = c.exec()
        st = State()
        s = S(c, ex, st)
        i, j = s.inner(st)
        for cc, k, n in ((cx, i, s.ni), (cy, j, s.nj)):
            st.assume({0: z3.And(k == 0, n > 1), 1: z3.And(k > 0, k < n - 1), 2: z3.And(k > 0, k == n - 1), 3: n == 1}[cc])
        nb = [(di, dj) for dj in (-1, 0, 1) for di in (-1, 0, 1) if (di, dj) != (0, 0)
              and (di != -1 or cx in (1, 2)) and (di != 1 or cx in (0, 1)) and (dj != -1 or cy in (1, 2)) and (dj != 1 or cy in (0, 1))]
        for di, dj in nb:
            f = norm(i + di + s.ni * (j + dj))
            st.assume(f >= 0)
            st.assume(f <= s.ni * s.nj - 1)
        c.cover(ex, st, "node position")
        w = s.w("CreateNeighbourAvg")
        r = s.m(st, "CreateNeighbourAvg", [i, j])
        r = ex.load(st, r) if isinstance(r, LV) else r
        zs = [s.node(i + di, j + dj) for di, dj in nb]
        tot = sum([z3.If(z == s.miss, rv(0), z) for z in zs], rv(0))
        cnt = sum([z3.If(z == s.miss, rv(0), rv(1)) for z in zs], rv(0))
        z = s.at(st, i, j)
        ex.oblige(st, r == (cnt > 0), "says whether some neighbour is present", where=w)
        ex.oblige(st, z3.Implies(cnt == 0, z == s.miss), "missing without present neighbour", where=w)
        for k in range(1, len(nb) + 1):
            goal = z3.Implies(cnt == k, z * k == tot)
            g2, = opaque(s.X, goal)
            s0 = State()
            easy = ex.decide(s0, g2, 10000)
            ex.oblige(s0 if easy else st, g2 if easy else goal, "mean of %d present neighbours" % k, where=w)
        i2, j2 = s.inner(st, "2")
        st.assume(z3.Or(i2 != i, j2 != j))
        st.assume(i2 + s.ni * j2 != i + s.ni * j)      # uniqueness lemma (proved in C14)
        ex.oblige(st, s.at(st, i2, j2) == s.node(i2, j2), "no other node changes", where=w)
    return run


def u_rotinside(c):
    ex = c.exec()
    st = State()
    s = S(c, ex, st, True)
    u, v = R("u"), R("v")
    x, y = glob(s, u, v)
    k, n = cs(s.ang)
    st.assume(k * k + n * n == 1)
    c.cover(ex, st, "any point")
    r = s.v(st, "IsInsideSurface", [x, y])
    ex.oblige(st, r == z3.And(u >= 0, u <= s.lx, v >= 0, v <= s.ly), "inside exactly on the rotated area", where=s.w("IsInsideSurface"))


def u_rotz(c):
    """rotated = the plain surface at the point turned back; the plain one through its contract"""
    for what in ("GetZ", "GetZInside"):
        ex = c.exec()
        st = State()
        s = S(c, ex, st, True)
        calls = []

        def plainz(ex, st, f, this, args):
            a = [norm(ex.argval(x, st)) for x in args]
            calls.append((st, this, a))
            return ZFUN(*a)
        ex.contracts[RS + "::" + what] = plainz
        u, v = R("u"), R("v")
        x, y = glob(s, u, v)
        k, n = cs(s.ang)
        st.assume(k * k + n * n == 1)
        c.cover(ex, st, "any point")
        z = s.v(st, what, [x, y])
        if len(calls) != 1:
            raise ToolLimit("not one evaluation of the plain surface")
        _, this, a = calls[0]
        ex.oblige(st, z == ZFUN(*a), "value of the plain surface", where=s.w(what))
        ex.oblige(st, z3.And(a[0] == s.x0 + u, a[1] == s.y0 + v), "at the point turned back", where=s.w(what))


def u_resample(c):
    ex = c.exec()
    st = State()
    s = S(c, ex, st, True, free=True)

    def rz(ex, st, f, this, args):
        return ZFUN(*[norm(ex.argval(x, st)) for x in args])
    ex.contracts[RR + "::GetZ"] = rz
    w = s.w("ResampleSurface")
    box = [s.v(st, m) for m in ("GetXMin", "GetXMax", "GetYMin", "GetYMax")]
    # the box of a surface has an extent (a rotated rectangle with sides > 0)
    st.assume(box[1] > box[0])
    st.assume(box[3] > box[2])
    for lo, hi, d in ((box[0], box[1], s.dx), (box[2], box[3], s.dy)):
        st.assume((hi - lo) / d >= 0)
        st.assume((hi - lo) / d < 2 ** 30)
    c.cover(ex, st, "rotated surface")
    o = s.m(st, "ResampleSurface")
    o = ex.load(st, o) if isinstance(o, LV) else o
    r = S.__new__(S)
    r.__dict__.update(s.__dict__)
    r.cls, r.rot, r.lv = RS, False, ex.alloc(st, o, "resampled")
    for m, t in zip(("GetXMin", "GetXMax", "GetYMin", "GetYMax"), box):
        ex.oblige(st, r.v(st, m) == t, "covers the box of the rotated surface: " + m, where=w)
    ex.oblige(st, r.v(st, "GetMissingValue") == s.miss, "keeps the missing value", where=w)
    ni, nj = r.v(st, "GetNI"), r.v(st, "GetNJ")
    i, j = I("ri"), I("rj")
    for h in (i >= 0, j >= 0, i < ni, j < nj, ni >= 1, nj >= 1, i + ni * j >= 0, i + ni * j <= ni * nj - 1):
        st.assume(h)
    z = r.at(st, i, j)
    x, y = r.outs(st, "GetXY", [i, j], "rr")
    app = T.apps(z, "other_z")
    if not app:
        raise ToolLimit("resampled value is not an evaluation of the surface")
    for t in app:
        ex.oblige(st, z3.And(t.arg(0) == x, t.arg(1) == y), "evaluated at the node of the result", where=w)
    st.assume(z3.And([t == ZFUN(x, y) for t in app]))
    ex.oblige(st, z == ZFUN(x, y), "node holds the value of the rotated surface there", where=w)


def u_build(rot):
    """the other constructors: from a grid, (from a plain surface)"""
    def run(c):
        for what in ("grid",) + (("surface",) if rot else ()):
            ex = c.exec()
            st = State()
            b = S(c, ex, st, tag="_src")
            x0, y0, lx, ly, ang = (R(k) for k in ("x0", "y0", "lx", "ly", "angle"))
            st.assume(lx > 0)
            st.assume(ly > 0)
            c.cover(ex, st, what)
            cls = RR if rot else RS
            if what == "grid":
                args = [Arg(val=v) for v in (x0, y0, lx, ly)] + [Arg(lv=b.lv)] + ([Arg(val=ang)] if rot else [])
                k = dict(x0=x0, y0=y0, lx=lx, ly=ly)
            else:
                args = [Arg(lv=b.lv), Arg(val=ang)]
                k = dict(x0=b.x0, y0=b.y0, lx=b.lx, ly=b.ly)
            fs = [f for f in ex.prog.byq.get(cls + "::" + cls.split("::")[-1].split("<")[0], []) if len(f.params) == len(args)
                  and ("Grid2D" in f.type if what == "grid" else "RegularSurface<" in f.type.split(",")[0])]
            if len(fs) != 1:
                raise ToolLimit("constructor")
            o = ex.construct(cls, args, st, None, fs[0].type)
            s = S.__new__(S)
            s.__dict__.update(b.__dict__)
            s.cls, s.rot, s.lv = cls, rot, ex.alloc(st, o, "built")
            s.__dict__.update(k, ang=ang)
            s.dx = z3.If(b.ni > 1, s.lx / z3.ToReal(b.ni - 1), rv(1))
            s.dy = z3.If(b.nj > 1, s.ly / z3.ToReal(b.nj - 1), rv(1))
            w = "%s from %s" % (cls, what)
            for m, t in (("GetNI", b.ni), ("GetNJ", b.nj), ("GetLengthX", s.lx), ("GetLengthY", s.ly), ("GetDX", s.dx), ("GetDY", s.dy)):
                ex.oblige(st, s.v(st, m) == t, m, where=w)
            if what == "surface":
                ex.oblige(st, s.v(st, "GetMissingValue") == b.miss, "missing value kept", where=w)
            i, j = s.inner(st)
            x, y = s.outs(st, "GetXY", [i, j], "rr")
            gx, gy = glob(s, z3.ToReal(i) * s.dx, z3.ToReal(j) * s.dy)
            ex.oblige(st, z3.And(x == gx, y == gy), "position of a node", where=w)
            ex.oblige(st, s.at(st, i, j) == b.X(i + b.ni * j), "node values", where=w)
            if rot:
                bounds(c, ex, st, s, s, "", w)
    return run


def u_clone(rot):
    """Clone: equal in every answer, and a later change of either leaves the other alone"""
    def run(c):
        ex = c.exec()
        st = State()
        s = S(c, ex, st, rot)
        c.cover(ex, st, "any surface")
        w = s.w("Clone")
        p = s.m(st, "Clone")
        p = ex.load(st, p) if isinstance(p, LV) else p
        d = S.__new__(S)
        d.__dict__.update(s.__dict__)
        d.lv = ex.deref(p, st) if not isinstance(p, LV) else p
        ex.oblige(st, z3.BoolVal(ex.load(st, d.lv).cls == s.cls), "clone has the same type", where=w)
        ex.oblige(st, z3.BoolVal(d.lv.root != s.lv.root), "clone is an object of its own", where=w)
        for m in ("GetNI", "GetNJ", "GetLengthX", "GetLengthY", "GetDX", "GetDY", "GetXMin", "GetXMax", "GetYMin", "GetYMax", "GetMissingValue") + (("GetAngle", "GetXRef", "GetYRef") if rot else ()):
            ex.oblige(st, d.v(st, m) == s.v(st, m), "clone: " + m, where=w)
        i, j = s.inner(st)
        ex.oblige(st, d.at(st, i, j) == s.node(i, j), "clone: node values", where=w)
        d.m(st, "Assign", [R("z")])
        d.m(st, "SetMissingValue", [R("z2")])
        ex.oblige(st, z3.And(s.at(st, i, j) == s.node(i, j), s.v(st, "GetMissingValue") == s.miss), "changing the clone leaves the original", where=w)
    return run


def u_rotmore(c):
    """what the rotated surface answers through its plain part, and its rectangle test"""
    ex = c.exec()
    st = State()
    s = S(c, ex, st, True)
    c.cover(ex, st, "any surface")
    a = [R(x) for x in ("xa", "xb", "ya", "yb")]
    r = s.v(st, "EnclosesRectangle", a)
    lo, hi, lo2, hi2 = (s.v(st, m) for m in ("GetXMin", "GetXMax", "GetYMin", "GetYMax"))
    ex.oblige(st, r == z3.And(a[0] >= lo, a[1] <= hi, a[2] >= lo2, a[3] <= hi2), "the box around the surface encloses the rectangle", where=s.w("EnclosesRectangle"))
    seen = []

    def stat(name, k):
        def f(ex, st, f, this, args):
            seen.append((name, this))
            return R("stat_" + name)
        return f
    for m in ("Min", "Max", "Avg"):
        e2 = c.exec()
        s2 = State()
        t = S(c, e2, s2, True)
        e2.contracts[RS + "::" + m] = stat(m, 0)
        e2.oblige(s2, t.v(s2, m) == R("stat_" + m), m + " is the one of the nodes", where=t.w(m))


def u_const(c):
    """a constant surface has its value everywhere and no end"""
    K = "NRLib::ConstantSurface<double>"
    ex = c.exec()
    st = State()
    z = R("z")
    o = ex.construct(K, [Arg(val=z)], st, None)
    lv = ex.alloc(st, o, "const")
    c.cover(ex, st, "any value")

    def call(l, m, args=(), n=None):
        fs = [f for f in c.P.byq[K + "::" + m] if len(f.params) == len(args)]
        if len(fs) != 1:
            raise ToolLimit(m)
        r = ex.call_func(fs[0], l, [Arg(val=x) for x in args], st, None)
        return ex.load(st, r) if isinstance(r, LV) else r

    def state(l, v, nm):
        ex.oblige(st, z3.And(call(l, "GetZ", [R("x"), R("y")]) == v, call(l, "GetZ") == v, call(l, "Min") == v, call(l, "Max") == v), nm + ": value", where=K)
        ex.oblige(st, z3.And(call(l, "IsInsideSurface", [R("x"), R("y")]), call(l, "EnclosesRectangle", [R("x"), R("x2"), R("y"), R("y2")])), nm + ": everywhere", where=K)
    state(lv, z, "built")
    p = call(lv, "Clone")
    cl = ex.deref(p, st) if not isinstance(p, LV) else p
    call(lv, "Add", [R("c")])
    state(lv, z + R("c"), "Add")
    call(lv, "Multiply", [R("d")])
    state(lv, (z + R("c")) * R("d"), "Multiply")
    ex.oblige(st, z3.BoolVal(cl.root != lv.root), "clone is an object of its own", where=K + "::Clone")
    state(cl, z, "clone")


def rep(kind):
    def f(env, o):
        for s in range(6):
            yield "%s %d" % (kind, s + 1)
    return f


def units():
    us = []
    for rot in (False, True):
        p = "rotated " if rot else ""
        us.append((SURF, Unit(p + "geometry", u_geometry(rot), replay=rep("all"))))
        us.append((SURF, Unit(p + "change of dimensions", u_redim(rot), replay=rep("all"))))
        us.append((SURF, Unit(p + "arithmetic with a number", u_scalar(rot), replay=rep("all"))))
        us.append((SURF, Unit(p + "arithmetic with another surface", u_nonconform(rot), replay=rep("all"))))
        us.append((SURF, Unit(p + "clone", u_clone(rot), replay=rep("all"))))
    us.append((SURF, Unit("rotated rectangle test and statistics", u_rotmore, replay=rep("all"))))
    us.append((SURF, Unit("constant surface", u_const, replay=rep("all"))))
    us.append((SURF, Unit("rotated bounds", u_bounds, replay=rep("all"))))
    us.append((SURF, Unit("rotated inside", u_rotinside, replay=rep("all"))))
    us.append((SURF, Unit("rotated values", u_rotz, replay=rep("all"))))
    us.append((SURF, Unit("rotated resampling", u_resample, replay=rep("all"))))
    us.append((SURF, Unit("built from a grid", u_build(False), replay=rep("all"))))
    us.append((SURF, Unit("rotated built from a grid or surface", u_build(True), replay=rep("all"))))
    us.append((SURF, Unit("index of a point", u_find, replay=rep("all"))))
    for pat in range(16):
        us.append((SURF, Unit("GetZ corners %s" % format(pat, "04b"), u_getz(False, pat, False), replay=rep("all"))))
        us.append((SURF, Unit("GetZInside corners %s" % format(pat, "04b"), u_getz(False, pat, True), replay=rep("all"))))
    for low in (True, False):
        for node in (False, True):
            us.append((SURF, Unit(("minimum" if low else "maximum") + (" node" if node else ""), u_extreme(low, node), replay=rep("all"))))
    us.append((SURF, Unit("average", u_avg, replay=rep("all"))))
    for cx in range(4):
        for cy in range(4):
            us.append((SURF, Unit("neighbour average %d%d" % (cx, cy), u_neigh(cx, cy), replay=rep("all"))))
    return us


ASSUMPTIONS = ["the number of nodes fits in int and size_t", "element type double"]


def gen(rng, budget, tier):
    for k in range({"std": 4000, "deep": 40000}[budget]):
        yield "all %d" % rng.randint(1, 10 ** 9)


def harness(scratch):
    return Harness(scratch, "surf.cpp", [], gen, "random surfaces up to 7x7 nodes with 0/25/60/100 % missing; every operation against a table of nodes")
