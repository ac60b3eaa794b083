"""C18: a seismic geometry: coordinates, inline/crossline numbers and grid indices are converted consistently."""
from .lib import *
from cxxvc.execu import Thrown

TU = {"file": "segygeom.cpp"}
GEO = "NRLib::SegyGeometry"
HALF = q("1/2")


def val(ex, st, r):
    return ex.load(st, r) if isinstance(r, LV) else r


def quiet(ex):
    """writing to the log has no effect on the geometry"""
    no = lambda ex, st, f, this, args: None
    for m in ("LogFormatted", "LogMessage"):
        ex.contracts["NRLib::LogKit::" + m] = no
    ex.contracts["NRLib::ToString"] = lambda ex, st, f, this, args: Opaque("string")
    for m in ("WriteGeometry", "WriteILXL"):
        ex.contracts[GEO + "::" + m] = no


def is_int_args(f):
    return "double" not in f.type.split(",")[0]


class Geo:
    """a geometry with arbitrary position, size and angle, through the real constructor.
    first: inlines run along the first axis; si, sx: their direction (+1 or -1)"""

    def __init__(self, c, ex, st, first=True, si=1, sx=1, tag="", build=True):
        self.c, self.ex, self.first, self.si, self.sx = c, ex, first, si, sx
        for k in ("x0", "y0", "dx", "dy", "rot"):
            setattr(self, k, R(k + tag))
        self.cos, self.sin = mathfn("cos", self.rot), mathfn("sin", self.rot)
        st.assume(self.cos * self.cos + self.sin * self.sin == 1)
        st.assume(self.dx > 0)
        st.assume(self.dy > 0)
        self.nx, self.ny, self.IL0, self.XL0, self.a, self.b = (I(k + tag) for k in ("nx", "ny", "IL0", "XL0", "ils", "xls"))
        for n in (self.nx, self.ny, self.a, self.b):
            st.assume(n >= 1)
            st.assume(n <= 2 ** 14)
        for n in (self.IL0, self.XL0):
            st.assume(n >= -2 ** 29)
            st.assume(n <= 2 ** 29)
        quiet(ex)
        if build:
            self.build(st)

    def build(self, st):
        ex = self.ex
        ex.contracts[GEO + "::FindILXL"] = self.nearest
        f = [g for g in self.c.P.byq[GEO + "::SegyGeometry"] if len(g.params) == 13]
        if len(f) != 1:
            raise ToolLimit("constructor of SegyGeometry")
        self.lv = ex.alloc(st, ex.construct(GEO, [Arg(val=norm(v)) for v in self.args13()], st, None, f[0].type), "geometry")
        del ex.contracts[GEO + "::FindILXL"]

    def args13(self):
        a, b = self.si * toreal(self.a), self.sx * toreal(self.b)
        U = (self.cos / self.dx, self.sin / self.dx)
        V = (-self.sin / self.dy, self.cos / self.dy)
        P, Q = (U, V) if self.first else (V, U)
        return (self.x0, self.y0, self.dx, self.dy, self.nx, self.ny, toreal(self.IL0) - a / 2, toreal(self.XL0) - b / 2,
                a * P[0], a * P[1], b * Q[0], b * Q[1], self.rot)

    def nearest(self, ex, st, f, this, args):
        """contract of FindILXL(x, y) (proved by the unit `numbers at a point`): the whole numbers nearest to the position"""
        if is_int_args(f):
            return NotImplemented
        o = ex.load(st, this)
        x, y = (norm(ex.argval(a, st)) for a in args[:2])
        for l, s0, px, py in ((args[2].lv, "in_line0_", "il_stepX_", "il_stepY_"), (args[3].lv, "cross_line0_", "xl_stepX_", "xl_stepY_")):
            v = o.f[s0] + (x - o.f["x0_"]) * o.f[px] + (y - o.f["y0_"]) * o.f[py]
            v = pyth(norm(v + HALF), self.rot)
            ex.store(st, l, ex.floor(st, v))
        return None

    # ---- position -> numbers, in terms of the local coordinates u, v (in cells)
    def glob(self, u, v):
        return (norm(self.x0 + self.cos * self.dx * u - self.sin * self.dy * v), norm(self.y0 + self.sin * self.dx * u + self.cos * self.dy * v))

    def lines(self, u, v):
        """continuous inline and crossline number at local position (u, v)"""
        p, r = (u, v) if self.first else (v, u)
        return (norm(toreal(self.IL0) + self.si * toreal(self.a) * (p - HALF)), norm(toreal(self.XL0) + self.sx * toreal(self.b) * (r - HALF)))

    def node(self, i, j):
        """numbers of cell (i, j)"""
        p, r = (i, j) if self.first else (j, i)
        return norm(self.IL0 + self.si * self.a * p), norm(self.XL0 + self.sx * self.b * r)

    def fn(self, m, n, types=None, notypes=None):
        fs = [f for f in self.ex.prog.byq.get(GEO + "::" + m, []) if len(f.params) == n and (types is None or types in f.type) and
              (notypes is None or notypes not in f.type)]
        if len(fs) != 1:
            raise ToolLimit("no unique SegyGeometry::%s/%d" % (m, n))
        return fs[0]

    def m(self, st, m, args, types=None, notypes=None, lv=None):
        return self.ex.call_func(self.fn(m, len(args), types, notypes), lv or self.lv, [a if isinstance(a, Arg) else Arg(val=a) for a in args], st, None)

    def v(self, st, m, lv=None):
        return val(self.ex, st, self.m(st, m, [], lv=lv))

    def outs(self, st, m, ins, sort=R, types=None, notypes=None, lv=None):
        ls = [self.ex.alloc(st, sort("old%d" % k), "o%d" % k) for k in range(2)]
        r = self.m(st, m, list(ins) + [Arg(lv=l) for l in ls], types, notypes, lv)
        return [self.ex.load(st, l) for l in ls] + [r]

    def bounds(self, st, ex, w, lv=None):
        """the ranges of numbers that go with the cells"""
        n = (self.nx, self.ny) if self.first else (self.ny, self.nx)
        for nm, s, l0, st_, k in (("IL", self.si, self.IL0, self.a, n[0]), ("XL", self.sx, self.XL0, self.b, n[1])):
            lo, hi = (l0, l0 + (k - 1) * st_) if s > 0 else (l0 - (k - 1) * st_, l0)
            for g, want in (("GetMin" + nm, lo), ("GetMax" + nm, hi), ("Get%sStep" % nm, st_), ("Get%s0" % nm, l0)):
                ex.oblige(st, self.v(st, g, lv) == want, g, where=w)
        fa = self.v(st, "GetFirstAxisIL", lv)
        fa = fa if fa.sort() == T.Bool else fa != 0
        ex.oblige(st, fa == z3.BoolVal(self.first), "which axis the inlines follow", where=w)
        for g, want in (("GetX0", self.x0), ("GetY0", self.y0), ("GetDx", self.dx), ("GetDy", self.dy), ("GetNx", self.nx), ("GetNy", self.ny),
                        ("GetAngle", self.rot), ("GetCosRot", self.cos), ("GetSinRot", self.sin), ("Getlx", toreal(self.nx) * self.dx),
                        ("Getly", toreal(self.ny) * self.dy)):
            ex.oblige(st, self.v(st, g, lv) == want, g, where=w)

    def numbers(self, st, ex, w, lv=None):
        u, v = R("u"), R("v")
        x, y = self.glob(u, v)
        il, xl, _ = self.outs(st, "FindContILXL", [x, y], lv=lv)
        L = self.lines(u, v)
        ex.oblige(st, pyth(il - L[0], self.rot) == 0, "inline number at a position", where=w)
        ex.oblige(st, pyth(xl - L[1], self.rot) == 0, "crossline number at a position", where=w)


VAR = [(f, a, b) for f in (True, False) for a in (1, -1) for b in (1, -1)]


def each(run):
    """the eight ways to number the lines; the direction of a single line is taken as increasing (it has none)"""
    def go(c):
        for f, a, b in VAR:
            ex = c.exec()
            st = State()
            g = Geo(c, ex, st, f, a, b, build=False)
            n = (g.nx, g.ny) if f else (g.ny, g.nx)
            if a < 0:
                st.assume(n[0] >= 2)
            if b < 0:
                st.assume(n[1] >= 2)
            g.build(st)
            run(c, ex, st, g)
    return go


def u_nearest(c):
    ex = c.exec()
    st = State()
    g, o, lv = generic(c, ex, st)
    x, y = R("x"), R("y")
    c.cover(ex, st, "any position")
    il, xl, _ = g.outs(st, "FindContILXL", [x, y], lv=lv)
    a, b, _ = g.outs(st, "FindILXL", [x, y], I, types="(double", lv=lv)
    w = GEO + "::FindILXL"
    for k, r, v in (("inline", a, il), ("crossline", b, xl)):
        ex.oblige(st, z3.And(toreal(r) <= v + HALF, toreal(r) > v - HALF), "nearest " + k, where=w)
    f = o.f
    ex.oblige(st, z3.And(il == f["in_line0_"] + (x - f["x0_"]) * f["il_stepX_"] + (y - f["y0_"]) * f["il_stepY_"],
                         xl == f["cross_line0_"] + (x - f["x0_"]) * f["xl_stepX_"] + (y - f["y0_"]) * f["xl_stepY_"]), "linear in the position", where=GEO + "::FindContILXL")


def u_build(c, ex, st, g):
    c.cover(ex, st, "any geometry")
    g.bounds(st, ex, GEO + "::FindILXLGeometry")
    g.numbers(st, ex, GEO + "::FindContILXL")


def u_cells(c, ex, st, g):
    i, j = I("i"), I("j")
    for k, n in ((i, g.nx), (j, g.ny)):
        st.assume(k >= 0)
        st.assume(k < n)
    c.cover(ex, st, "any cell")
    il, xl, _ = g.outs(st, "FindILXL", [i, j], I, notypes="(double")
    L = g.node(i, j)
    ex.oblige(st, z3.And(il == L[0], xl == L[1]), "numbers of a cell", where=GEO + "::FindILXL")
    s = st.clone()
    n0 = len(ex.throws[0])
    ii, jj, _ = g.outs(s, "FindIndex", [L[0], L[1]], I, notypes="(double")
    ex.oblige(s, z3.And(ii == i, jj == j), "cell of the numbers", where=GEO + "::FindIndex")
    for t in ex.throws[0][n0:]:
        ex.oblige(t, z3.BoolVal(False), "the numbers of a cell are accepted", where=GEO + "::FindIndex")


def u_outside(c, ex, st, g):
    """numbers on the lattice but beyond the last cell are refused"""
    i, j = I("i"), I("j")
    st.assume(i >= -2 ** 14)
    st.assume(i <= 2 ** 14)
    st.assume(j >= -2 ** 14)
    st.assume(j <= 2 ** 14)
    ins = z3.And(i >= 0, i < g.nx, j >= 0, j < g.ny)
    c.cover(ex, st, "any lattice point", [z3.Not(ins)])
    L = g.node(i, j)
    g.outs(st, "FindIndex", [L[0], L[1]], I, notypes="(double")
    ex.oblige(st, ins, "numbers outside the cells are refused", where=GEO + "::FindIndex")


def u_index(c, ex, st, g):
    u, v = R("u"), R("v")
    x, y = g.glob(u, v)
    c.cover(ex, st, "any position")
    inside = z3.And(u >= 0, u < toreal(g.nx), v >= 0, v < toreal(g.ny))
    L = [R("il"), R("xl")]
    # position in cells from line numbers
    s = st.clone()
    s.assume(L[0] == g.lines(u, v)[0])
    s.assume(L[1] == g.lines(u, v)[1])
    a, b, _ = g.outs(s, "FindContIndexFromContILXL", g.lines(u, v))
    ex.oblige(s, z3.And(a == u, b == v), "position in cells from line numbers", where=GEO + "::FindContIndexFromContILXL")
    # the rest against the contract of FindContILXL (proved by `construction`)
    def cont(ex, st, f, this, args):
        p, r = (norm(ex.argval(z, st)) for z in args[:2])
        ex.oblige(st, z3.And(p == x, r == y), "asked for the position", where=GEO + "::FindContIndex")
        for l, t in zip(args[2:], g.lines(u, v)):
            ex.store(st, l.lv, t)
    ex.contracts[GEO + "::FindContILXL"] = cont
    a, b, r = g.outs(st, "FindContIndex", [x, y])
    r = val(ex, st, r)
    ex.oblige(st, z3.And(a == u, b == v), "position in cells", where=GEO + "::FindContIndex")
    ex.oblige(st, r == inside, "inside exactly the rectangle of cells", where=GEO + "::FindContIndex")
    r = val(ex, st, g.m(st, "IsInside", [x, y]))
    ex.oblige(st, r == inside, "inside exactly the rectangle of cells", where=GEO + "::IsInside")
    s, n0 = st.clone(), len(ex.throws[0])
    i, j, _ = g.outs(s, "FindIndex", [x, y], I, types="(double")
    for t in ex.throws[0][n0:]:
        ex.oblige(t, z3.Not(inside), "positions inside are accepted", where=GEO + "::FindIndex")
    ex.oblige(s, inside, "positions outside are refused", where=GEO + "::FindIndex")
    cell = lambda k, t: z3.And(toreal(k) <= t, t < toreal(k) + 1)
    ex.oblige(s, z3.And(cell(i, u), cell(j, v)), "cell that holds the position", where=GEO + "::FindIndex")
    s = st.clone()
    i, j = I("ci"), I("cj")

    def cells(ex, st, f, this, args):
        "contract of the form with two results, proved just above"
        if len(args) != 4 or "(double" not in f.type.replace(" ", ""):
            return NotImplemented
        p, r = (norm(ex.argval(z, st)) for z in args[:2])
        ex.oblige(st, z3.And(p == x, r == y), "asked for the position", where=GEO + "::FindIndex")
        ex.store(st, args[2].lv, i)
        ex.store(st, args[3].lv, j)
    ex.contracts[GEO + "::FindIndex"] = cells
    s.assume(inside)
    k = val(ex, s, g.m(s, "FindIndex", [x, y]))
    s.assume(cell(i, u))
    s.assume(cell(j, v))
    ex.oblige(s, k == j * g.nx + i, "flat index runs fastest along the first axis", where=GEO + "::FindIndex")


def generic(c, ex, st):
    """an object whose steps are four arbitrary numbers"""
    g = Geo(c, ex, st, build=False)
    names = [n for n, _, _ in c.P.classes[GEO]["fields"]]
    o = Rec(GEO, {n: R("f_" + n) for n in names})
    return g, o, ex.alloc(st, o, "geometry")


def u_inverse(flat):
    """position from line numbers is the inverse of line numbers from position, for any two independent directions.
    flat: the inlines run along y and the crosslines along x (first steps zero)"""
    def run(c):
        ex = c.exec()
        st = State()
        g, o, lv = generic(c, ex, st)
        p, q_, r, s = (o.f[k] for k in ("il_stepX_", "il_stepY_", "xl_stepX_", "xl_stepY_"))
        st.assume(p * s - q_ * r != 0)
        ab = lambda t: z3.If(t >= 0, t, -t)
        if flat:
            st.assume(p == 0)
            st.assume(s == 0)
        else:
            t = q("1/100000000000000")
            st.assume(p != 0)
            st.assume(s != 0)
            for n, d in ((p, r), (s, q_)):
                st.assume(ab(n) >= t * ab(d))
                f = norm(n / d)
                st.assume(z3.Implies(d != 0, norm(n / d) * d == n))
                st.assume(z3.Implies(d == 0, ab(f) >= 1))      # IEEE: a quotient by zero is infinite
        c.cover(ex, st, "any position")
        x, y = R("x"), R("y")
        il = norm(o.f["in_line0_"] + (x - o.f["x0_"]) * p + (y - o.f["y0_"]) * q_)
        xl = norm(o.f["cross_line0_"] + (x - o.f["x0_"]) * r + (y - o.f["y0_"]) * s)
        a, b, _ = g.outs(st, "FindXYFromContILXL", [il, xl], lv=lv)
        w = GEO + "::FindXYFromContILXL"
        if flat:
            ex.oblige(st, a == x, "x of line numbers", where=w)
            ex.oblige(st, b == y, "y of line numbers", where=w)
        else:
            req(ex, st, a, x, "x of line numbers", w)
            req(ex, st, b, y, "y of line numbers", w)
        ex2 = c.exec()
        s2 = State()
        g2, o2, lv2 = generic(c, ex2, s2)
        X, Y = (z3.Function(k, T.Real, T.Real, T.Real) for k in ("x_of_lines", "y_of_lines"))

        def cont(ex, st, f, this, args):
            v = [norm(toreal(ex.argval(z, st))) for z in args[:2]]
            for l, fn in zip(args[2:], (X, Y)):
                ex.store(st, l.lv, fn(*v))
        ex2.contracts[GEO + "::FindXYFromContILXL"] = cont
        i, j = I("iline"), I("xline")
        a, b, _ = g2.outs(s2, "FindXYFromILXL", [i, j], lv=lv2)
        ex2.oblige(s2, z3.And(a == X(toreal(i), toreal(j)), b == Y(toreal(i), toreal(j))), "position of whole line numbers", where=GEO + "::FindXYFromILXL")
    return run


def u_steps(c, ex, st, g):
    """the steps of a rotated geometry are two independent, orthogonal directions (what `inverse` asks for)"""
    A = g.args13()
    p, q_, r, s = (norm(v) for v in A[8:12])
    c.cover(ex, st, "any geometry")
    k = toreal(g.a) * toreal(g.b) * g.si * g.sx * (1 if g.first else -1)
    d = pyth(ex.cancel(st, norm((p * s - q_ * r) * g.dx * g.dy)), g.rot)
    ex.oblige(st, d == k, "independent directions", where=GEO + "::SegyGeometry")
    ex.oblige(st, (p == 0) == (s == 0), "both first steps vanish together", where=GEO + "::SegyGeometry")


def u_centre(c, ex, st, g):
    i, j = I("i"), I("j")
    for k, n in ((i, g.nx), (j, g.ny)):
        st.assume(k >= 0)
        st.assume(k < n)
    c.cover(ex, st, "any cell")
    P = (toreal(i) + HALF, toreal(j) + HALF)

    def cont(ex, st, f, this, args):
        v = [norm(toreal(ex.argval(z, st))) for z in args[:2]]
        L = g.lines(*P)
        ex.oblige(st, z3.And(v[0] == L[0], v[1] == L[1]), "asked for the numbers of the cell", where=GEO + "::FindXYFromIJ")
        for l, t in zip(args[2:], g.glob(*P)):
            ex.store(st, l.lv, t)
    ex.contracts[GEO + "::FindXYFromContILXL"] = cont
    x, y, _ = g.outs(st, "FindXYFromIJ", [i, j])
    px, py = g.glob(*P)
    ex.oblige(st, z3.And(x == px, y == py), "centre of a cell", where=GEO + "::FindXYFromIJ")


def u_simple(kind):
    """the constructors that number the lines 0, 1, 2, ... : crosslines along the first axis"""
    def run(c):
        ex = c.exec()
        st = State()
        g = Geo(c, ex, st, False, 1, 1, build=False)
        g.IL0 = g.XL0 = iv(0)
        g.a = g.b = iv(1)
        if kind == "numbers":
            args = [Arg(val=v) for v in (g.x0, g.y0, g.dx, g.dy, g.nx, g.ny, g.rot)]
            f = [h for h in c.P.byq[GEO + "::SegyGeometry"] if len(h.params) == 7]
        else:
            cls = "NRLib::" + kind + "<double>"
            f = [h for h in c.P.byq[GEO + "::SegyGeometry"] if len(h.params) == 1 and kind + "<double>" in h.type]
            if kind == "RegularSurface":
                g.rot = rv(0)
                g.cos, g.sin = rv(1), rv(0)
            # the surface through its getters (contracts proved in C15)
            get = {"GetXMin": g.x0, "GetYMin": g.y0, "GetXRef": g.x0, "GetYRef": g.y0, "GetDX": g.dx, "GetDY": g.dy, "GetAngle": g.rot,
                   "GetNI": norm(g.nx + 1), "GetNJ": norm(g.ny + 1)}
            if kind == "RegularSurfaceRotated":
                get["GetXMin"], get["GetYMin"] = R("xmin"), R("ymin")
            for k, v in get.items():
                for b in (cls, "NRLib::Grid2D<double>"):
                    ex.contracts[b + "::" + k] = (lambda v: lambda ex, st, f, this, args: v)(v)
            args = [Arg(lv=ex.alloc(st, Rec(cls, {}), "surface"))]
        if len(f) != 1:
            raise ToolLimit("constructor of SegyGeometry")
        c.cover(ex, st, "any geometry")
        lv = ex.alloc(st, ex.construct(GEO, args, st, None, f[0].type), "geometry")
        for k in list(ex.contracts):
            if "::Get" in k and not k.startswith(GEO):
                del ex.contracts[k]
        w = GEO + "::SegyGeometry"
        g.bounds(st, ex, w, lv)
        g.numbers(st, ex, w, lv)
    return run


def u_copy(c, ex, st, g):
    f = [h for h in c.P.byq[GEO + "::SegyGeometry"] if len(h.params) == 1 and "SegyGeometry *" in h.type]
    if len(f) != 1:
        raise ToolLimit("copy constructor of SegyGeometry")
    c.cover(ex, st, "any geometry")
    lv = ex.alloc(st, ex.construct(GEO, [Arg(val=PtrV(g.lv.root, g.lv.path))], st, None, f[0].type), "copy")
    w = GEO + "::SegyGeometry"
    g.bounds(st, ex, w, lv)
    g.numbers(st, ex, w, lv)


def u_setup(flat):
    """geometry from a reference trace and the steps between lines: the numbers at any position are those of the lattice of traces"""
    def run(c):
        ex = c.exec()
        st = State()
        g, o, lv = generic(c, ex, st)
        ref = [R("xRef"), R("yRef"), I("ilRef"), I("xlRef")]
        rng = [I("minIL"), I("maxIL"), I("minXL"), I("maxXL")]
        a, b, p, r = R("dxIL"), R("dyIL"), R("dxXL"), R("dyXL")
        dl = [I("deltaIL"), I("deltaXL")]
        st.assume(dl[0] >= 1)
        st.assume(dl[1] >= 1)
        st.assume(rng[0] <= rng[1])
        st.assume(rng[2] <= rng[3])
        if flat == "crossline":       # one crossline: the direction across is turned by a right angle
            st.assume(rng[2] == rng[3])
            P, Rr = b, -a
            A, B = a, b
            st.assume(z3.Or(a != 0, b != 0))
        elif flat == "inline":
            st.assume(rng[2] < rng[3])
            st.assume(rng[0] == rng[1])
            A, B = -r, p
            P, Rr = p, r
            st.assume(z3.Or(p != 0, r != 0))
        else:
            st.assume(rng[2] < rng[3])
            st.assume(rng[0] < rng[1])
            A, B, P, Rr = a, b, p, r
            st.assume(a * r - b * p != 0)
        c.cover(ex, st, "any lattice")
        g.m(st, "SetupGeometry", ref + rng + [a, b, p, r] + dl, lv=lv)
        w = GEO + "::SetupGeometry"
        f = ex.load(st, lv).f
        for nm, sx, sy, dx, dy, want in (("inline steps along inlines", "il_stepX_", "il_stepY_", A, B, 1), ("inline steps along crosslines", "il_stepX_", "il_stepY_", P, Rr, 0),
                                         ("crossline steps along inlines", "xl_stepX_", "xl_stepY_", A, B, 0), ("crossline steps along crosslines", "xl_stepX_", "xl_stepY_", P, Rr, 1)):
            for cx, ex_ in ite_cases(f[sx]):
                for cy, ey in ite_cases(f[sy]):
                    s = st.clone()
                    for t in cx + cy:
                        s.assume(t)
                    if ex.decide(s, z3.BoolVal(False), 5000):
                        continue
                    req(ex, s, norm(ex_ * dx + ey * dy), rv(want), nm, w)
        il, xl, _ = g.outs(st, "FindContILXL", ref[:2], lv=lv)
        ex.oblige(st, z3.And(norm(il) == toreal(ref[2]), norm(xl) == toreal(ref[3])), "numbers of the reference trace", where=w)
    return run


def u_area(c):
    """the lines that cover another geometry's rectangle"""
    ex = c.exec()
    st = State()
    g = Geo(c, ex, st)
    t = Geo(c, ex, st, tag="_t")
    V = [R("s"), R("t")]
    for v in V:
        st.assume(v >= 0)
        st.assume(v <= 1)
    c.cover(ex, st, "any two geometries")
    got = []
    base = [(R("il0"), R("ilu"), R("ilv")), (R("xl0"), R("xlu"), R("xlv"))]
    corner = {}
    for a in (0, 1):
        for b in (0, 1):
            x, y = t.glob(a * toreal(t.nx), b * toreal(t.ny))
            corner[(a, b)] = (norm(x), norm(y))

    def cont(ex, st, f, this, args):
        """contract of FindContILXL: affine in the position"""
        p = tuple(norm(ex.argval(z, st)) for z in args[:2])
        for (a, b), (x, y) in corner.items():
            if z3.is_true(T.beq(norm(p[0] - x), rv(0))) and z3.is_true(T.beq(norm(p[1] - y), rv(0))):
                for l, (k0, ku, kv) in zip(args[2:], base):
                    ex.store(st, l.lv, norm(k0 + a * ku + b * kv))
                got.append((a, b))
                return None
        raise ToolLimit("line numbers asked at a position that is no corner")
    ex.contracts[GEO + "::FindContILXL"] = cont
    r = ex.call_func(g.fn("findAreaILXL", 1), g.lv, [Arg(val=PtrV(t.lv.root, t.lv.path))], st, None)
    r = val(ex, st, r)
    A = [ex.elem(st, r, iv(k)) for k in range(6)]
    w = GEO + "::findAreaILXL"
    ex.oblige(st, z3.And(A[4] == g.a, A[5] == g.b), "steps of the data", where=w)
    for k, (nm, n) in enumerate((("IL", g.nx), ("XL", g.ny))):
        lo, hi = g.v(st, "GetMin" + nm), g.v(st, "GetMax" + nm)
        k0, ku, kv = base[k]
        z = R("z" + nm)
        s = st.clone()
        su, sv = R("su" + nm), R("sv" + nm)      # s*ku and t*kv, between 0 and the full step
        for m, v in ((su, ku), (sv, kv)):
            s.assume(z3.Or(z3.And(m >= 0, m <= v), z3.And(m <= 0, m >= v)))
        s.assume(z == k0 + su + sv)
        ex.oblige(s, z3.Implies(z >= toreal(lo), toreal(A[2 * k]) <= z), "first %s is not beyond the area" % nm, where=w)
        ex.oblige(s, z3.Implies(z <= toreal(hi), toreal(A[2 * k + 1]) >= z), "last %s is not before the area" % nm, where=w)
        ex.oblige(st, (A[2 * k] - lo) % (g.a, g.b)[k] == 0, "first %s is a line of the data" % nm, where=w)
        ex.oblige(st, (hi - A[2 * k + 1]) % (g.a, g.b)[k] == 0, "last %s is a line of the data" % nm, where=w)
        ex.oblige(st, z3.And(A[2 * k] >= lo, A[2 * k + 1] <= hi), "%s within the data" % nm, where=w)


def ilxl(ex, st, xs):
    return Arg(lv=ex.alloc(st, ListV("int", list(xs)), "ilxl"))


def u_sub(c, ex, st, g):
    """a part of the geometry: every so-many-th line between two lines of the data"""
    n = (g.nx, g.ny) if g.first else (g.ny, g.nx)
    k, m, cnt = [], [], []
    for t, N in zip(("i", "x"), n):
        a, b, d = I("from_" + t), I("every_" + t), I("count_" + t)
        st.assume(a >= 0)
        st.assume(b >= 1)
        st.assume(d >= 1)
        st.assume(norm(a + (d - 1) * b) <= norm(N - 1))
        # instances of the monotony of products (d >= 1, b >= 1, step >= 1)
        st.assume(norm((d - 1) * b) >= 0)
        k.append(a), m.append(b), cnt.append(d)
    steps = (g.a, g.b)
    lo = [g.v(st, "GetMinIL"), g.v(st, "GetMinXL")]
    for t in (0, 1):
        S = steps[t]
        for e in ((cnt[t] - 1) * m[t], k[t], n[t] - 1 - k[t] - (cnt[t] - 1) * m[t], n[t] - 1 - k[t], m[t] - 1):
            st.assume(z3.Implies(norm(e) >= 0, norm(e * S) >= 0))
    first = [norm(lo[t] + k[t] * steps[t]) for t in (0, 1)]
    last = [norm(first[t] + (cnt[t] - 1) * m[t] * steps[t]) for t in (0, 1)]
    sub = [norm(m[t] * steps[t]) for t in (0, 1)]
    c.cover(ex, st, "any part")
    X, Y = (z3.Function(f, T.Real, T.Real, T.Real) for f in ("x_of_lines", "y_of_lines"))

    def cont(ex, st, f, this, args):
        v = [norm(toreal(ex.argval(z, st))) for z in args[:2]]
        for l, fn in zip(args[2:], (X, Y)):
            ex.store(st, l.lv, fn(*v))
    ex.contracts[GEO + "::FindXYFromContILXL"] = cont
    made = []
    ctor = [f for f in c.P.byq[GEO + "::SegyGeometry"] if len(f.params) == 13][0]

    def build(ex, st, f, this, args):
        if len(f.params) != 13:
            return NotImplemented
        made.append([norm(ex.argval(z, st)) for z in args])
        return None
    ex.contracts[GEO + "::SegyGeometry"] = build
    fl = [ex.alloc(st, z3.Bool("old%d" % t), "flag") for t in (0, 1)]
    n0 = len(ex.throws[0])
    w = GEO + "::GetILXLSubGeometry"
    g.m(st, "GetILXLSubGeometry", [ilxl(ex, st, [first[0], last[0], first[1], last[1], sub[0], sub[1]])] + [Arg(lv=l) for l in fl])
    for t in ex.throws[0][n0:]:
        ex.oblige(t, z3.BoolVal(False), "a part inside the data is accepted", where=w)
    for l, nm in zip(fl, ("no interpolation for lines of the data", "nothing moved for lines of the data")):
        ex.oblige(st, z3.Not(ex.load(st, l)), nm, where=w)
    if len(made) != 1:
        raise ToolLimit("not one geometry made")
    A = made[0]
    o = ex.load(st, g.lv).f
    want = g.args13()
    il0 = toreal(first[0]) - toreal(sub[0]) / 2 if g.si > 0 else toreal(last[0]) + toreal(sub[0]) / 2
    xl0 = toreal(first[1]) - toreal(sub[1]) / 2 if g.sx > 0 else toreal(last[1]) + toreal(sub[1]) / 2
    ax = (0, 1) if g.first else (1, 0)
    spec = [("x of the corner", X(norm(il0), norm(xl0))), ("y of the corner", Y(norm(il0), norm(xl0))), ("first step", g.dx * toreal(m[ax[0]])), ("second step", g.dy * toreal(m[ax[1]])),
            ("first size", cnt[ax[0]]), ("second size", cnt[ax[1]]), ("inline start", il0), ("crossline start", xl0)]
    spec += [(nm, want[8 + t]) for t, nm in enumerate(("inline step x", "inline step y", "crossline step x", "crossline step y"))] + [("angle", g.rot)]
    for v, (nm, t) in zip(A, spec):
        if v.sort() != t.sort():
            v, t = toreal(v), toreal(t)
        v = ex.cancel(st, norm(v)) if v.sort() == T.Real else v
        ex.oblige(st, v == norm(t), nm + " of the part", where=w)


def u_refuse(c, ex, st, g):
    """lines outside the data are refused, whatever else is asked"""
    q6 = [I("ask%d" % k) for k in range(6)]
    lo = [g.v(st, m) for m in ("GetMinIL", "GetMinXL")]
    hi = [g.v(st, m) for m in ("GetMaxIL", "GetMaxXL")]
    ok = z3.And([z3.And(v >= lo[k // 2], v <= hi[k // 2]) for k, v in enumerate(q6[:4])])
    st.assume(z3.Not(ok))
    c.cover(ex, st, "any request outside")
    fl = [ex.alloc(st, z3.Bool("old%d" % t), "flag") for t in (0, 1)]
    n0 = len(ex.throws[0])
    w = GEO + "::GetILXLSubGeometry"
    dead = False
    try:
        g.m(st, "GetILXLSubGeometry", [ilxl(ex, st, q6)] + [Arg(lv=l) for l in fl])
    except Thrown:
        dead = True
    ex.oblige(st if not dead else State(), z3.BoolVal(dead), "lines outside the data are refused", where=w)


def u_single(c):
    """one trace: its numbers at its own position, and one cell around it"""
    ex = c.exec()
    st = State()
    g, o, lv = generic(c, ex, st)
    x, y, il, xl = R("tx"), R("ty"), I("til"), I("txl")
    for k, v in (("GetX", x), ("GetY", y), ("GetInline", il), ("GetCrossline", xl)):
        ex.contracts["NRLib::SegYTrace::" + k] = (lambda v: lambda ex, st, f, this, args: v)(v)
    tr = ex.alloc(st, Rec("NRLib::SegYTrace", {}), "trace")
    c.cover(ex, st, "any trace")
    g.m(st, "SetupGeometrySingleTrace", [PtrV(tr.root, tr.path)], lv=lv)
    w = GEO + "::SetupGeometrySingleTrace"
    a, b, _ = g.outs(st, "FindContILXL", [x, y], lv=lv)
    ex.oblige(st, z3.And(norm(a) == toreal(il), norm(b) == toreal(xl)), "numbers of the trace", where=w)
    u, v = R("u"), R("v")
    a, b, _ = g.outs(st, "FindContILXL", [norm(x + u / 10), norm(y + v / 10)], lv=lv)
    ex.oblige(st, z3.And(norm(a) == toreal(il) + u, norm(b) == toreal(xl) + v), "numbers beside the trace", where=w)
    a, b, r = g.outs(st, "FindContIndex", [x, y], lv=lv)
    ex.oblige(st, z3.And(norm(a) == HALF, norm(b) == HALF), "the trace is in the middle of its cell", where=w)
    r = r if r.sort() == T.Bool else r != 0
    ex.oblige(st, r, "the trace is inside", where=w)
    for n, want in (("GetNx", 1), ("GetNy", 1), ("GetMinIL", il), ("GetMaxIL", il), ("GetMinXL", xl), ("GetMaxXL", xl)):
        ex.oblige(st, g.v(st, n, lv) == want, n, where=w)
    a, b, _ = g.outs(st, "FindILXL", [iv(0), iv(0)], sort=I, notypes="double", lv=lv)
    ex.oblige(st, z3.And(a == il, b == xl), "numbers of the cell", where=w)
    a, b, _ = g.outs(st, "FindIndex", [il, xl], sort=I, notypes="double", lv=lv)
    ex.oblige(st, z3.And(a == 0, b == 0), "cell of the numbers", where=w)


ORTH = GEO + "::Orthogonalize"


def u_orth(c):
    """the two directions at right angles, each with its own length"""
    ex = c.exec()
    st = State()
    g, o, lv = generic(c, ex, st)
    a, b, p, r, f = (R(k) for k in ("dxIL", "dyIL", "dxXL", "dyXL", "frac"))
    for h in (a != 0, p != 0, f != 0):
        st.assume(h)
    c.cover(ex, st, "any directions")
    ls = [ex.alloc(st, R("old%d" % k), "n%d" % k) for k in range(4)]
    g.m(st, "Orthogonalize", [a, b, p, r] + [Arg(lv=l) for l in ls] + [f], lv=lv)
    A, B, P, Q = (ex.load(st, l) for l in ls)
    # root(s) = square root of s: its square is s
    req2(ex, st, norm(A * A + B * B), norm(a * a + b * b), "inline step keeps its length", ORTH)
    req2(ex, st, norm(P * P + Q * Q), norm(p * p + r * r), "crossline step keeps its length", ORTH)
    req2(ex, st, norm(A * P + B * Q), rv(0), "the steps are at right angles", ORTH)
    req2(ex, st, norm(A * f - B), rv(0), "inline step has the given slope", ORTH)


def req2(ex, st, e, want, name, w):
    """identity of rational expressions in square roots: a root's square is its argument"""
    N, D, ds = rat(norm(e - want))
    for d in ds:
        ex.oblige(st, d != 0, name + ": divisor is not zero", where=w)
    t = T.from_poly(N, T.Real)
    for _ in range(8):
        n2 = root_reduce(t)
        if n2.eq(t):
            break
        t = n2
    ex.oblige(st, t == 0, name, where=w)


def root_reduce(e):
    out = {}
    for m, k in T.poly(norm(e)).items():
        n = {(): k}
        left = list(m)
        i = 0
        while i < len(left):
            x = T._atoms[left[i]]
            if z3.is_app(x) and x.decl().name() == "sqrt" and left.count(left[i]) > 1:
                z = left[i]
                left.remove(z)
                left.remove(z)
                n = T.pmul(n, T.poly(norm(x.arg(0))))
                i = 0
            else:
                i += 1
        n = T.pmul(n, {tuple(left): Fraction(1)})
        out = T.padd(out, n)
    return T.from_poly(out, T.Real)


def u_regularize(c):
    """the steps are left alone, or turned to a right angle with their lengths kept"""
    ex = c.exec()
    st = State()
    g, o, lv = generic(c, ex, st)
    old = [R(k) for k in ("dxIL", "dyIL", "dxXL", "dyXL")]
    dl = [R(k) for k in ("dIL1", "dIL2", "dXL1", "dXL2")]
    fs = [z3.Function("orth%d" % k, *[T.Real] * 6) for k in range(4)]
    ex.contracts["NRLib::RadToDeg"] = lambda ex, st, f, this, args: R("deg")

    def orth(ex, st, f, this, args):
        v = [norm(ex.argval(a, st)) for a in args[:4]]
        for x, y in zip(v, old):
            ex.oblige(st, x == y, "right angle made from the original steps", where=GEO + "::Regularize")
        fr = norm(ex.argval(args[8], st))
        for h, l in zip(fs, args[4:8]):
            ex.store(st, l.lv, h(*(v + [fr])))
    ex.contracts[ORTH] = orth
    c.cover(ex, st, "any steps")
    ls = [ex.alloc(st, x, "s%d" % k) for k, x in enumerate(old)]
    r = g.m(st, "Regularize", [Arg(lv=l) for l in ls] + dl, lv=lv)
    r = r if r.sort() == T.Bool else r != 0
    new = [ex.load(st, l) for l in ls]
    w = GEO + "::Regularize"
    ex.oblige(st, z3.Implies(z3.Not(r), z3.And(*[x == y for x, y in zip(new, old)])), "steps left alone", where=w)
    # every outcome of the search is some slope: the results are those of one call
    fr = [x for x in subterms(new[0]) if z3.is_app(x) and x.decl().eq(fs[0])]
    if not fr:
        raise ToolLimit("steps after regularization")
    ex.oblige(st, z3.Implies(r, z3.Or(*[z3.And(*[x == h(*[t.arg(k) for k in range(5)]) for x, h in zip(new, fs)]) for t in fr])), "steps of one right-angled pair", where=w)


def subterms(e, seen=None):
    seen = {} if seen is None else seen
    if e.get_id() in seen:
        return
    seen[e.get_id()] = 1
    yield e
    for x in e.children():
        yield from subterms(x, seen)


def rep(env, o):
    for s in range(6):
        yield "%s %d" % (KINDS[s % 6], s + 1)


def units():
    us = [("numbers at a point", u_nearest), ("construction", each(u_build)), ("cells and numbers", each(u_cells)), ("numbers outside", each(u_outside)),
          ("positions", each(u_index)), ("inverse", u_inverse(False)), ("inverse along the axes", u_inverse(True)),
          ("steps", each(u_steps)), ("centres", each(u_centre)), ("plain constructor", u_simple("numbers")), ("from a surface", u_simple("RegularSurface")),
          ("from a rotated surface", u_simple("RegularSurfaceRotated")), ("copy", each(u_copy)),
          ("setup", u_setup("")), ("setup one inline", u_setup("inline")), ("setup one crossline", u_setup("crossline")), ("area", u_area),
          ("one trace", u_single), ("right angle", u_orth), ("regularization", u_regularize),
          ("part", each(u_sub)), ("part outside", each(u_refuse))]
    return [(TU, Unit(n, f, replay=rep)) for n, f in us]


KINDS = ["build", "plain", "part", "area", "traces", "single"]
ASSUMPTIONS = ["quotients by zero are infinite (IEEE), used for the test of the steps in FindXYFromContILXL",
               "surfaces are used through the contracts of their getters (proved in C15)",
               "the direction of an axis with one line is taken as increasing",
               "up to 2^14 cells and step 2^14 per axis, line numbers up to 2^29 (no overflow of int)"]
BOUNDED = ["geometry recovered from a set of traces (the constructor from traces, the choice of the origin corner in SetupGeometry): executable specification over generated lattices",
           "parts whose limits are not lines of the data: executable specification"]


def gen(rng, budget, tier):
    for k in range({"std": 4000, "deep": 30000}[budget]):
        yield "%s %d" % (rng.choice(KINDS), rng.randint(1, 10 ** 9))


def harness(scratch):
    return Harness(scratch, "segygeom.cpp", ["nrlib/segy/segygeometry.cpp", "nrlib/segy/segytrace.cpp", "nrlib/segy/traceheader.cpp", "nrlib/iotools/logkit.cpp", "nrlib/iotools/logstream.cpp", "nrlib/iotools/stringtools.cpp", "nrlib/math/constants.cpp"], gen,
                   "random geometries (all eight ways to number the lines, every angle), parts, areas and lattices of traces; every conversion against the lattice",
                   libs=("-Wl,--unresolved-symbols=ignore-all",))
