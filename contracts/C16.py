"""C16: a volume is a rotated box between two surfaces: local and global coordinates, inside tests, centre, extremes, thickness, copies."""
from .lib import *

SURF = {"file": "surf.cpp"}
VOL = "NRLib::Volume"
SF = "NRLib::Surface<double>"
ZF = z3.Function("surface_z", T.Int, T.Real, T.Real, T.Real)
MISS = z3.Function("surface_missing", T.Int, T.Real, T.Bool)
ENC = z3.Function("surface_encloses", T.Int, T.Real, T.Real, T.Real, T.Real, T.Bool)
LO = z3.Function("surface_min", T.Int, T.Real)
HI = z3.Function("surface_max", T.Int, T.Real)
INSET = z3.Function("is_sampled", T.Real, T.Bool)
NAMES = {"top": 1, "bot": 2, "etop": 3, "ebot": 4}


def abstract(ex, st, k):
    return ex.alloc(st, Rec(SF, {"id": iv(k)}), "surf%d" % k)


def install(ex):
    """the surfaces through the contract of their interface: some value at every point"""
    num_ = lambda ex, st, this: ex.load(st, this).f["id"]
    A = lambda ex, st, args: [norm(ex.argval(x, st)) for x in args]

    def clone(ex, st, f, this, args):
        l = ex.alloc(st, ex.load(st, this), "clone")
        return PtrV(l.root, l.path)
    ex.contracts.update({
        SF + "::GetZ": lambda ex, st, f, this, args: ZF(num_(ex, st, this), *A(ex, st, args)),
        SF + "::IsMissing": lambda ex, st, f, this, args: MISS(num_(ex, st, this), *A(ex, st, args)),
        SF + "::EnclosesRectangle": lambda ex, st, f, this, args: ENC(num_(ex, st, this), *A(ex, st, args)),
        SF + "::Min": lambda ex, st, f, this, args: LO(num_(ex, st, this)),
        SF + "::Max": lambda ex, st, f, this, args: HI(num_(ex, st, this)),
        SF + "::Clone": clone})


class Vol:
    def __init__(self, c, ex, st, tag="", area=True, erosion=False, check=False):
        """a volume with arbitrary position, size, angle and surfaces (through the real constructor and setters)"""
        self.c, self.ex = c, ex
        for k in ("x0", "y0", "lx", "ly", "ang", "lz", "tol"):
            setattr(self, k, R(k + tag))
        self.cos, self.sin = mathfn("cos", self.ang), mathfn("sin", self.ang)
        st.assume(self.cos * self.cos + self.sin * self.sin == 1)
        if area:
            st.assume(self.lx > 0)
            st.assume(self.ly > 0)
        f = [g for g in c.P.byq[VOL + "::Volume"] if len(g.params) == 7 and "Surface" not in g.type]
        if len(f) != 1:
            raise ToolLimit("constructor of Volume")
        o = ex.construct(VOL, [Arg(val=v) for v in (self.x0, self.y0, R("z0" + tag), self.lx, self.ly, self.lz, self.ang)], st, None, f[0].type)
        self.lv = ex.alloc(st, o, "volume")
        install(ex)
        self.m(st, "SetTolerance", [self.tol])

    def put(self, st, top=1, bot=2):
        """surfaces put in place of the constant ones (without recalculation)"""
        for m, k in (("GetTopSurface", top), ("GetBotSurface", bot)):
            l = self.m(st, m, [], False)
            if not isinstance(l, LV):
                raise ToolLimit("surface access")
            self.ex.store(st, l, Rec(SF, {"id": iv(k)}))

    def fn(self, m, n, const=None, types=None):
        fs = [f for f in self.ex.prog.byq.get(VOL + "::" + m, []) if len(f.params) == n and (const is None or f.const == const)
              and (types is None or types in f.type)]
        if len(fs) != 1:
            raise ToolLimit("no unique Volume::%s/%d" % (m, n))
        return fs[0]

    def m(self, st, m, args=(), const=None, types=None):
        return self.ex.call_func(self.fn(m, len(args), const, types), self.lv, [a if isinstance(a, Arg) else Arg(val=a) for a in args], st, None)

    def v(self, st, m, args=(), const=None):
        r = self.m(st, m, args, const)
        r = self.ex.load(st, r) if isinstance(r, LV) else r
        return r

    def b(self, st, m, args):
        r = self.v(st, m, args)
        return r if r.sort() == T.Bool else r != 0

    def outs(self, st, m, ins, n=2):
        ls = [self.ex.alloc(st, R("old%d" % k), "o%d" % k) for k in range(n)]
        self.m(st, m, [Arg(val=a) for a in ins] + [Arg(lv=l) for l in ls])
        return [self.ex.load(st, l) for l in ls]

    def glob(self, u, v):
        return norm(self.x0 + self.cos * u - self.sin * v), norm(self.y0 + self.sin * u + self.cos * v)

    def surf(self, st, m):
        """identity of a surface"""
        l = self.m(st, m, [], True)
        return self.ex.load(st, l)

    def state(self, st, ex, want, nm, w):
        for m, k in (("GetXMin", "x0"), ("GetYMin", "y0"), ("GetLX", "lx"), ("GetLY", "ly"), ("GetAngle", "ang")):
            ex.oblige(st, self.v(st, m) == want[k], "%s: %s" % (nm, m), where=w)


def u_coord(c):
    ex = c.exec()
    st = State()
    v = Vol(c, ex, st)
    a, b = R("u"), R("v")
    x, y = v.glob(a, b)
    c.cover(ex, st, "any point")
    g = v.outs(st, "LocalToGlobalCoord", [a, b])
    ex.oblige(st, z3.And(g[0] == x, g[1] == y), "turned by the angle about the corner", where=VOL + "::LocalToGlobalCoord")
    l = v.outs(st, "GlobalToLocalCoord", [x, y])
    ex.oblige(st, z3.And(l[0] == a, l[1] == b), "inverse of the other direction", where=VOL + "::GlobalToLocalCoord")
    p = v.outs(st, "GetXYFromRelative", [R("ra"), R("rb")])
    gx, gy = v.glob(R("ra") * v.lx, R("rb") * v.ly)
    ex.oblige(st, z3.And(p[0] == gx, p[1] == gy), "relative position", where=VOL + "::GetXYFromRelative")
    v.state(st, ex, v.__dict__, "constructor", VOL + "::Volume")
    ex.oblige(st, v.v(st, "GetTolerance") == v.tol, "tolerance", where=VOL + "::SetTolerance")
    ex.oblige(st, v.v(st, "GetLZ") == v.lz, "height", where=VOL + "::Volume")
    for m, z in (("GetTopSurface", R("z0")), ("GetBotSurface", R("z0") + v.lz)):
        l = v.m(st, m, [], True)
        o = ex.load(st, l)
        f = ex.prog.overrider([f for f in ex.prog.byq[SF + "::GetZ"]][0], o.cls) if isinstance(o, Rec) else None
        if f is None:
            raise ToolLimit("constant surface")
        ex.oblige(st, ex.call_func(f, l, [Arg(val=x), Arg(val=y)], st, None) == z, "flat " + m, where=VOL + "::Volume")


def u_inside(c):
    ex = c.exec()
    st = State()
    v = Vol(c, ex, st)
    v.put(st)
    a, b, z, tz = R("u"), R("v"), R("z"), R("ztol")
    x, y = v.glob(a, b)
    c.cover(ex, st, "any point")
    ins = z3.And(a >= 0, a <= v.lx, b >= 0, b <= v.ly)
    ex.oblige(st, v.b(st, "IsInside", [x, y]) == ins, "inside the rotated rectangle", where=VOL + "::IsInside")
    t = v.tol
    ex.oblige(st, v.b(st, "IsInsideTolerance", [x, y]) == z3.And(a >= -t, a <= v.lx + t, b >= -t, b <= v.ly + t), "inside up to the tolerance",
              where=VOL + "::IsInsideTolerance")
    zt, zb = ZF(1, x, y), ZF(2, x, y)
    ex.oblige(st, v.b(st, "IsInside", [x, y, z]) == z3.And(ins, z > zt, z < zb), "inside and between the surfaces", where=VOL + "::IsInside")
    ex.oblige(st, v.b(st, "IsInsideZTolerance", [x, y, z, tz]) == z3.And(ins, z > zt - tz, z < zb + tz), "between the surfaces up to a tolerance",
              where=VOL + "::IsInsideZTolerance")


def u_center(c):
    ex = c.exec()
    st = State()
    v = Vol(c, ex, st)
    v.put(st)
    c.cover(ex, st, "any volume")
    x, y, z = v.outs(st, "FindCenter", [], 3)
    w = VOL + "::FindCenter"
    gx, gy = v.glob(v.lx / 2, v.ly / 2)
    ex.oblige(st, z3.And(x == gx, y == gy), "centre of the rotated rectangle", where=w)
    ex.oblige(st, z == (ZF(1, x, y) + ZF(2, x, y)) / 2, "half way between the surfaces there", where=w)


def u_extreme(surf, low):
    def run(c):
        ex = c.exec()
        st = State()
        v = Vol(c, ex, st)
        v.put(st)
        k = 1 if surf == "Top" else 2
        nx, ny = I("nx"), I("ny")
        for n in (nx, ny):
            st.assume(n >= 1)
            st.assume(n <= 2 ** 20)
        m = "Get%sZ%s" % (surf, "Min" if low else "Max")
        w = VOL + "::GetZExtreme"
        c.cover(ex, st, "any resolution")
        r = v.v(st, m, [nx, ny])
        le = (lambda a, b: a <= b) if low else (lambda a, b: a >= b)
        mi = lambda z: MISS(iv(k), z)
        # the value at the centre of cell (i, j)
        def cell(i, j):
            x, y = v.glob((z3.ToReal(i) + q("1/2")) * v.lx / z3.ToReal(nx), (z3.ToReal(j) + q("1/2")) * v.ly / z3.ToReal(ny))
            return x, y
        cells(c, ex, st, r, nx, ny, k, cell, mi, le, w)
        if (surf, low) in (("Top", True), ("Bot", False)):
            m2 = "GetZMin" if low else "GetZMax"
            r2 = v.v(st, m2, [nx, ny])
            cells(c, ex, st, r2, nx, ny, k, cell, mi, le, VOL + "::" + m2)
    return run


def loop_of(ex, r):
    m = getattr(ex, "reds", {}).get(r.get_id())
    if m is None:
        raise ToolLimit("result is not a value carried by a recognised loop")
    return m


def cells(c, ex, st, r, nx, ny, k, cell, mi, le, w):
    """outer loop over rows, inner loop over columns (or the reverse): the carried value after an outer iteration comes from the inner loop"""
    mo = loop_of(ex, r)
    h, b, e = mo["h"], mo["b"], mo["step"]
    minner = loop_of(ex, e)
    K = lambda x: z3.Or(mi(x), INSET(x))
    J = lambda x, z: z3.Implies(z3.Not(mi(z)), z3.And(le(x, z), z3.Not(mi(x))))
    hi, bi, ei = minner["h"], minner["b"], T.renorm(minner["step"])
    if not minner["init"].eq(h):
        raise ToolLimit("inner loop does not continue the outer value")
    samples = T.apps(ei, "surface_z")
    if not samples:
        raise ToolLimit("no sample in the loop body")
    z = samples[0]
    for x in samples[1:]:       # the same point written differently
        if not all(z3.is_true(T.beq(norm(x.arg(k) - z.arg(k)), norm(x.arg(k) * 0))) for k in range(3)):
            raise ToolLimit("not one sample in the loop body")
        ei = subst(ei, [(x, z)])
    # which index is the column
    for col, row, nc, nr in ((bi, b, nx, ny), (b, bi, nx, ny)):
        s = st.clone()
        for x in mo["pc"] + minner["pc"] + [mo["dom"], minner["dom"]]:
            s.assume(x)
        cx, cy = cell(col, row)
        if ex.decide(s, z3.And(z.arg(1) == cx, z.arg(2) == cy), 5000):
            break
    else:
        cx, cy = cell(bi, b)
        col, row = bi, b
    s = st.clone()
    for x in mo["pc"] + minner["pc"] + [mo["dom"], minner["dom"]]:
        s.assume(x)
    ex.oblige(s, z.arg(0) == k, "the right surface is asked", where=w)
    ex.oblige(s, z3.And(z.arg(1) == cx, z.arg(2) == cy), "sampled at the centre of the cell", where=w)
    s2 = st.clone()
    for x in (col >= 0, col < nx, row >= 0, row < ny):
        s2.assume(x)
    ex.oblige(s2, z3.And(mo["dom"], minner["dom"]), "every cell is visited", where=w)
    s.assume(z3.Implies(z3.Not(mi(z)), INSET(z)))
    s.assume(K(hi))
    ex.oblige(s, K(ei), "only sampled values are kept", where=w)
    ex.oblige(s, J(ei, z), "invariant holds for the visited cell", where=w)
    o = R("earlier_z")
    s.assume(J(hi, o))
    ex.oblige(s, J(ei, o), "invariant kept for earlier cells", where=w)
    # the start value is a sample of the first cell (or missing)
    z0 = mo["init"]
    st0 = st.clone()
    ap = T.apps(z0, "surface_z")
    if len(ap) == 1 and z0.eq(ap[0]):
        fx, fy = cell(iv(0), iv(0))
        ex.oblige(st0, z3.And(z0.arg(0) == k, z0.arg(1) == fx, z0.arg(2) == fy), "starts with the first cell", where=w)
    else:
        ex.oblige(st0, mi(z0), "starts without a value", where=w)


def u_empty(c):
    """no area: the extremes of the surface itself"""
    for surf, k in (("Top", 1), ("Bot", 2)):
        for low in (True, False):
            ex = c.exec()
            st = State()
            v = Vol(c, ex, st, area=False)
            st.assume(v.lx <= 0)
            st.assume(v.ly <= 0)
            v.put(st)
            c.cover(ex, st, "no area")
            r = v.v(st, "Get%sZ%s" % (surf, "Min" if low else "Max"), [I("nx"), I("ny")])
            ex.oblige(st, r == (LO if low else HI)(iv(k)), "extreme of the surface without area", where=VOL + "::GetZExtreme")


def u_lz(c):
    """height: no thickness at a sampled point exceeds it; it is zero or one of them; the samples are in the area"""
    ex = c.exec()
    st = State()
    v = Vol(c, ex, st)
    v.put(st)
    c.cover(ex, st, "any volume")
    w = VOL + "::RecalculateLZ"
    r = v.v(st, "RecalculateLZ")
    mo = loop_of(ex, r)
    mn = loop_of(ex, mo["step"])
    if not mn["init"].eq(mo["h"]):
        raise ToolLimit("inner loop does not continue the outer value")
    e, h = T.renorm(mn["step"]), mn["h"]
    zs = {}
    for x in T.apps(e, "surface_z"):
        k = x.arg(0).as_long() if z3.is_int_value(x.arg(0)) else None
        if k not in (1, 2):
            raise ToolLimit("surface asked")
        y = zs.setdefault(k, x)
        if not y.eq(x):
            if not all(z3.is_true(T.beq(norm(x.arg(q) - y.arg(q)), norm(x.arg(q) * 0))) for q in (1, 2)):
                raise ToolLimit("not one sample per surface")
            e = subst(e, [(x, y)])
    if sorted(zs) != [1, 2]:
        raise ToolLimit("both surfaces must be asked")
    t, b = zs[1], zs[2]
    s = st.clone()
    for x in mo["pc"] + mn["pc"] + [mo["dom"], mn["dom"]]:
        s.assume(x)
    ex.oblige(s, z3.And(t.arg(1) == b.arg(1), t.arg(2) == b.arg(2)), "both surfaces at the same point", where=w)
    x, y = t.arg(1) - v.x0, t.arg(2) - v.y0
    u, q_ = pyth(v.cos * x + v.sin * y, v.ang), pyth(-v.sin * x + v.cos * y, v.ang)
    ex.oblige(s, z3.And(u >= 0, u <= v.lx, q_ >= 0, q_ <= v.ly), "sampled inside the area", where=w)
    have = z3.And(z3.Not(MISS(iv(2), b)), z3.Not(MISS(iv(1), t)))
    th = b - t
    ex.oblige(st, mo["init"] == 0, "starts at zero", where=w)
    s.assume(z3.Implies(have, INSET(th)))
    s.assume(z3.And(h >= 0, z3.Or(h == 0, INSET(h))))
    ex.oblige(s, z3.And(e >= 0, z3.Or(e == 0, INSET(e))), "zero or a sampled thickness", where=w)
    ex.oblige(s, z3.Implies(have, e >= th), "not less than the thickness of the visited point", where=w)
    ex.oblige(s, e >= h, "not less than before", where=w)


def u_copy(how):
    def run(c):
        for erosion in (False, True):
            ex = c.exec()
            st = State()
            v = Vol(c, ex, st)
            v.put(st)
            if erosion:
                erode(c, ex, st, v)
            c.cover(ex, st, "any volume")
            w = VOL + ("::Volume(const Volume&)" if how == "copy" else "::operator=")
            if how == "copy":
                f = [g for g in c.P.byq[VOL + "::Volume"] if len(g.params) == 1 and "Volume" in g.type]
                o = ex.construct(VOL, [Arg(lv=v.lv)], st, None, f[0].type if f else None)
                d = Vol.__new__(Vol)
                d.__dict__.update(v.__dict__)
                d.lv = ex.alloc(st, o, "copy")
            else:
                d = Vol(c, ex, st, tag="_old")
                d.put(st, 11, 12)
                d.m(st, "operator=", [Arg(lv=v.lv)])
            same(c, ex, st, d, v, how, w, erosion)
            # the copy is independent: changing the source's angle does not change the copy
            v2 = v.__dict__
            if how != "copy":
                self_ = v
                self_.m(st, "operator=", [Arg(lv=v.lv)])
                same(c, ex, st, v, v, "assignment to itself", w, erosion)
    return run


def erode(c, ex, st, v):
    fs = v.fn("SetSurfaces", 4)
    ls = [abstract(ex, st, k) for k in (1, 2, 3, 4)]
    ex.contracts[VOL + "::RecalculateLZ"] = lambda ex, st, f, this, args: R("new_lz")
    ex.contracts[VOL + "::CheckSurfaces"] = lambda ex, st, f, this, args: z3.BoolVal(True)
    ex.call_func(fs, v.lv, [Arg(lv=l) for l in ls], st, None)
    v.lz = R("new_lz")


def same(c, ex, st, d, v, nm, w, erosion):
    d.state(st, ex, v.__dict__, nm, w)
    ex.oblige(st, d.v(st, "GetTolerance") == v.tol, nm + ": tolerance", where=w)
    ex.oblige(st, d.v(st, "GetLZ") == v.lz, nm + ": height", where=w)
    for m, k in (("GetTopSurface", 1), ("GetBotSurface", 2)) + ((("GetErosionTop", 3), ("GetErosionBot", 4)) if erosion else ()):
        o = d.surf(st, m)
        if not isinstance(o, Rec) or "id" not in o.f:
            raise ToolLimit("surface of the copy")
        ex.oblige(st, o.f["id"] == k, nm + ": " + m, where=w)


def u_setters(c):
    for what in ("SetDimensions", "SetAngle", "SetSurfaces3", "SetSurfaces4", "constructor"):
        ex = c.exec()
        st = State()
        v = Vol(c, ex, st)
        v.put(st, 11, 12)
        ex.contracts[VOL + "::RecalculateLZ"] = lambda ex, st, f, this, args: R("new_lz")
        c.cover(ex, st, what)
        for k in (1, 2, 3, 4, 11, 12):      # every surface covers the area
            ex.contracts[SF + "::EnclosesRectangle"] = lambda ex, st, f, this, args: z3.BoolVal(True)
        w = VOL + "::" + what.rstrip("34")
        want = dict(v.__dict__)
        ids = {"GetTopSurface": 11, "GetBotSurface": 12}
        if what == "SetDimensions":
            n = [R(k + "_new") for k in ("x0", "y0", "lx", "ly")]
            v.m(st, what, n)
            want.update(zip(("x0", "y0", "lx", "ly"), n))
        elif what == "SetAngle":
            v.m(st, what, [R("ang_new")])
            want["ang"] = R("ang_new")
        elif what == "SetSurfaces3":
            v.m(st, "SetSurfaces", [Arg(lv=abstract(ex, st, 1)), Arg(lv=abstract(ex, st, 2)), z3.Bool("skip")])
            ids = {"GetTopSurface": 1, "GetBotSurface": 2}
        elif what == "SetSurfaces4":
            v.m(st, "SetSurfaces", [Arg(lv=abstract(ex, st, k)) for k in (1, 2, 3, 4)])
            ids = {"GetTopSurface": 1, "GetBotSurface": 2, "GetErosionTop": 3, "GetErosionBot": 4}
        else:
            f = [g for g in c.P.byq[VOL + "::Volume"] if len(g.params) == 7 and "Surface" in g.type]
            if len(f) != 1:
                raise ToolLimit("constructor with surfaces")
            o = ex.construct(VOL, [Arg(val=x) for x in (v.x0, v.y0, v.lx, v.ly)] + [Arg(lv=abstract(ex, st, 1)), Arg(lv=abstract(ex, st, 2)), Arg(val=v.ang)],
                             st, None, f[0].type)
            v.lv = ex.alloc(st, o, "volume2")
            ids = {"GetTopSurface": 1, "GetBotSurface": 2}
        v.state(st, ex, want, what, w)
        if what != "constructor":
            ex.oblige(st, v.v(st, "GetTolerance") == v.tol, what + ": tolerance", where=w)
        ex.oblige(st, v.v(st, "GetLZ") == R("new_lz"), what + ": height recalculated", where=w)
        for m, k in ids.items():
            ex.oblige(st, v.surf(st, m).f["id"] == k, what + ": " + m, where=w)


def u_check(c):
    """CheckSurface asks for the smallest rectangle around the four corners"""
    ex = c.exec()
    st = State()
    v = Vol(c, ex, st)
    got = []

    def enc(ex, st, f, this, args):
        got.append([norm(ex.argval(x, st)) for x in args])
        return ENC(ex.load(st, this).f["id"], *got[-1])
    ex.contracts[SF + "::EnclosesRectangle"] = enc
    c.cover(ex, st, "any volume")
    r = v.m(st, "CheckSurface", [Arg(lv=abstract(ex, st, 5))])
    r = ex.load(st, r) if isinstance(r, LV) else r
    w = VOL + "::CheckSurface"
    if len(got) != 1:
        raise ToolLimit("not one question to the surface")
    ex.oblige(st, r == ENC(iv(5), *got[0]), "answer of the surface", where=w)
    P = [v.glob(a, b) for a in (rv(0), v.lx) for b in (rv(0), v.ly)]
    for k, (ax, lo) in enumerate(((0, True), (0, False), (1, True), (1, False))):
        g = got[0][k]
        ps = [p[ax] for p in P]
        ex.oblige(st, z3.And([g <= p if lo else g >= p for p in ps]), "side %d bounds the corners" % k, where=w)
        ex.oblige(st, z3.Or([g == p for p in ps]), "side %d is a corner" % k, where=w)


def rep(env, o):
    for s in range(6):
        yield "all %d" % (s + 1)


def units():
    us = [("coordinates", u_coord), ("inside tests", u_inside), ("centre", u_center), ("copy", u_copy("copy")), ("assignment", u_copy("assign")),
          ("setters", u_setters), ("covering check", u_check), ("no area", u_empty), ("height", u_lz)]
    for s in ("Top", "Bot"):
        for low in (True, False):
            us.append(("%s %s" % (s, "minimum" if low else "maximum"), u_extreme(s, low)))
    return [(SURF, Unit(n, f, replay=rep)) for n, f in us]


ASSUMPTIONS = ["surfaces are used through their interface (any value at any point)"]


def gen(rng, budget, tier):
    for k in range({"std": 1500, "deep": 12000}[budget]):
        yield "all %d" % rng.randint(1, 10 ** 9)


def harness(scratch):
    return Harness(scratch, "volume.cpp", ["nrlib/volume/volume.cpp"], gen, "random rotated volumes between tilted planes with missing parts; every operation against the geometry",
                   libs=("-Wl,--unresolved-symbols=ignore-all",))
