"""C14: the grid containers are total maps from index tuples to values, and flat index and tuple correspond one to one."""
from .lib import *

GRIDS = {"file": "grids.cpp"}
CLS = {"Grid2D": 2, "Grid": 3, "Grid4D": 4, "Grid5D": 5}
L = "ijklm"
SPLIT = {2: "GetIJ", 3: "GetIJK", 4: "GetIJKL", 5: "GetIJKLM"}


class G:
    """a grid through its real constructor; contents arbitrary"""

    def __init__(self, c, ex, st, cls, tag="", fill=True):
        self.c, self.ex, self.short = c, ex, cls
        self.cls = "NRLib::%s<double>" % cls
        self.gen = cls == "Grid2DGeneral"
        self.dim = 2 if self.gen else CLS[cls]
        self.val = R("val" + tag)
        if self.gen:
            self.lo = [I("lo_%s%s" % (a, tag)) for a in "ij"]
            self.hi = [I("hi_%s%s" % (a, tag)) for a in "ij"]
            for a, b in zip(self.lo, self.hi):
                st.assume(a >= 0)
                st.assume(a <= b)
            self.N = [norm(b - a + 1) for a, b in zip(self.lo, self.hi)]
            args = [self.lo[0], self.hi[0], self.lo[1], self.hi[1]]
        else:
            self.lo = [iv(0)] * self.dim
            self.N = [I("n%s%s" % (a, tag)) for a in L[:self.dim]]
            for n in self.N:
                st.assume(n >= 1)
            args = self.N
        self.args = args
        o = ex.construct(self.cls, [Arg(val=x) for x in args] + [Arg(val=self.val)], st, None)
        self.lv = ex.alloc(st, o, "grid" + tag)
        self.X = z3.Function("X" + tag, T.Int, T.Real)
        if fill:
            self.fill(st)

    def storage(self, st):
        o = self.ex.load(st, self.lv)
        c = [k for k, v in o.f.items() if isinstance(v, (ArrV, ListV))]
        if len(c) != 1:
            raise ToolLimit("no unique storage in " + self.cls)
        return self.lv.field(c[0])

    def fill(self, st):
        l = self.storage(st)
        old = self.ex.load(st, l)
        old = as_arr(old) if isinstance(old, ListV) else old
        X = self.X
        self.ex.store(st, l, ArrV(old.elem, Base("fn", lambda i: X(i)), (), old.size))

    def f(self, m, n, const=None):
        fs = [f for f in self.ex.prog.byq.get(self.cls + "::" + m, []) if len(f.params) == n and (const is None or f.const == const)]
        if len(fs) != 1:
            raise ToolLimit("no unique %s::%s/%d" % (self.cls, m, n))
        return fs[0]

    def m(self, st, m, args=(), const=None):
        r = self.ex.call_func(self.f(m, len(args), const), self.lv, [a if isinstance(a, Arg) else Arg(val=a) for a in args], st, None)
        return r

    def v(self, st, m, args=(), const=None):
        r = self.m(st, m, args, const)
        return self.ex.load(st, r) if isinstance(r, LV) else r

    def tup(self, st, tag=""):
        """an index tuple inside the grid, with the instances of the product lemma it needs"""
        ix = [I("%s0%s" % (a, tag)) for a in L[:self.dim]]
        for k in range(self.dim):
            st.assume(ix[k] >= 0)
            st.assume(ix[k] < self.N[k])
        lemma(st, ix, self.N)
        return [norm(a + b) for a, b in zip(ix, self.lo)], ix

    def flat(self, ix):
        r, m = ix[0], self.N[0]
        for k in range(1, len(ix)):
            r = r + m * ix[k]
            m = m * self.N[k]
        return norm(r)

    def total(self):
        m = iv(1)
        for n in self.N:
            m = m * n
        return norm(m)


def prods(N):
    """all products of consecutive sizes"""
    for a in range(len(N)):
        m = N[a]
        for b in range(a + 1, len(N) + 1):
            yield a, b, norm(m)
            if b < len(N):
                m = m * N[b]


def lemma(st, ix, N):
    """0 <= i_a + n_a i_{a+1} + ... < n_a...n_{b-1} for every block of consecutive axes, and scaled by the sizes before it (proved by the lemma units)"""
    for a, b, m in prods(N):
        f, s = ix[a], N[a]
        for k in range(a + 1, b):
            f = f + s * ix[k]
            s = s * N[k]
        st.assume(norm(f) >= 0)
        st.assume(norm(f) <= norm(m - 1))
        st.assume(m >= 1)
        if a:
            p = iv(1)
            for k in range(a):
                p = p * N[k]
            st.assume(norm(f * p) >= 0)
            st.assume(norm(f * p) <= norm((m - 1) * p))


def u_lemma(dim):
    def run(c):
        ex = c.exec()
        st = State()
        ix = [I("i%d" % k) for k in range(dim)]
        N = [I("d%d" % k) for k in range(dim)]
        for i, n in zip(ix, N):
            st.assume(i >= 0)
            st.assume(i < n)
        c.cover(ex, st, "indices in range")
        # induction over the block length: with f in [0,m-1] and i in [0,n-1], f + m i in [0, m n - 1]
        f, m, i, n, p = (I(x) for x in "fminp")
        s = State()
        for h in (f >= 0, f <= m - 1, m >= 1, i >= 0, i <= n - 1, n >= 1, p >= 1):
            s.assume(h)
        ex.oblige(s, f + m * i >= 0, "block index is not negative", where="lemma")
        ex.oblige(s, m * i <= m * (n - 1), "stride", where="lemma")
        s2 = s.clone()
        s2.assume(m * i <= m * (n - 1))
        ex.oblige(s2, f + m * i <= m * n - 1, "block index is below the block size", where="lemma")
        ex.oblige(s, m * n >= 1, "block size is positive", where="lemma")
        ex.oblige(s, f * p <= (m - 1) * p, "scaled block index", where="lemma")
        # every flat index comes from a tuple: one Euclidean division per axis
        x, qq = I("x"), I("q")
        s = State()
        for h in (x >= 0, m >= 1, n >= 1, x < m * n, x == m * qq + f, f >= 0, f < m):
            s.assume(h)
        ex.oblige(s, z3.And(qq >= 0, qq < n), "quotient of a flat index is inside the next axes", where="lemma")
    return run


def wrap_facts(ex, st, g):
    pass


def u_index(cls):
    def run(c):
        ex = c.exec()
        st = State()
        g = G(c, ex, st, cls)
        ix, raw = g.tup(st)
        c.cover(ex, st, "tuple inside the grid")
        w = g.cls
        want = g.flat(raw)
        ex.oblige(st, g.v(st, "GetIndex", ix) == want, "flat index is column-major, first axis fastest", where=w + "::GetIndex")
        ex.oblige(st, g.v(st, "GetN") == g.total(), "number of cells", where=w + "::GetN")
        for k in range(g.dim):
            ex.oblige(st, g.v(st, "GetN" + L[k].upper()) == g.N[k], "size along " + L[k], where=w)
        if g.gen:
            for nm, t in (("GetIMin", g.lo[0]), ("GetIMax", g.hi[0]), ("GetJMin", g.lo[1]), ("GetJMax", g.hi[1])):
                ex.oblige(st, g.v(st, nm) == t, nm, where=w)
        # element access in each form
        X = g.X
        for const in (True, False):
            ex.oblige(st, g.v(st, "operator()", ix, const) == X(want), "value under the tuple", where=w + "::operator()")
            ex.oblige(st, g.v(st, "operator()", [want], const) == X(want), "value under the flat index", where=w + "::operator()")
            if g.ex.prog.byq.get(g.cls + "::GetValue"):
                ex.oblige(st, g.v(st, "GetValue", ix, const) == X(want), "GetValue", where=w + "::GetValue")
    return run


def u_split(cls):
    def run(c):
        ex = c.exec()
        st = State()
        g = G(c, ex, st, cls)
        ix, raw = g.tup(st)
        if g.gen:
            st.assume(g.N[1] <= 2 ** 31 - 1)
        c.cover(ex, st, "tuple inside the grid")
        fl = g.flat(raw)
        outs = [ex.alloc(st, I("old_" + L[k]), "out" + L[k]) for k in range(g.dim)]
        for k in range(g.dim):
            st.assume(I("old_" + L[k]) >= 0)
        g.m(st, SPLIT[g.dim], [Arg(val=fl)] + [Arg(lv=l) for l in outs])
        for k in range(g.dim):
            ex.oblige(st, ex.load(st, outs[k]) == ix[k], "flat index of a tuple is split back into component " + L[k], where=g.cls + "::" + SPLIT[g.dim])
    return run


def u_write(cls):
    def run(c):
        ex = c.exec()
        X = R("newvalue")
        for how in ("tuple", "flat", "SetValue"):
            st = State()
            g = G(c, ex, st, cls)
            ix, raw = g.tup(st)
            jx, raw2 = g.tup(st, "b")
            c.cover(ex, st, "two tuples inside the grid")
            w = g.cls
            # distinct tuples have distinct flat indices: both split uniquely
            if how == "SetValue":
                if not ex.prog.byq.get(g.cls + "::SetValue"):
                    continue
                g.m(st, "SetValue", ix + [X])
            elif how == "tuple":
                l = g.m(st, "operator()", ix, False)
                ex.store(st, l, X)
            else:
                l = g.m(st, "operator()", [g.flat(raw)], False)
                ex.store(st, l, X)
            ex.oblige(st, g.v(st, "operator()", ix, True) == X, "write by %s is read back" % how, where=w)
            s2 = st.clone()
            s2.assume(g.flat(raw) != g.flat(raw2))
            ex.oblige(s2, g.v(s2, "operator()", jx, True) == g.X(g.flat(raw2)), "write by %s leaves other cells alone" % how, where=w)
            for k in range(g.dim):
                ex.oblige(st, g.v(st, "GetN" + L[k].upper()) == g.N[k], "size along " + L[k] + " kept", where=w)
    return run


def u_inj(dim):
    def run(c):
        ex = c.exec()
        st = State()
        f, m, i, f2, i2 = (I(x) for x in ("f", "m", "i", "f2", "i2"))
        for h in (f >= 0, f < m, f2 >= 0, f2 < m, i >= 0, i2 >= 0, f + m * i == f2 + m * i2):
            st.assume(h)
        c.cover(ex, st, "equal flat indices")
        ex.oblige(st, z3.And(i == i2, f == f2), "equal flat indices come from equal components", where="lemma")
    return run


def u_build(cls):
    def run(c):
        ex = c.exec()
        st = State()
        g = G(c, ex, st, cls, fill=False)
        ix, raw = g.tup(st)
        c.cover(ex, st, "constructed")
        ex.oblige(st, g.v(st, "operator()", ix, True) == g.val, "constructor fills every cell", where=g.cls)
        ex.oblige(st, g.v(st, "GetN") == g.total(), "constructor size", where=g.cls)
        st = State()
        a = G(c, ex, st, cls, fill=False)
        a.lv = ex.alloc(st, ex.construct(a.cls, [], st, None), "empty")
        for nm in ["GetN"] + ["GetN" + L[k].upper() for k in range(a.dim)]:
            ex.oblige(st, a.v(st, nm) == 0, "a grid by default has no cells (%s)" % nm, where=a.cls)
        ops = ["Resize"] + (["Assign"] if ex.prog.byq.get(g.cls + "::Assign") else [])
        for op in ops:
            st = State()
            a = G(c, ex, st, cls)
            b = G(c, ex, st, cls, tag="2", fill=False)     # only its parameters are used
            ix, raw = b.tup(st)
            a.m(st, op, list(b.args) + [b.val])
            a.N, a.lo = b.N, b.lo
            ex.oblige(st, a.v(st, "operator()", ix, True) == b.val, op + " fills every cell with the given value", where=a.cls + "::" + op)
            ex.oblige(st, a.v(st, "GetN") == b.total(), op + " sets the number of cells", where=a.cls + "::" + op)
            for k in range(a.dim):
                ex.oblige(st, a.v(st, "GetN" + L[k].upper()) == b.N[k], op + " sets size along " + L[k], where=a.cls + "::" + op)
            ex.oblige(st, a.v(st, "GetIndex", ix) == b.flat(raw), op + " sets the index order", where=a.cls + "::" + op)
            if a.gen:
                for nm, t in (("GetIMin", b.args[0]), ("GetIMax", b.args[1]), ("GetJMin", b.args[2]), ("GetJMax", b.args[3])):
                    ex.oblige(st, a.v(st, nm) == t, op + " sets " + nm, where=a.cls)
        if cls == "Grid":
            for grow in (True, False):
                st = State()
                a = G(c, ex, st, cls)
                nk = I("nk_new")
                st.assume(nk >= 1)
                st.assume(nk >= a.N[2] if grow else nk < a.N[2])
                old = a.N[2]
                a.m(st, "ResizeK", [nk])
                a.N = [a.N[0], a.N[1], nk]
                ix, raw = a.tup(st)
                s2 = st.clone()
                s2.assume(raw[2] < old)
                lemma(s2, raw, [a.N[0], a.N[1], old])
                ex.oblige(s2, a.v(s2, "operator()", ix, True) == a.X(a.flat(raw)), "ResizeK keeps values", where=a.cls + "::ResizeK")
                ex.oblige(st, a.v(st, "GetN") == a.total(), "ResizeK sets the number of cells", where=a.cls + "::ResizeK")
                ex.oblige(st, a.v(st, "GetNK") == nk, "ResizeK sets the size", where=a.cls + "::ResizeK")
    return run


def u_swap(cls):
    def run(c):
        ex = c.exec()
        st = State()
        a = G(c, ex, st, cls)
        b = G(c, ex, st, cls, tag="2")
        ia, ra = a.tup(st)
        ib, rb = b.tup(st, "2")
        c.cover(ex, st, "two grids")
        a.m(st, "Swap", [Arg(lv=b.lv)])
        for g, o, ix, raw in ((a, b, ib, rb), (b, a, ia, ra)):
            ex.oblige(st, g.v(st, "operator()", ix, True) == o.X(o.flat(raw)), "swapped contents", where=g.cls + "::Swap")
            ex.oblige(st, g.v(st, "GetN") == o.total(), "swapped number of cells", where=g.cls + "::Swap")
            for k in range(g.dim):
                ex.oblige(st, g.v(st, "GetN" + L[k].upper()) == o.N[k], "swapped size along " + L[k], where=g.cls + "::Swap")
            if g.gen:
                for nm, t in (("GetIMin", o.args[0]), ("GetIMax", o.args[1]), ("GetJMin", o.args[2]), ("GetJMax", o.args[3])):
                    ex.oblige(st, g.v(st, nm) == t, "swapped " + nm, where=g.cls + "::Swap")
    return run


def u_valid(cls):
    def run(c):
        ex = c.exec()
        st = State()
        g = G(c, ex, st, cls)
        i, j = I("i"), I("j")
        if g.gen:
            st.assume(i >= 0)
            st.assume(j >= 0)
        c.cover(ex, st, "any index pair")
        inside = z3.And(i >= g.lo[0], i < g.lo[0] + g.N[0], j >= g.lo[1], j < g.lo[1] + g.N[1])
        ex.oblige(st, g.v(st, "IsValidIndex", [i, j]) == inside, "IsValidIndex exactly inside", where=g.cls + "::IsValidIndex")
    return run


INSET = z3.Function("is_a_present_value", T.Real, T.Bool)


def u_extreme(cls, low):
    def run(c):
        ex = c.exec()
        st = State()
        g = G(c, ex, st, cls)
        miss = R("missing")
        big = rv(T.Fraction(2) ** 1024 - T.Fraction(2) ** 971)
        for x in (miss, g.X(I("any"))):
            st.assume(x <= big)
            st.assume(x >= -big)
        lemma(st, [iv(0)] * g.dim, g.N)
        n = g.total()
        c.cover(ex, st, "grid with missing value")
        w = g.cls + ("::FindMin" if low else "::FindMax")
        r = g.v(st, "FindMin" if low else "FindMax", [miss])
        le = (lambda a, b: a <= b) if low else (lambda a, b: a >= b)
        fin = lambda v: z3.And(v <= big, v >= -big)
        # K: nothing but a present value replaces the start value; the start value is no better than any finite number, or a cell
        m = getattr(ex, "reds", {}).get(r.get_id())
        if m is None:
            raise ToolLimit("no loop result")
        v0 = m["init"]
        K = lambda h: z3.Or(h == v0, z3.And(INSET(h), h != miss))
        b = m["b"]
        for x in (b, norm(n - 1 - b)):      # instances of: every value of a present cell is in the set, and is finite
            st.assume(z3.Implies(g.X(x) != miss, INSET(g.X(x))))
            st.assume(fin(g.X(x)))
        J = lambda h, x: z3.Implies(z3.And(x != miss, fin(x)), z3.And(le(h, x), h != miss))
        inst = inductive(ex, st, r, n, g.X, J, K, w, "extreme value")
        t = I("t")
        s = st.clone()
        for hh in (t >= 0, t < n, fin(g.X(t)), inst(t), g.X(t) != miss, INSET(g.X(t))):
            s.assume(hh)
        ex.oblige(s, le(r, g.X(t)), "no present value is beyond the extreme", where=w)
        s.assume(z3.Implies(g.X(0) != miss, INSET(g.X(0))))
        ex.oblige(s, z3.And(INSET(r), r != miss), "the extreme is a present value", where=w)
    return run


def u_avg(missing):
    def run(c):
        ex = c.exec()
        st = State()
        g = G(c, ex, st, "Grid")
        w = g.cls + "::GetAvgMinMax" + ("WithMissing" if missing else "")
        inf = z3.Real("INFINITY")
        fin = lambda v: z3.And(v < inf, v > -inf)
        st.assume(inf > 0)
        lemma(st, [iv(0)] * 3, g.N)
        n = g.total()
        miss = R("missing")
        c.cover(ex, st, "any grid")
        outs = [ex.alloc(st, R("old" + k), k) for k in ("avg", "min", "max")]
        g.m(st, "GetAvgMinMax" + ("WithMissing" if missing else ""), [Arg(lv=l) for l in outs] + ([miss] if missing else []))
        avg, lo, hi = (ex.load(st, l) for l in outs)
        pres = (lambda x: x != miss) if missing else (lambda x: z3.BoolVal(True))
        for nm, r, le in (("minimum", lo, lambda a, b: a <= b), ("maximum", hi, lambda a, b: a >= b)):
            m = getattr(ex, "reds", {}).get(r.get_id())
            if m is None:
                raise ToolLimit("no loop result")
            s = st.clone()
            v0 = m["init"]
            for x in (m["b"], norm(n - 1 - m["b"])):
                s.assume(INSET(g.X(x)))
                s.assume(fin(g.X(x)))
            K = lambda h: z3.Or(h == v0, INSET(h))
            J = lambda h, x: z3.Implies(z3.And(pres(x), fin(x)), le(h, x))
            inst = inductive(ex, s, r, n, g.X, J, K, w, nm)
            t = I("t")
            for hh in (t >= 0, t < n, fin(g.X(t)), inst(t), pres(g.X(t))):
                s.assume(hh)
            ex.oblige(s, le(r, g.X(t)), "%s bounds every present value" % nm, where=w)
            ex.oblige(s, INSET(r), "%s is a value of the grid" % nm, where=w)
        # average: the sum over the cells by their number
        sums = list(getattr(ex, "sums", {}).values())
        ok = False
        for r, d, b, dom, v0 in sums:
            if r.sort() != T.Real:
                continue
            cnts = [rv_ for rv_ in [z3.ToReal(n)]] if not missing else [z3.ToReal(x[0]) for x in sums if x[0].sort() == T.Int]
            for cn in cnts:
                s = st.clone()
                s.assume(cn > 0)
                if ex.decide(s, avg * cn == r, 3000) or z3.is_true(T.beq(norm(avg * cn), r)):
                    ex.oblige(s, avg == r / cn, "average is sum divided by number", where=w)
                    summed(ex, st, r, n, lambda i: z3.If(pres(g.X(i)), g.X(i), rv(0)), w, "sum")
                    if missing:
                        cr = [x[0] for x in sums if x[0].sort() == T.Int and z3.ToReal(x[0]).eq(cn)][0]
                        summed(ex, st, cr, n, lambda i: z3.If(pres(g.X(i)), iv(1), iv(0)), w, "count")
                    ok = True
        if not ok:
            raise ToolLimit("average not recognised")
    return run


def u_log(c):
    ex = c.exec()
    st = State()
    g = G(c, ex, st, "Grid")
    miss = R("missing")
    ix, raw = g.tup(st)
    c.cover(ex, st, "any grid")
    g.m(st, "LogTransform", [miss])
    x = g.X(g.flat(raw))
    want = z3.If(z3.Or(x == miss, x <= 0), rv(0), mathfn("log", x))
    ex.oblige(st, g.v(st, "operator()", ix, True) == want, "cell by cell logarithm, zero where missing or not positive", where=g.cls + "::LogTransform")


def rep(kind, cls):
    def f(env, o):
        g = lambda n, d: int(float(env.get(n, d)))
        n = [max(1, min(12, g("n" + a, 3))) for a in L]
        yield "%s %s %s 1" % (kind, cls, " ".join(map(str, n)))
        for s in range(3):
            yield "all %s %s %d" % (cls, " ".join(map(str, [2 + (s + k) % 3 for k in range(5)])), s)
    return f


def units():
    us = []
    for cls in list(CLS) + ["Grid2DGeneral"]:
        for nm, u in (("indexing", u_index), ("split", u_split), ("write", u_write), ("build", u_build), ("swap", u_swap)):
            us.append((GRIDS, Unit("%s %s" % (cls, nm), u(cls), replay=rep("all", cls), tmo=200)))
    for cls in ("Grid2D", "Grid2DGeneral"):
        us.append((GRIDS, Unit(cls + " valid", u_valid(cls), replay=rep("all", cls))))
    for cls in ("Grid2D", "Grid2DGeneral"):
        for low in (True, False):
            us.append((GRIDS, Unit("%s %s" % (cls, "minimum" if low else "maximum"), u_extreme(cls, low), replay=rep("all", cls))))
    for m in (False, True):
        us.append((GRIDS, Unit("Grid average, minimum, maximum" + (" with missing" if m else ""), u_avg(m), replay=rep("all", "Grid"))))
    us.append((GRIDS, Unit("Grid LogTransform", u_log, replay=rep("all", "Grid"))))
    us.append((GRIDS, Unit("lemma: index arithmetic", u_lemma(3))))
    us.append((GRIDS, Unit("lemma: uniqueness", u_inj(3))))
    return us


def gen(rng, budget, tier):
    n = {"std": 1200, "deep": 8000}[budget]
    for k in range(n):
        cls = rng.choice(list(CLS) + ["Grid2DGeneral"])
        top = 9 if CLS.get(cls, 2) <= 3 else 5
        yield "all %s %s %d" % (cls, " ".join(str(rng.randint(1, top)) for _ in range(5)), rng.randint(0, 10 ** 6))


def harness(scratch):
    return Harness(scratch, "grids.cpp", [], gen, "random sizes 1..9 per axis; every operation, every cell, against a flat reference vector")


ASSUMPTIONS = ["the number of cells fits in size_t (index products do not wrap)", "element type double"]
