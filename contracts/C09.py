"""C09: the padded FFT grids and the 1D transform: layout, scaling, round trip, crop, convolution."""
from .lib import *

AX = "ijk"
NSZ = z3.Function("fftsize", T.Int, T.Bool, T.Int)


def c_size(ex, st, f, this, args):
    """contract of FindNewSizeWithPadding (proved in C05)"""
    a = norm(ex.argval(args[0], st))
    ev = z3.BoolVal(False)
    if len(args) > 1 and not (args[1].val is None and args[1].lv is None):
        ev = ex.argval(args[1], st)
    r = NSZ(a, ev)
    st.assume(r >= a)
    st.assume(r >= 1)
    st.assume(z3.Implies(ev, z3.And(r % 2 == 0, r >= 2)))
    return r


SZ = {"NRLib::FindNewSizeWithPadding": c_size}


class Grid:
    """an FFT grid built by the real constructor; its data replaced by arbitrary contents"""

    def __init__(self, c, ex, st, dim, scale, tag="", N=None, P=None, fresh=True):
        self.ex, self.dim = ex, dim
        self.cls = "NRLib::FFTGrid%dD<double>" % dim
        self.N = N or [I("n" + a) for a in AX[:dim]]
        self.P = P or [I("p" + a) for a in AX[:dim]]
        if N is None:
            for k in range(dim):
                st.assume(self.N[k] >= 1)
                st.assume(self.P[k] >= 0)
        o = ex.construct(self.cls, [Arg(val=x) for x in self.N + self.P + [scale]], st, None)
        self.lv = ex.alloc(st, o, "grid" + tag)
        self.tot = [self.get(st, m) for m in ("GetNItot", "GetNJtot", "GetNKtot")[:dim]]
        self.cn = [self.get(st, m) for m in ("GetComplexNI", "GetComplexNJ", "GetComplexNK")[:dim]]
        self.pr = self.m(st, "RealData")
        self.pc = self.m(st, "ComplexData")
        if fresh:
            X = z3.Function("X" + tag, T.Int, T.Real)
            Zr, Zi = (z3.Function("Z%s_%s" % (tag, k), T.Int, T.Real) for k in ("re", "im"))
            self.X, self.Zr, self.Zi = X, Zr, Zi
            for p, b in ((self.pr, lambda i: X(i)), (self.pc, lambda i: Rec("complex", {"re": Zr(i), "im": Zi(i)}))):
                l = LV(p.root, p.path)
                old = ex.load(st, l)
                old = as_arr(old) if isinstance(old, ListV) else old
                ex.store(st, l, ArrV(old.elem, Base("fn", b), (), old.size))

    def get(self, st, m):
        fs = [f for f in self.ex.prog.byq.get(self.cls + "::" + m, []) if not f.params]
        if not fs:
            raise ToolLimit("no " + m)
        return self.ex.call_func(fs[0], self.lv, [], st, None)

    def m(self, st, m, args=(), const=None):
        fs = [f for f in self.ex.prog.byq.get(self.cls + "::" + m, []) if len(f.params) == len(args) and (const is None or f.const == const)]
        if not fs:
            raise ToolLimit("no %s::%s/%d" % (self.cls, m, len(args)))
        return self.ex.call_func(fs[0], self.lv, list(args), st, None)

    def real(self, st, idx):
        return self.ex.elem(st, self.ex.load(st, LV(self.pr.root, self.pr.path)), norm(self.pr.off + idx))

    def cplx(self, st, idx):
        return self.ex.elem(st, self.ex.load(st, LV(self.pc.root, self.pc.path)), norm(self.pc.off + idx))

    def flat(self, ix, dims=None):
        d = dims or self.tot
        r, m = ix[0], d[0]
        for k in range(1, len(ix)):
            r = r + m * ix[k]
            m = m * d[k]
        return norm(r)

    def size(self, d=None):
        r = iv(1)
        for x in d or self.tot:
            r = r * x
        return norm(r)


def inside(st, ix, dims):
    for i, d in zip(ix, dims):
        st.assume(i >= 0)
        st.assume(i < d)


def prod_lt(st, ix, dims):
    """index arithmetic lemma: a tuple of in-range indices has a flat index below the product (nonlinear, instantiated here)"""
    # i0 + d0*(i1 + d1*i2) <= d0*d1*d2 - 1, proved by the lemma unit below
    f, m = ix[0], dims[0]
    for k in range(1, len(ix)):
        st.assume(ix[k] * m <= (dims[k] - 1) * m)
        f = f + m * ix[k]
        m = m * dims[k]


def u_lemma(dim):
    def run(c):
        ex = c.exec()
        st = State()
        ix = [I("i%d" % k) for k in range(dim)]
        d = [I("d%d" % k) for k in range(dim)]
        inside(st, ix, d)
        c.cover(ex, st, "indices in range")
        m = d[0]
        for k in range(1, dim):
            s2 = st.clone()
            s2.assume(m >= 1)
            ex.oblige(s2, ix[k] * m <= (d[k] - 1) * m, "stride %d" % k, where="lemma")
            m = m * d[k]
    return run


def u_ctor(dim):
    def run(c):
        ex = c.exec(SZ)
        st = State()
        g = Grid(c, ex, st, dim, z3.Bool("scale"), fresh=False)
        c.cover(ex, st, "any sizes")
        w = g.cls
        for k in range(dim):
            ex.oblige(st, g.tot[k] >= g.N[k] + g.P[k], "total size covers grid and padding along %s" % AX[k], where=w)
            ex.oblige(st, g.tot[k] == NSZ(norm(g.N[k] + g.P[k]), z3.BoolVal(k == 0)), "total size is the next FFT-friendly size along %s" % AX[k], where=w)
            ex.oblige(st, g.get(st, "GetRealN" + "IJK"[k]) == g.N[k], "unpadded size along %s" % AX[k], where=w)
            want = g.tot[k] / iv(2) + 1 if k == 0 else g.tot[k]
            ex.oblige(st, g.cn[k] == want, "half-spectrum size along %s" % AX[k], where=w)
        i = I("t")
        s2 = st.clone()
        s2.assume(i >= 0)
        s2.assume(i < g.size())
        ex.oblige(s2, g.real(s2, i) == 0, "real data start at zero", where=w)
        s3 = st.clone()
        s3.assume(i >= 0)
        s3.assume(i < g.size(g.cn))
        z = g.cplx(s3, i)
        ex.oblige(s3, z.f["re"] == 0, "complex data start at zero (re)", where=w)
        ex.oblige(s3, z.f["im"] == 0, "complex data start at zero (im)", where=w)
    return run


def values(ex, st, dim, dims, tag="val"):
    """a Grid2D/Grid with arbitrary contents of the given dimensions, through the real constructor"""
    cls = "NRLib::Grid2D<double>" if dim == 2 else "NRLib::Grid<double>"
    o = ex.construct(cls, [Arg(val=x) for x in dims] + [Arg(val=rv(0))] * (1 if ctor_needs_default(ex, cls, dim) else 0), st, None)
    l = ex.alloc(st, o, tag)
    Y = z3.Function("Y" + tag, T.Int, T.Real)
    # replace the storage by arbitrary contents
    for p, leaf in leaves(ex.load(st, l)):
        if isinstance(leaf, ArrV):
            base = ex.load(st, l)
            ex.store(st, l, set_leaf(base, p, ArrV(leaf.elem, Base("fn", lambda i: Y(i)), (), leaf.size)))
    return l


def ctor_needs_default(ex, cls, dim):
    return False


def u_init(dim):
    def run(c):
        ex = c.exec(SZ)
        st = State()
        g = Grid(c, ex, st, dim, z3.Bool("scale"))
        v = values(ex, st, dim, g.tot)
        c.cover(ex, st, "any sizes")
        g.m(st, "Initialize", [Arg(lv=v)])
        ix = [I("a" + a) for a in AX[:dim]]
        inside(st, ix, g.tot)
        prod_lt(st, ix, g.tot)
        ex.oblige(st, g.real(st, g.flat(ix)) == at(ex, st, v, ix), "every node of the padded grid is loaded, first index fastest", where=g.cls + "::Initialize")
        s2 = st.clone()
        inside(s2, ix, g.N)
        r = g.m(s2, "Real", [Arg(val=x) for x in ix], const=True)
        ex.oblige(s2, (ex.load(s2, r) if isinstance(r, LV) else r) == at(ex, s2, v, ix), "Real(i,j..) returns the loaded value", where=g.cls + "::Real")
    return run


def u_initpad(c):
    dim = 3
    ex = c.exec(SZ)
    st = State()
    g = Grid(c, ex, st, dim, z3.Bool("scale"))
    v = values(ex, st, dim, g.N)
    c.cover(ex, st, "any sizes")
    g.m(st, "InitializePadZero", [Arg(lv=v)])
    ix = [I("a" + a) for a in AX[:dim]]
    inside(st, ix, g.tot)
    prod_lt(st, ix, g.tot)
    s1 = st.clone()
    inside(s1, ix, g.N)
    w = g.cls + "::InitializePadZero"
    ex.oblige(s1, g.real(s1, g.flat(ix)) == at(ex, s1, v, ix), "inner node loaded", where=w)
    for k in range(3):
        s2 = st.clone()
        s2.assume(ix[k] >= g.N[k])
        ex.oblige(s2, g.real(s2, g.flat(ix)) == 0, "padding is zero beyond axis %s" % AX[k], where=w)


def u_initconst(c):
    ex = c.exec(SZ)
    st = State()
    g = Grid(c, ex, st, 3, z3.Bool("scale"))
    x = ex.alloc(st, R("value"), "x")
    g.m(st, "InitializeConstant", [Arg(lv=x)])
    i = I("t")
    st.assume(i >= 0)
    st.assume(i < g.size())
    c.cover(ex, st, "any sizes")
    ex.oblige(st, g.real(st, i) == R("value"), "every node has the constant", where=g.cls + "::InitializeConstant")


def fscale(n, on):
    return z3.If(on, 1 / sqrt(z3.ToReal(n)), rv(1))


def iscale(n, on):
    return z3.If(on, 1 / sqrt(z3.ToReal(n)), 1 / z3.ToReal(n))


def events(st, k):
    ev = st.ghost.get("fft", ())
    if len(ev) != k:
        raise ToolLimit("%d transforms instead of %d" % (len(ev), k))
    return ev


def dims_ok(ex, st, e, tot, w, what):
    ok = len(e.dims) == len(tot)
    ex.oblige(st, z3.BoolVal(ok), what + " has one size per dimension", where=w)
    if ok:
        for k in range(len(tot)):
            ex.oblige(st, e.dims[len(tot) - 1 - k] == tot[k], "%s size along %s" % (what, AX[k]), where=w)


def u_fft(dim, on):
    def run(c):
        ex = c.exec(SZ)
        st = State()
        g = Grid(c, ex, st, dim, z3.BoolVal(on))
        c.cover(ex, st, "any sizes")
        g.m(st, "DoFFT")
        w = g.cls + "::DoFFT"
        e, = events(st, 1)
        ex.oblige(st, z3.BoolVal(e.kind == "r2c"), "a forward real transform", where=w)
        dims_ok(ex, st, e, g.tot, w, "forward transform")
        n = g.size()
        i = I("t")
        s2 = st.clone()
        s2.assume(i >= 0)
        s2.assume(i < n)
        s2.assume(n >= 1)
        x = ex.elem(s2, e.inp, norm(e.ioff + i))
        ex.oblige(s2, x == g.X(i) * (1 / sqrt(z3.ToReal(n)) if on else rv(1)), "input of the forward transform is the real grid" + (" scaled by 1/sqrt(n)" if on else ""), where=w)
        s3 = st.clone()
        s3.assume(i >= 0)
        s3.assume(i < g.size(g.cn))
        z = g.cplx(s3, i)
        ex.oblige(s3, z.f["re"] == e.fre(i), "spectrum stored (re)", where=w)
        ex.oblige(s3, z.f["im"] == e.fim(i), "spectrum stored (im)", where=w)
    return run


def u_ifft(dim, on):
    def run(c):
        ex = c.exec(SZ)
        st = State()
        g = Grid(c, ex, st, dim, z3.BoolVal(on))
        c.cover(ex, st, "any sizes")
        g.m(st, "DoInverseFFT")
        w = g.cls + "::DoInverseFFT"
        e, = events(st, 1)
        ex.oblige(st, z3.BoolVal(e.kind == "c2r"), "an inverse real transform", where=w)
        dims_ok(ex, st, e, g.tot, w, "inverse transform")
        n = g.size()
        i = I("t")
        s2 = st.clone()
        s2.assume(i >= 0)
        s2.assume(i < g.size(g.cn))
        z = ex.elem(s2, e.inp, norm(e.ioff + i))
        ex.oblige(s2, z.f["re"] == g.Zr(i), "input of the inverse transform is the spectrum (re)", where=w)
        ex.oblige(s2, z.f["im"] == g.Zi(i), "input of the inverse transform is the spectrum (im)", where=w)
        s3 = st.clone()
        s3.assume(i >= 0)
        s3.assume(i < n)
        s3.assume(n >= 1)
        ex.oblige(s3, g.real(s3, i) == e.f(i) * (1 / sqrt(z3.ToReal(n)) if on else 1 / z3.ToReal(n)), "result scaled by %s" % ("1/sqrt(n)" if on else "1/n"), where=w)
        # round trip: the unnormalised pair multiplies by n, the two scalings together by 1/n
        N = R("N")
        s4 = st.clone()
        s4.assume(N >= 1)
        ex.oblige(s4, (1 / sqrt(N) * (1 / sqrt(N)) if on else 1 * (1 / N)) * N == 1, "forward and inverse scaling together undo the factor n", where="lemma")
    return run


def u_crop(dim):
    def run(c):
        ex = c.exec(SZ)
        st = State()
        g = Grid(c, ex, st, dim, z3.Bool("scale"))
        c.cover(ex, st, "any sizes")
        r = g.m(st, "GetRealGrid")
        rl = r if isinstance(r, LV) else ex.alloc(st, r, "out")
        w = g.cls + "::GetRealGrid"
        v = ex.load(st, rl)
        for k, m in enumerate(("GetNI", "GetNJ", "GetNK")[:dim]):
            f = [f for f in ex.prog.byq[v.cls + "::" + m] if not f.params][0]
            ex.oblige(st, ex.call_func(f, rl, [], st, None) == g.N[k], "result has the unpadded size along %s" % AX[k], where=w)
        ix = [I("a" + a) for a in AX[:dim]]
        inside(st, ix, g.N)
        prod_lt(st, ix, g.N)
        prod_lt(st, ix, g.tot)
        ex.oblige(st, at(ex, st, rl, ix) == g.X(g.flat(ix)), "result is the corner block of the padded grid", where=w)
    return run


def u_index(dim):
    def run(c):
        """Complex(i,j..) and RealCyclic address the element of the flat layout"""
        ex = c.exec(SZ)
        st = State()
        g = Grid(c, ex, st, dim, z3.Bool("scale"))
        c.cover(ex, st, "any sizes")
        ix = [I("a" + a) for a in AX[:dim]]
        s1 = st.clone()
        inside(s1, ix, g.cn)
        prod_lt(s1, ix, g.cn)
        r = g.m(s1, "Complex", [Arg(val=x) for x in ix], const=True)
        z = ex.load(s1, r) if isinstance(r, LV) else r
        ex.oblige(s1, z.f["re"] == g.Zr(g.flat(ix, g.cn)), "Complex(i,j..) (re)", where=g.cls + "::Complex")
        ex.oblige(s1, z.f["im"] == g.Zi(g.flat(ix, g.cn)), "Complex(i,j..) (im)", where=g.cls + "::Complex")
        if dim == 3:
            for m in range(8):
                s2 = st.clone()
                pos = []
                for k in range(3):
                    s2.assume(g.tot[k] <= 2 ** 31 - 1)
                    if m >> k & 1:
                        s2.assume(ix[k] < 0)
                        s2.assume(ix[k] > -g.tot[k])
                        pos.append(ix[k] + g.tot[k])
                    else:
                        inside(s2, [ix[k]], [g.tot[k]])
                        pos.append(ix[k])
                prod_lt(s2, pos, g.tot)
                s2.assume(z3.And(g.flat(pos) >= 0, g.flat(pos) < g.size()))
                r = g.m(s2, "RealCyclic", [Arg(val=x) for x in ix], const=True)
                ex.oblige(s2, (ex.load(s2, r) if isinstance(r, LV) else r) == g.X(g.flat(pos)), "RealCyclic counts negative indices from the end [%d]" % m, where=g.cls + "::RealCyclic")
    return run


def u_conv(dim, kind):
    def run(c):
        ex = c.exec(SZ)
        st = State()
        g = Grid(c, ex, st, dim, z3.BoolVal(True), "a")
        h = Grid(c, ex, st, dim, z3.BoolVal(False), "b", N=g.N, P=g.P)
        c.cover(ex, st, "any sizes")
        i = I("t")
        w = g.cls + "::" + kind
        if kind == "ConvolveNoFFT":
            g.m(st, kind, [Arg(lv=h.lv)])
            if st.ghost.get("fft", ()):
                raise ToolLimit("transform in ConvolveNoFFT")
            st.assume(i >= 0)
            st.assume(i < g.size(g.cn))
            z = g.cplx(st, i)
            a, b, p, q_ = g.Zr(i), g.Zi(i), h.Zr(i), h.Zi(i)
        else:
            g.m(st, kind, [Arg(lv=h.lv)])
            e1, e2, e3 = events(st, 3)
            ex.oblige(st, z3.BoolVal([e1.kind, e2.kind, e3.kind] == ["r2c", "r2c", "c2r"]), "two forward transforms, one inverse", where=w)
            for e in (e1, e2, e3):
                dims_ok(ex, st, e, g.tot, w, "transform")
            s2 = st.clone()
            s2.assume(i >= 0)
            s2.assume(i < g.size())
            s2.assume(g.size() >= 1)
            rs = 1 / sqrt(z3.ToReal(g.size()))
            xa = {id(e): ex.elem(s2, e.inp, norm(e.ioff + i)) for e in (e1, e2)}
            # which transform is which grid's is decided by the data that enters it
            ex.oblige(s2, z3.Or(z3.And(xa[id(e1)] == g.X(i) * rs, xa[id(e2)] == h.X(i)), z3.And(xa[id(e1)] == h.X(i), xa[id(e2)] == g.X(i) * rs)), "both grids are transformed", where=w)
            ex.oblige(s2, g.real(s2, i) == e3.f(i) * rs, "result of the inverse transform, scaled", where=w)
            st.assume(i >= 0)
            st.assume(i < g.size(g.cn))
            z = ex.elem(st, e3.inp, norm(e3.ioff + i))
            a, b, p, q_ = e1.fre(i), e1.fim(i), e2.fre(i), e2.fim(i)
            if kind == "ConvolveCovariance":
                st.assume(q_ == 0)
                st.assume(p >= 0)
                p, q_ = sqrt(p), rv(0)
        ex.oblige(st, z.f["re"] == a * p - b * q_, "spectra multiplied (re)", where=w)
        ex.oblige(st, z.f["im"] == a * q_ + b * p, "spectra multiplied (im)", where=w)
    return run


def vec(ex, st, name, n, cplx=False):
    if cplx:
        a, b = z3.Function(name + "_re", T.Int, T.Real), z3.Function(name + "_im", T.Int, T.Real)
        return ex.alloc(st, ArrV("std::complex<double>", Base("fn", lambda i: Rec("complex", {"re": a(i), "im": b(i)})), (), n), name), (a, b)
    f = z3.Function(name, T.Int, T.Real)
    return ex.alloc(st, ArrV("double", Base("fn", lambda i: f(i)), (), n), name), f


def pick(c, name, n, pred):
    fs = [f for f in c.P.find(name, n) if pred(f)]
    if len(fs) != 1:
        raise ToolLimit("%d candidates for %s/%d" % (len(fs), name, n))
    return fs[0]


def ftype(f):
    return " ".join(str(p) for p in f.params)


def u_fft1(on, pad):
    """pad: 'none' (argument 0), 'some' (positive), 'default' (negative: the data length)"""
    def run(c):
        ex = c.exec(SZ)
        st = State()
        n = I("n")
        st.assume(n >= 1)
        x, X = vec(ex, st, "x", n)
        out = ex.alloc(st, ListV("std::complex<double>", []), "out")
        mp = I("minpad")
        if pad == "none":
            mp = iv(0)
        elif pad == "some":
            st.assume(mp >= 1)
        else:
            st.assume(mp < 0)
        c.cover(ex, st, "non-empty input")
        fs = [f for f in c.P.find("NRLib::ComputeFFT1D", 4)]
        if len(fs) != 1:
            raise ToolLimit("%d instances of ComputeFFT1D(container)" % len(fs))
        ex.call_func(fs[0], None, [Arg(lv=x), Arg(lv=out), Arg(val=z3.BoolVal(on)), Arg(val=mp)], st, None)
        w = "NRLib::ComputeFFT1D"
        e, = events(st, 1)
        v = ex.load(st, out)
        tot = n if pad == "none" else NSZ(norm(n + (mp if pad == "some" else n)), z3.BoolVal(False))
        ex.oblige(st, z3.BoolVal(e.kind == "r2c" and len(e.dims) == 1), "a forward real transform", where=w)
        ex.oblige(st, e.dims[0] == tot, "transform length", where=w)
        ex.oblige(st, M.vsize(v) == tot, "output length", where=w)
        i = I("t")
        s2 = st.clone()
        s2.assume(i >= 0)
        s2.assume(i < n)
        s2.assume(tot >= 1)
        sc = 1 / sqrt(z3.ToReal(tot)) if on else rv(1)
        ex.oblige(s2, ex.elem(s2, e.inp, norm(e.ioff + i)) == X(i) * sc, "data enter the transform" + (" scaled by 1/sqrt(n)" if on else ""), where=w)
        if pad != "none":
            s3 = st.clone()
            s3.assume(i >= n)
            s3.assume(i < tot)
            p = tot - n
            s3.assume(p >= 2)
            t = z3.ToReal(i - n) / z3.ToReal(p - 1)
            ex.oblige(s3, ex.elem(s3, e.inp, norm(e.ioff + i)) == sc * (X(iv(0)) * t + (1 - t) * X(norm(n - 1))), "padding interpolates from the last to the first value", where=w)
            s5 = st.clone()
            s5.assume(tot - n == 1)
            ex.oblige(s5, ex.elem(s5, e.inp, norm(e.ioff + n)) == sc * X(iv(0)), "a single padding node takes the first value", where=w)
        s4 = st.clone()
        s4.assume(i >= 0)
        s4.assume(2 * i <= tot)
        s4.assume(i < tot)
        z = ex.elem(s4, v, i)
        ex.oblige(s4, z.f["re"] == e.fre(i), "spectrum returned (re)", where=w)
        ex.oblige(s4, z.f["im"] == e.fim(i), "spectrum returned (im)", where=w)
    return run


def u_ifft1(on):
    def run(c):
        ex = c.exec(SZ)
        st = State()
        n, m = I("n"), I("m")
        st.assume(n >= 1)
        st.assume(m >= 0)
        st.assume(m <= n)
        z, (Zr, Zi) = vec(ex, st, "Z", n, True)
        out, _ = vec(ex, st, "out", m)
        c.cover(ex, st, "non-empty spectrum")
        fs = [f for f in c.P.find("NRLib::ComputeFFTInv1D", 3)]
        if len(fs) != 1:
            raise ToolLimit("%d instances of ComputeFFTInv1D(container)" % len(fs))
        ex.call_func(fs[0], None, [Arg(lv=z), Arg(lv=out), Arg(val=z3.BoolVal(on))], st, None)
        w = "NRLib::ComputeFFTInv1D"
        e, = events(st, 1)
        ex.oblige(st, z3.BoolVal(e.kind == "c2r" and len(e.dims) == 1), "an inverse real transform", where=w)
        ex.oblige(st, e.dims[0] == n, "transform length", where=w)
        i = I("t")
        s2 = st.clone()
        s2.assume(i >= 0)
        s2.assume(2 * i <= n)
        s2.assume(i < n)
        y = ex.elem(s2, e.inp, norm(e.ioff + i))
        ex.oblige(s2, y.f["re"] == Zr(i), "spectrum enters the transform (re)", where=w)
        ex.oblige(s2, y.f["im"] == Zi(i), "spectrum enters the transform (im)", where=w)
        s3 = st.clone()
        s3.assume(i >= 0)
        s3.assume(i < m)
        v = ex.load(s3, out)
        ex.oblige(s3, M.vsize(v) == m, "output length unchanged", where=w)
        ex.oblige(s3, ex.elem(s3, v, i) == e.f(i) * (1 / sqrt(z3.ToReal(n)) if on else 1 / z3.ToReal(n)), "first part of the scaled result returned", where=w)
    return run


def units():
    us = [(CORE, Unit("lemma: flat index [%dD]" % d, u_lemma(d), tmo=60)) for d in (2, 3)]
    for d in (2, 3):
        n = "FFTGrid%dD" % d
        us.append((CORE, Unit(n + " constructor", u_ctor(d), tmo=100)))
        us.append((CORE, Unit(n + "::Initialize", u_init(d), tmo=200)))
        us.append((CORE, Unit(n + "::GetRealGrid", u_crop(d), tmo=200)))
        us.append((CORE, Unit(n + " element access", u_index(d), tmo=200)))
        for on in (False, True):
            s = " [scale_forward=%s]" % on
            us.append((CORE, Unit(n + "::DoFFT" + s, u_fft(d, on), tmo=100)))
            us.append((CORE, Unit(n + "::DoInverseFFT" + s, u_ifft(d, on), tmo=100)))
        for k in ("Convolve", "ConvolveCovariance") + (("ConvolveNoFFT",) if d == 3 else ()):
            us.append((CORE, Unit(n + "::" + k, u_conv(d, k), tmo=150)))
    us.append((CORE, Unit("FFTGrid3D::InitializePadZero", u_initpad, tmo=200)))
    us.append((CORE, Unit("FFTGrid3D::InitializeConstant", u_initconst, tmo=60)))
    for on in (False, True):
        for p in ("none", "some", "default"):
            us.append((CORE, Unit("ComputeFFT1D [scale=%s padding=%s]" % (on, p), u_fft1(on, p), tmo=60)))
        us.append((CORE, Unit("ComputeFFTInv1D [scale=%s]" % on, u_ifft1(on), tmo=60)))
    return us


def gen(rng, budget, tier):
    n = {"std": 900, "deep": 6000}[budget]
    for q in range(n):
        dim = rng.choice([2, 3])
        top = 14 if dim == 2 else 7
        N = [rng.choice([1, 2, 3, rng.randint(1, top)]) for _ in range(dim)]
        P = [rng.choice([0, 0, 1, 2, rng.randint(0, top)]) for _ in range(dim)]
        np_ = " ".join("%d %d" % x for x in zip(N, P))
        k = rng.random()
        if k < .45:
            yield "grid %d %s %d %d" % (dim, np_, rng.randint(0, 1), q)
        elif k < .6:
            yield "conv %d %s %d %d" % (dim, np_, rng.randint(0, 1), q)
        elif k < .7 and dim == 3:
            yield "nofft %s %d" % (np_, q)
        else:
            yield "one %d %d %d %d" % (rng.choice([1, 2, 3, 4, 5, rng.randint(1, 90)]), rng.choice([0, 0, -1, 1, rng.randint(1, 50)]), rng.randint(0, 1), q)


def harness(scratch):
    return Harness(scratch, "fftgrid.cpp", ["nrlib/fft/fft.cpp", "nrlib/fft/fftgrid2d.cpp", "nrlib/fft/fftgrid3d.cpp"], gen,
                   "random sizes and paddings in 1-3 dimensions: forward transform against a naive DFT, round trip, crop, convolution", flags=["-include", "memory"])


TRUSTED = ["FFTW computes the unnormalised DFT of the planned size"]
ASSUMPTIONS = ["index arithmetic does not overflow; grid sizes fit in int where FFTW takes int"]
