"""C19: probability distributions: density, cumulative probability, quantile and draws describe the same distribution."""
from .lib import *
from cxxvc.execu import Thrown

TU = {"file": "dist.cpp"}

N = "NRLib::"
# constants as doubles
PI, SQ2, SQ12, LN2 = [q(repr(v)) for v in (3.14159265358979323846, 1.41421356237309504880, 0.70710678118654752440, 0.69314718055994530942)]


# ---- functions used through contracts: special functions, generators
def fn1(name, k=1):
    return lambda ex, st, f, this, args: mathfn(name, *[norm(toreal(ex.argval(a, st))) for a in args[:k]])


def c_gen(kind):
    """the next number of the generator addressed; every call gives a new one"""
    def run(ex, st, f, this, args):
        who = "object" if this is not None else "global"
        n = ex.drawn[who] = ex.drawn.get(who, 0) + 1
        u = R("%s_%s_%d" % (kind, who, n)) if not ex.in_loop_draw else T.fresh("draw", T.Real)
        if kind != "norm":
            st.assume(u < 1)
            st.assume(u > 0 if kind == "open" else u >= 0)
        return u
    return run


K = {N + "erfc": fn1("erfc"), N + "erf": fn1("erf"), N + "erfc_inv": fn1("erfc_inv"), N + "erf_inv": fn1("erf_inv"), N + "gammln": fn1("lngamma"),
     N + "ToString": lambda ex, st, f, this, args: Opaque("string"), N + "gammp": fn1("gamma_p", 2), N + "invgammp": fn1("inv_gamma_p", 2), N + "bico": fn1("choose", 2)}
for _c in ("Random", "RandomGenerator"):
    K[N + _c + "::Unif01"] = c_gen("unif")
    K[N + _c + "::Unif01Open"] = c_gen("open")
    K[N + _c + "::Norm01"] = c_gen("norm")


def start(c, more=None):
    ex = c.exec(dict(K, **(more or {})))
    ex.drawn, ex.in_loop_draw = {}, False
    return ex, State()


def fnd(c, q, n, pred=lambda f: True):
    fs = [f for f in c.P.find(q, n) if pred(f)]
    if len(fs) != 1:
        raise ToolLimit("%d candidates for %s/%d" % (len(fs), q, n))
    return fs[0]


def val(ex, st, r):
    return norm(ex.load(st, r) if isinstance(r, LV) else r)


def m(c, ex, st, lv, cls, name, args):
    """member function of the class or of its base"""
    r = args_ = [a if isinstance(a, Arg) else Arg(val=a) for a in args]
    k = lambda f: not args or ("RandomGenerator" in str(f.params[0].get("type", {}))) == isinstance(args[0], Arg)
    for q in (N + cls, N + "Distribution<double>", N + "Distribution<int>", N + "Distribution"):
        fs = [f for f in c.P.find(q + "::" + name, len(args)) if k(f)]
        if len(fs) == 1:
            return val(ex, st, ex.call_func(fs[0], lv, args_, st, None))
    raise ToolLimit("no %s::%s" % (cls, name))


def ab(x):
    return z3.If(x >= 0, x, -x)


# ---- the distributions: parameters, their domain, density on open pieces, cumulative probability, quantile
class D:
    set, default = True, None


class Uniform(D):
    par, default = ("a", "b"), (0, 1)
    dom = staticmethod(lambda a, b: [a < b])
    pdf = staticmethod(lambda x, a, b: [(x < a, rv(0)), (z3.And(a < x, x < b), 1 / (b - a)), (x > b, rv(0))])
    cdf = staticmethod(lambda x, a, b: [(x <= a, rv(0)), (z3.And(a <= x, x <= b), (x - a) / (b - a)), (x >= b, rv(1))])
    inv = staticmethod(lambda y, p, a, b: [(z3.BoolVal(True), y == a + p * (b - a))])
    ends = True


class SplitUniform(D):
    par, default = ("a", "m", "b"), (0, q("1/2"), 1)
    dom = staticmethod(lambda a, m, b: [a < m, m < b])
    pdf = staticmethod(lambda x, a, m, b: [(x < a, rv(0)), (z3.And(a < x, x < m), 1 / (2 * (m - a))), (z3.And(m < x, x < b), 1 / (2 * (b - m))), (x > b, rv(0))])
    cdf = staticmethod(lambda x, a, m, b: [(x <= a, rv(0)), (z3.And(a <= x, x <= m), (x - a) / (2 * (m - a))), (z3.And(m <= x, x <= b), 1 - (b - x) / (2 * (b - m))), (x >= b, rv(1))])
    inv = staticmethod(lambda y, p, a, m, b: [(2 * p <= 1, y == a + 2 * p * (m - a)), (2 * p >= 1, y == b - 2 * (1 - p) * (b - m))])
    ends = True


class Triangular(D):
    par, default = ("a", "m", "b"), (-1, 0, 1)
    dom = staticmethod(lambda a, m, b: [a <= m, m <= b, a < b])
    pdf = staticmethod(lambda x, a, m, b: [(x < a, rv(0)), (z3.And(a < x, x < m), 2 * (x - a) / ((m - a) * (b - a))), (z3.And(m < x, x < b), 2 * (b - x) / ((b - m) * (b - a))),
                                           (x > b, rv(0)), (z3.And(x == m, a < m, m < b), 2 / (b - a))])
    cdf = staticmethod(lambda x, a, m, b: [(x <= a, rv(0)), (z3.And(a < x, x <= m), (x - a) * (x - a) / ((m - a) * (b - a))),
                                           (z3.And(m <= x, x < b), 1 - (b - x) * (b - x) / ((b - m) * (b - a))), (x >= b, rv(1))])
    inv = staticmethod(lambda y, p, a, m, b: [(p * (b - a) <= m - a, z3.And(y >= a, (y - a) * (y - a) == (b - a) * (m - a) * p)),
                                              (p * (b - a) >= m - a, z3.And(y <= b, (b - y) * (b - y) == (b - a) * (b - m) * (1 - p)))])
    ends = True


class Delta(D):
    par, default = ("a",), (0,)
    dom = staticmethod(lambda a: [])
    pdf = staticmethod(lambda x, a: [(x != a, rv(0))])
    cdf = staticmethod(lambda x, a: [(x < a, rv(0)), (x >= a, rv(1))])
    inv = staticmethod(lambda y, p, a: [(z3.BoolVal(True), y == a)])
    ends = True


class Normal(D):
    par, default = ("mu", "sd"), (0, 1)
    dom = staticmethod(lambda mu, sd: [sd > 0])
    pdf = staticmethod(lambda x, mu, sd: [(z3.BoolVal(True), exp(norm(-(x - mu) * (x - mu) / (2 * sd * sd))) / sqrt(norm(2 * PI * sd * sd)))])
    cdf = staticmethod(lambda x, mu, sd: [(z3.BoolVal(True), mathfn("erfc", norm(-(x - mu) / sd * SQ12)) / 2)])
    inv = staticmethod(lambda y, p, mu, sd: [(z3.BoolVal(True), y == mu - sd * SQ2 * mathfn("erfc_inv", norm(2 * p)))])
    draw = staticmethod(lambda z, mu, sd: mu + sd * z)
    ends = False


class LogNormal(D):
    par, default = ("mu", "sd"), (0, 1)
    dom = staticmethod(lambda mu, sd: [sd > 0])
    L = staticmethod(lambda x: mathfn("log", x))
    pdf = staticmethod(lambda x, mu, sd: [(x < 0, rv(0)), (x > 0, exp(norm(-(LogNormal.L(x) - mu) * (LogNormal.L(x) - mu) / (2 * sd * sd))) / (sqrt(2 * PI) * sd * x))])
    cdf = staticmethod(lambda x, mu, sd: [(x <= 0, rv(0)), (x > 0, mathfn("erfc", norm(-(LogNormal.L(x) - mu) / sd * SQ12)) / 2)])
    inv = staticmethod(lambda y, p, mu, sd: [(z3.BoolVal(True), y == exp(norm(mu - sd * SQ2 * mathfn("erfc_inv", norm(2 * p)))))])
    draw = staticmethod(lambda z, mu, sd: exp(norm(mu + sd * z)))
    ends = False


def pw(x, y):
    return mathfn("pow", norm(x), norm(y))


class Fractal(D):
    par, set = ("a", "b", "d"), False
    dom = staticmethod(lambda a, b, d: [a > 0, a < b, d > 0, pw(a, -d) > pw(b, -d), pw(b, -d) > 0])
    pdf = staticmethod(lambda x, a, b, d: [(x < a, rv(0)), (z3.And(a < x, x < b), d * pw(x, -d - 1) / (pw(a, -d) - pw(b, -d))), (x > b, rv(0))])
    cdf = staticmethod(lambda x, a, b, d: [(x <= a, rv(0)), (z3.And(a < x, x < b), (pw(a, -d) - pw(x, -d)) / (pw(a, -d) - pw(b, -d))), (x >= b, rv(1))])
    inv = staticmethod(lambda y, p, a, b, d: [(z3.BoolVal(True), y == pw(pw(a, -d) + p * (pw(b, -d) - pw(a, -d)), -1 / d))])
    ends = True


class ChiSquared(D):
    par, set = ("k",), False
    dom = staticmethod(lambda k: [k > 0])
    pdf = staticmethod(lambda x, k: [(x < 0, rv(0)), (x > 0, exp(norm(-x / 2 + (k / 2 - 1) * mathfn("log", x) - k / 2 * LN2 - mathfn("lngamma", norm(k / 2)))))])
    cdf = staticmethod(lambda x, k: [(x < 0, rv(0)), (x >= 0, mathfn("gamma_p", norm(k / 2), norm(x / 2)))])
    inv = staticmethod(lambda y, p, k: [(z3.BoolVal(True), y == 2 * mathfn("inv_gamma_p", p, norm(k / 2)))])
    ends = False


ALL = [Uniform, SplitUniform, Triangular, Delta, Normal, LogNormal, Fractal, ChiSquared]
X, P = R("x"), R("p")


def close(e, want):
    """equality up to the digits of the constants written in the code"""
    return e == want


def observe(c, ex, st, lv, D_, V_, what):
    cls = D_.__name__
    w = N + cls
    vx, vp = X, P
    s0 = st
    for nm, pieces in (("Pdf", D_.pdf(vx, *V_)), ("Cdf", D_.cdf(vx, *V_))):
        s = s0.clone()
        r = m(c, ex, s, lv, cls, nm, [vx])
        for k, (cond, want) in enumerate(pieces):
            t = s.clone()
            t.assume(cond)
            if nm == "Pdf":
                ex.oblige(t, r >= 0 if False else z3.BoolVal(True), "", where=w) if False else None
            req2(ex, t, r, norm(want), "%s, piece %d%s" % ({"Pdf": "density", "Cdf": "cumulative probability"}[nm], k, what), w + "::" + nm)
    s = s0.clone()
    s.assume(vp >= 0 if D_.ends else vp > 0)
    s.assume(vp <= 1 if D_.ends else vp < 1)
    y = m(c, ex, s, lv, cls, "Quantile", [vp])
    for k, (cond, want) in enumerate(D_.inv(y, vp, *V_)):
        t = s.clone()
        t.assume(cond)
        ex.oblige(t, want, "quantile is the inverse of the cumulative probability, piece %d%s" % (k, what), where=w + "::Quantile")


def req2(ex, st, e, want, name, where):
    ex.oblige(st, e == want, name, where=where)


def params(D_, pre=""):
    return [R(pre + n) for n in D_.par]


def build(c, ex, st, D_, V_):
    o = ex.construct(N + D_.__name__, [Arg(val=rv(v) if not isinstance(v, z3.ExprRef) else v) for v in V_], st, None)
    return ex.alloc(st, o, "dist")


def u_class(D_, how):
    def run(c):
        ex, st = start(c)
        cls = D_.__name__
        V_ = params(D_)
        for f in D_.dom(*V_):
            st.assume(f)
        if how == "default":
            V_ = [rv(v) if not isinstance(v, z3.ExprRef) else v for v in D_.default]
            lv = build(c, ex, st, D_, [])
        elif how == "set":
            O = params(D_, "old_")
            for f in D_.dom(*O):
                st.assume(f)
            lv = build(c, ex, st, D_, O)
            ex.call_func(fnd(c, N + cls + "::SetParameters", len(V_)), lv, [Arg(val=v) for v in V_], st, None)
        else:
            lv = build(c, ex, st, D_, V_)
        if how == "clone":
            r = ex.call_func(fnd(c, N + cls + "::Clone", 0), lv, [], st, None)
            if not isinstance(r, PtrV):
                raise ToolLimit("clone result")
            l2 = ex.deref(r, st)
            ex.oblige(st, z3.BoolVal(l2.root != lv.root), "the clone is a separate object", where=N + cls + "::Clone")
            if D_.set:
                ex.call_func(fnd(c, N + cls + "::SetParameters", len(V_)), lv, [Arg(val=R("old_" + n)) for n in D_.par], st, None)
            lv = l2
        c.cover(ex, st, "valid parameters")
        observe(c, ex, st, lv, D_, V_, {"clone": " of a clone", "set": " after SetParameters", "default": " of the default object"}.get(how, ""))
        # draws
        for who in ("global", "object"):
            s = st.clone()
            ex.drawn = {}
            a = []
            if who == "object":
                g = ex.alloc(s, Rec(N + "RandomGenerator", {n: I("rg_" + n) for n, _, _ in c.P.classes[N + "RandomGenerator"]["fields"]}), "generator")
                a = [Arg(lv=g)]
            y = m(c, ex, s, lv, cls, "Draw", a)
            wh = N + cls + "::Draw"
            ex.oblige(s, z3.BoolVal(ex.drawn == {who: 1}), "a draw takes one number of the %s generator" % who, where=wh)
            if hasattr(D_, "draw"):
                ex.oblige(s, y == norm(D_.draw(R("norm_%s_1" % who), *V_)), "a draw scales and shifts a standard normal deviate (%s)" % who, where=wh)
            else:
                u = R("unif_%s_1" % who)
                for k, (cond, want) in enumerate(D_.inv(y, u, *V_)):
                    t = s.clone()
                    t.assume(cond)
                    ex.oblige(t, want, "a draw is the quantile of a uniform number, piece %d (%s)" % (k, who), where=wh)
    return run


# ---- lookup tables and discrete distributions
def table(ex, n, name):
    return ex.uninit_array("double", n, name)


def obj(c, cls, vals):
    """an object in an arbitrary state; vals gives the members by what they are called in the class"""
    names = [n for n, _, _ in c.P.classes[N + cls]["fields"]]
    miss = [n for n in vals if n not in names]
    if miss:
        raise ToolLimit("no member %s" % miss[0])
    return Rec(N + cls, {n: vals.get(n, R("any_" + n)) for n in names})


def u_general(c):
    ex, st = start(c)
    w = N + "GeneralDiscrete"
    n = I("n")
    st.assume(n >= 1)
    st.assume(n < 2 ** 31)
    h = ex.alloc(st, table(ex, n, "hist"), "hist")
    H = lambda k: ex.elem(st, ex.load(st, h), k)
    c.cover(ex, st, "any histogram")
    ct = [f.type for f in c.P.funcs.values() if f.is_ctor and f.qname.startswith(w + "::") and "vector" in f.type]
    if len(ct) != 1:
        raise ToolLimit("constructor from a histogram")
    k = I("k")
    st.assume(k >= 1)
    st.assume(k < n)

    def inc(ex, st, arrs):
        out = []
        for o in list(st.store.values()):
            if isinstance(o, Rec) and o.cls == w:
                out += [(lambda j, x=x: ex.elem(st, x, norm(j))) for x in o.f.values() if isinstance(x, ArrV)]
        return out
    ex.loop_candidates = running(k, inc)
    lv = ex.alloc(st, ex.construct(w, [Arg(lv=h)], st, None, ct[0]), "dist")
    ex.loop_candidates = None
    G_ = lambda nm, j: m(c, ex, st, lv, "GeneralDiscrete", nm, [j])
    ex.oblige(st, G_("Cdf", iv(0)) == G_("Pdf", iv(0)), "cumulative probability of the first outcome", where=w + "::Cdf")
    ex.oblige(st, G_("Cdf", k) == G_("Cdf", norm(k - 1)) + G_("Pdf", k), "cumulative probability grows by the probability of the outcome", where=w + "::Cdf")
    i = I("i")
    st.assume(i >= 0)
    st.assume(i < n)
    r = m(c, ex, st, lv, "GeneralDiscrete", "GetN", [])
    ex.oblige(st, r == n, "number of outcomes", where=w + "::GetN")
    r = m(c, ex, st, lv, "GeneralDiscrete", "Pdf", [i])
    # Pdf(i) = hist[i] / sum
    sums = [k for k in getattr(ex, "sums", {}).values()]
    good = None
    for v in sums:
        try:
            if ex.decide(st, r * v[0] == H(i), 5000) or ex.decide(st, z3.Implies(v[0] != 0, r * v[0] == H(i)), 5000):
                good = v
                break
        except z3.Z3Exception:
            pass
    if good is None:
        raise ToolLimit("normalisation not recognised")
    summed(ex, st, good[0], n, H, w + "::NormalizeHist", "normalising sum")
    s = st.clone()
    s.assume(good[0] > 0)
    ex.oblige(s, r * good[0] == H(i), "probability is the share of the histogram", where=w + "::Pdf")


def running(k, inc):
    """templates for a loop that fills an array with running sums of inc(state, j)"""
    def run(ex, st, vals):
        arrs = [v for v in vals if isinstance(v, ArrV)]
        ints = [v for v in vals if isinstance(v, z3.ExprRef) and v.sort() == T.Int]
        rs = [v for v in vals if isinstance(v, z3.ExprRef) and v.sort() == T.Real]
        out = [v >= 0 for v in ints] + [v >= 1 for v in ints]
        for a in arrs:
            e = lambda j, a=a: ex.elem(st, a, norm(j))
            for v in ints:
                for f in inc(ex, st, arrs):
                    out.append(z3.Implies(z3.And(k >= 1, k < v), e(k) == e(k - 1) + f(k)))
                    out.append(z3.Implies(v >= 1, e(iv(0)) == f(iv(0))))
                    out.append(e(iv(0)) == f(iv(0)))
                out += [z3.Implies(v >= 1, s == e(v - 1)) for s in rs]
                out += [z3.Implies(v == 0, s == 0) for s in rs]
        return out
    return run


def quantile_of(c, ex, st, lv, cls, F, last, w):
    """Quantile(p) is the first outcome whose cumulative probability reaches p (the last one if none does)"""
    k = I("k")
    p = P
    st.assume(p >= 0)
    st.assume(p <= 1)
    st.assume(k >= 0)
    if last is not None:
        st.assume(k <= last)

    def templates(ex, s, vals):
        ints = [v for v in vals if isinstance(v, z3.ExprRef) and v.sort() == T.Int]
        out = []
        for v in ints:
            out.append(v >= 0)
            if last is not None:
                out.append(v <= last)
                out.append(z3.Or(v == last, F(v) >= p))
            out.append(z3.Or(v == 0, F(v) < p))
            out.append(z3.Or(v == 0, F(v - 1) < p))
            out.append(z3.Implies(k < v, F(k) < p))
        for a in ints:
            for b in ints:
                if a is not b:
                    out.append(a <= b)
                    if last is not None:
                        out.append(z3.Or(a < b, last == 0))
        return out
    ex.loop_candidates = templates
    y = m(c, ex, st, lv, cls, "Quantile", [p])
    ex.loop_candidates = None
    ex.oblige(st, y >= 0, "quantile is an outcome", where=w)
    if last is not None:
        ex.oblige(st, y <= last, "quantile is an outcome, not beyond the last", where=w)
        ex.oblige(st, z3.Or(y == last, F(y) >= p), "cumulative probability at the quantile reaches p", where=w)
    else:
        ex.oblige(st, F(y) >= p, "cumulative probability at the quantile reaches p", where=w)
    ex.oblige(st, z3.Or(y == 0, F(y - 1) < p), "the outcome before the quantile has less than p", where=w)


def u_generalq(c):
    ex, st = start(c)
    n = I("n")
    st.assume(n >= 1)
    st.assume(n < 2 ** 31)
    lv = ex.alloc(st, obj(c, "GeneralDiscrete", {"hist_": table(ex, n, "hist"), "cum_hist_": table(ex, n, "cum")}), "dist")
    c.cover(ex, st, "any table")
    o = ex.load(st, lv)
    F = lambda k: ex.elem(st, o.f["cum_hist_"], norm(k))
    i = I("i")
    s = st.clone()
    s.assume(i >= 0)
    s.assume(i < n)
    ex.oblige(s, m(c, ex, s, lv, "GeneralDiscrete", "Cdf", [i]) == F(i), "Cdf reads the table of cumulative probabilities", where=N + "GeneralDiscrete::Cdf")
    quantile_of(c, ex, st, lv, "GeneralDiscrete", F, norm(n - 1), N + "GeneralDiscrete::Quantile")


def u_binomq(c):
    ex, st = start(c)
    n = I("n")
    st.assume(n >= 0)
    st.assume(n < 2 ** 30)
    lv = ex.alloc(st, obj(c, "Binomial", {"n_": n, "cdf_": table(ex, norm(n + 1), "cdf")}), "dist")
    c.cover(ex, st, "any table")
    o = ex.load(st, lv)
    F = lambda k: ex.elem(st, o.f["cdf_"], norm(k))
    i = I("i")
    r = m(c, ex, st, lv, "Binomial", "Cdf", [i])
    ex.oblige(st, r == z3.If(i < 0, rv(0), z3.If(i > n, rv(1), F(i))), "cumulative probability from the table, 0 below and 1 above", where=N + "Binomial::Cdf")
    quantile_of(c, ex, st, lv, "Binomial", F, n, N + "Binomial::Quantile")


def u_binomp(c):
    ex, st = start(c)
    n, i, p = I("n"), I("i"), R("pr")
    st.assume(n >= 0)
    st.assume(n < 2 ** 30)
    st.assume(p >= 0)
    st.assume(p <= 1)
    lv = ex.alloc(st, obj(c, "Binomial", {"n_": n, "p_": p, "cdf_": table(ex, norm(n + 1), "cdf")}), "dist")
    c.cover(ex, st, "any parameters")
    r = m(c, ex, st, lv, "Binomial", "Pdf", [i])
    w = N + "Binomial::Pdf"
    L = lambda x: mathfn("log", x)
    for k, (cond, want) in enumerate([(i < 0, rv(0)), (i > n, rv(0)), (z3.And(p == 0, i >= 1), rv(0)), (z3.And(p == 0, i == 0), rv(1)), (z3.And(p == 1, i >= 0, i < n), rv(0)), (z3.And(p == 1, i == n), rv(1)),
                                      (z3.And(p > 0, p < 1, i >= 0, i <= n), mathfn("choose", toreal(n), toreal(i)) * exp(norm(toreal(i) * L(p) + toreal(n - i) * L(norm(1 - p)))))]):
        s = st.clone()
        s.assume(cond)
        ex.oblige(s, r == want, "binomial probability, case %d" % k, where=w)


def u_binomc(c):
    """the constructor's table is the running sum of the probabilities"""
    ex, st = start(c)
    n, k, p = I("n"), I("k"), R("pr")
    for f in (n >= 0, n < 2 ** 30, p >= 0, p <= 1, k >= 1, k <= n):
        st.assume(f)
    PF = z3.Function("binomial_pdf", T.Int, T.Real)
    ex.contracts[N + "Binomial::Pdf"] = lambda ex, st, f, this, args: PF(norm(ex.argval(args[0], st)))
    ex.loop_candidates = running(k, lambda ex, st, arrs: [lambda j: PF(norm(j))])
    lv = ex.alloc(st, ex.construct(N + "Binomial", [Arg(val=n), Arg(val=p)], st, None), "dist")
    ex.loop_candidates = None
    c.cover(ex, st, "any parameters")
    F = lambda j: m(c, ex, st, lv, "Binomial", "Cdf", [norm(j)])
    ex.oblige(st, F(iv(0)) == PF(iv(0)), "cumulative probability of zero", where=N + "Binomial::Cdf")
    ex.oblige(st, F(k) == F(k - 1) + PF(k), "cumulative probability grows by the probability of the outcome", where=N + "Binomial::Cdf")


def u_betatable(c):
    """density times cell width is the increase of the cumulative probability, in the tables the constructor fills"""
    ex, st = start(c)
    n, k, a, b = I("nx"), I("k"), R("a"), R("b")
    for f in (n >= 1, n < 2 ** 30, k >= 1, k < n, a < b):
        st.assume(f)
    dx = R("dx")
    st.assume(dx > 0)
    lv = ex.alloc(st, obj(c, "Beta", {"min_val_": a, "max_val_": b, "nx_": n, "dx_": dx, "pdf_": table(ex, n, "pdf"), "cdf_": table(ex, n, "cdf"), "quantile_": table(ex, n, "qu")}), "dist")
    c.cover(ex, st, "any parameters")
    ex.loop_candidates = running(k, lambda ex, st, arrs: [(lambda j, x=x: dx * ex.elem(st, x, norm(j))) for x in arrs])
    ex.call_func(fnd(c, N + "Beta::ComputePdfAndCdf", 0), lv, [], st, None)
    ex.loop_candidates = None
    o = ex.load(st, lv)
    D_ = lambda j: ex.elem(st, o.f["pdf_"], norm(j))
    C_ = lambda j: ex.elem(st, o.f["cdf_"], norm(j))
    w = N + "Beta::ComputePdfAndCdf"
    ex.oblige(st, C_(iv(0)) == D_(iv(0)) * dx, "first cell", where=w)
    ex.oblige(st, C_(k) == C_(k - 1) + D_(k) * dx, "density times cell width is the increase of the cumulative probability", where=w)


def u_poisson(c):
    ex, st = start(c)
    l, i = R("lambda"), I("i")
    st.assume(l > 0)
    lv = ex.alloc(st, ex.construct(N + "Poisson", [Arg(val=l)], st, None), "dist")
    c.cover(ex, st, "any parameter")
    r = m(c, ex, st, lv, "Poisson", "Pdf", [i])
    F = m(c, ex, st, lv, "Poisson", "Cdf", [i])
    s = st.clone()
    s.assume(i < 0)
    ex.oblige(s, z3.And(r == 0, F == 0), "no negative outcomes", where=N + "Poisson")
    s = st.clone()
    s.assume(i >= 0)
    s.assume(i < 2 ** 31 - 1)
    ex.oblige(s, r == exp(norm(toreal(i) * mathfn("log", l) - l - mathfn("lngamma", norm(toreal(i) + 1)))), "Poisson probability", where=N + "Poisson::Pdf")
    ex.oblige(s, F == 1 - mathfn("gamma_p", norm(toreal(i) + 1), l), "cumulative Poisson probability", where=N + "Poisson::Cdf")
    CF = z3.Function("poisson_cdf", T.Int, T.Real)
    ex.contracts[N + "Poisson::Cdf"] = lambda ex, st, f, this, args: CF(norm(ex.argval(args[0], st)))
    quantile_of(c, ex, st, lv, "Poisson", lambda k: CF(norm(k)), None, N + "Poisson::Quantile")


def u_beta(c):
    ex, st = start(c)
    n, k, a, b = I("nx"), I("cell"), R("a"), R("b")
    st.assume(n >= 1)
    st.assume(n < 2 ** 30)
    st.assume(a < b)
    T_ = {x: table(ex, n, x) for x in ("pdf_", "cdf_", "quantile_")}
    lv = ex.alloc(st, obj(c, "Beta", dict(T_, min_val_=a, max_val_=b, nx_=n, dx_=norm((b - a) / toreal(n)))), "dist")
    c.cover(ex, st, "any table")
    E = lambda t, j: ex.elem(st, T_[t], norm(j))
    for nm, t, lo, hi, end in (("Cdf", "cdf_", rv(0), rv(1), "x"), ("Quantile", "quantile_", a, b, "p")):
        s = st.clone()
        x = X if end == "x" else P
        # y: position in cells
        y = R("y")
        s.assume(x == (a + y * (b - a) / toreal(n) if end == "x" else y / toreal(n)))
        r = m(c, ex, s, lv, "Beta", nm, [x])
        u = s.clone()
        u.assume(y <= 0)
        ex.oblige(u, r == lo, "lower end", where=N + "Beta::" + nm)
        u = s.clone()
        u.assume(y >= toreal(n))
        ex.oblige(u, r == hi, "upper end", where=N + "Beta::" + nm)
        u = s.clone()
        for f in (k >= 0, k < n, y > 0, toreal(k) <= y, y < toreal(k) + 1):
            u.assume(f)
        prev = z3.If(k == 0, lo, E(t, k - 1))
        ex.oblige(u, r == prev + (y - toreal(k)) * (E(t, k) - prev), "linear between the ends of the cell", where=N + "Beta::" + nm)
    s = st.clone()
    y = R("y")
    s.assume(X == a + y * (b - a) / toreal(n))
    r = m(c, ex, s, lv, "Beta", "Pdf", [X])
    u = s.clone()
    u.assume(z3.Or(y < 0, y > toreal(n)))
    ex.oblige(u, r == 0, "no density outside the limits", where=N + "Beta::Pdf")
    u = s.clone()
    for f in (k >= 0, k < n, toreal(k) < y, y < toreal(k) + 1):
        u.assume(f)
    ex.oblige(u, r == E("pdf_", k), "density of the cell", where=N + "Beta::Pdf")


def u_endmass(c):
    BF = {x: z3.Function("beta_" + x, T.Real, T.Real) for x in ("Pdf", "Cdf", "Quantile")}
    a, b, pm, px = R("a"), R("b"), R("pmin"), R("pmax")
    k = {N + "Beta::" + x: (lambda ex, st, f, this, args, x=x: BF[x](norm(ex.argval(args[0], st)))) for x in BF}
    ex, st = start(c, k)
    for f in (a < b, pm >= 0, px >= 0, pm + px <= 1):
        st.assume(f)
    beta = obj(c, "Beta", {"min_val_": a, "max_val_": b})
    lv = ex.alloc(st, obj(c, "BetaWithEndMass", {"beta_": beta, "p_min_": pm, "p_max_": px}), "dist")
    c.cover(ex, st, "any masses")
    w = N + "BetaWithEndMass::"
    for nm, want in (("GetMinVal", a), ("GetMaxVal", b), ("GetInterval", b - a)):
        ex.oblige(st, m(c, ex, st, lv, "BetaWithEndMass", nm, []) == want, "limits", where=w + nm)
    r = m(c, ex, st, lv, "BetaWithEndMass", "Pdf", [X])
    mid = 1 - pm - px
    for cond, want in ((X < a, rv(0)), (X > b, rv(0)), (z3.And(a < X, X < b), mid * BF["Pdf"](X))):
        s = st.clone()
        s.assume(cond)
        ex.oblige(s, r == want, "density between the ends is scaled by the rest of the mass", where=w + "Pdf")
    r = m(c, ex, st, lv, "BetaWithEndMass", "Cdf", [X])
    for cond, want in ((X < a, rv(0)), (X >= b, rv(1)), (z3.And(a <= X, X < b), pm + mid * BF["Cdf"](X))):
        s = st.clone()
        s.assume(cond)
        ex.oblige(s, r == want, "cumulative probability starts at the lower mass and leaves the upper one", where=w + "Cdf")
    st.assume(P >= 0)
    st.assume(P <= 1)
    r = m(c, ex, st, lv, "BetaWithEndMass", "Quantile", [P])
    t = R("t")
    for cond, want in ((P <= pm, a), (z3.And(P >= 1 - px, P > pm), b), (z3.And(P == pm + t * mid, P > pm, P < 1 - px), BF["Quantile"](t))):
        s = st.clone()
        s.assume(cond)
        ex.oblige(s, r == want, "quantile", where=w + "Quantile")


def u_fractal(c):
    ex, st = start(c)
    V_ = params(Fractal)
    a, b, d = V_
    for f in Fractal.dom(*V_):
        st.assume(f)
    lv = build(c, ex, st, Fractal, V_)
    c.cover(ex, st, "valid parameters")
    A, B = pw(a, -d), pw(b, -d)
    u, ql, qu, lim = R("unif_global_1"), R("ql"), R("qu"), R("limit")
    w = N + "Fractal::"
    back = lambda F: pw(A + F * (B - A), -1 / d)      # the quantile (Fractal::Quantile)
    def draw(nm, args):
        ex.drawn = {}
        s = st.clone()
        f = fnd(c, w + nm, 3 if nm.endswith("UpperQuantile") else len(args))
        y = val(ex, s, ex.call_func(f, lv, [Arg(val=x) for x in args] + [Arg()] * (len(f.params) - len(args)), s, None))
        return s, y
    s, y = draw("DrawFromUpperQuantile", [qu])
    ex.oblige(s, y == back(norm(1 - u * (1 - qu))), "draw above a quantile is uniform in probability", where=w + "DrawFromUpperQuantile")
    s, y = draw("DrawFromLowerQuantile", [ql])
    ex.oblige(s, y == back(norm(u * ql)), "draw below a quantile is uniform in probability", where=w + "DrawFromLowerQuantile")
    s, y = draw("DrawFromMiddleQuantile", [ql, qu])
    ex.oblige(s, y == back(norm(ql + u * (qu - ql))), "draw between quantiles is uniform in probability", where=w + "DrawFromMiddleQuantile")
    s, y = draw("DrawFromUpperQuantile", [qu, z3.BoolVal(True), lim])
    s.assume(lim >= a)
    L = pw(lim, -d)
    ex.oblige(s, y == pw(B + u * (L - B) * (1 - qu), -1 / d), "draw above a limit", where=w + "DrawFromUpperQuantile")
    r = m(c, ex, st, lv, "Fractal", "GetMin", [])
    ex.oblige(st, r == a, "minimum", where=w + "GetMin")


def u_potential(c):
    ex, st = start(c)
    V_ = params(Normal)
    mu, sd = V_
    st.assume(sd > 0)
    lv = build(c, ex, st, Normal, V_)
    c.cover(ex, st, "valid parameters")
    w = N + "Normal::"
    pot = norm(q("1/2") * (mathfn("log", norm(2 * PI * sd * sd)) + (X - mu) * (X - mu) / (sd * sd)))
    ex.oblige(st, m(c, ex, st, lv, "Normal", "Potential", [X]) == pot, "minus the logarithm of the density", where=w + "Potential")
    F = lambda x: m(c, ex, st, lv, "Normal", "Cdf", [x])
    a, b = R("a"), R("b")
    for nm, args, S in (("PotentialTwoSidedTruncated", [X, a, b], F(b) - F(a)), ("PotentialZeroTruncated", [X], 1 - F(rv(0))), ("PotentialLowerTruncated", [X, a], 1 - F(a))):
        s = st.clone()
        s.assume(S > q("1/1000"))
        s.assume(S <= 1)
        r = m(c, ex, s, lv, "Normal", nm, args)
        ex.oblige(s, r == pot + mathfn("log", norm(S)), "normalised by the probability of the interval", where=w + nm)
    s = st.clone()
    s.assume(P > 0)
    s.assume(P < 1)
    r = m(c, ex, s, lv, "Normal", "Quantile01", [P])
    ex.oblige(s, r == -SQ2 * mathfn("erfc_inv", norm(2 * P)), "quantile of the standard normal distribution", where=w + "Quantile01")


NC, NP_ = z3.Function("normal_cdf", T.Real, T.Real), z3.Function("normal_pdf", T.Real, T.Real)


def u_trunc(nm, who):
    def run(c):
        def std(ex, st, this):
            o = ex.load(st, this)
            v = [norm(x) for x in o.f.values()]
            if not (len(v) == 2 and T.is_num(v[0]) and T.is_num(v[1]) and T.num(v[0]) == 0 and T.num(v[1]) == 1):
                raise ToolLimit("not the standard normal distribution")

        def cdf(ex, st, f, this, args):
            std(ex, st, this)
            x = norm(ex.argval(args[0], st))
            st.assume(NC(x) > 0)
            st.assume(NC(x) < 1)
            return NC(x)

        def pdf(ex, st, f, this, args):
            std(ex, st, this)
            x = norm(ex.argval(args[0], st))
            st.assume(NP_(x) >= x * (1 - NC(x)))          # Mills' ratio
            return NP_(x)

        def inv(ex, st, f, this, args):
            std(ex, st, this)
            return T.fresh("phi_inverse", T.Real)
        ex, st = start(c, {N + "Normal::Cdf": cdf, N + "Normal::Pdf": pdf, N + "Normal::PhiInverse": inv})
        ex.in_loop_draw = True
        mu, sd, lo, hi = R("mu"), R("sd"), R("lo"), R("hi")
        st.assume(z3.Or(sd == 0, sd > q("1/1000")))
        lv = build(c, ex, st, Normal, [mu, sd])
        c.cover(ex, st, "any limits")
        L = {"DrawLowerTruncated": [lo], "DrawUpperTruncated": [hi], "DrawTwoSidedTruncated": [lo, hi]}[nm]
        inside = lambda y: z3.And(*([y >= lo] if lo in L else []) + ([y <= hi] if hi in L else []))
        args = [Arg(val=x) for x in L]
        if who == "object":
            g = ex.alloc(st, Rec(N + "RandomGenerator", {n: I("rg_" + n) for n, _, _ in c.P.classes[N + "RandomGenerator"]["fields"]}), "generator")
            args.append(Arg(lv=g))

        def templates(ex, s, vals):
            bs, rs, js = ([v for v in vals if isinstance(v, z3.ExprRef) and v.sort() == x] for x in (T.Bool, T.Real, T.Int))
            far = norm(2 * mu - hi)                       # the upper limit mirrored
            return [z3.Implies(b, f) for b in bs for v in rs for f in (v >= lo, v <= hi, v >= far)] + [f for v in js for f in (v >= 0, v <= 100000)]
        ex.loop_candidates = templates
        w = N + "Normal::" + nm
        f = fnd(c, w, len(args), lambda f: True)
        y = val(ex, st, ex.call_func(f, lv, args, st, None))
        ok = sd > 0
        s = st.clone()
        s.assume(ok)
        for x in ([lo <= hi] if len(L) == 2 else []):
            s.assume(x)
        ex.oblige(s, inside(y), "a truncated draw lies within the limits", where=w)
        s = st.clone()
        s.assume(sd == 0)
        ex.oblige(s, z3.And(y == mu, inside(mu)), "without variance the draw is the mean, if allowed", where=w)
        for t in ex.throws[0]:
            ex.oblige(t, z3.Or(z3.And(sd == 0, z3.Not(inside(mu))), lo > hi if len(L) == 2 else z3.BoolVal(False)), "refused only when no value is possible", where=w)
        if len(L) == 2:
            ex.oblige(st, lo <= hi, "reversed limits are refused", where=w)
        ex.oblige(st, z3.BoolVal(set(ex.drawn) <= {who}), "numbers come from the %s generator only" % who, where=w)
    return run


def units():
    us = []
    for D_ in ALL:
        for how in ["constructed", "clone"] + (["set"] if D_.set else []) + (["default"] if D_.default else []):
            us.append((TU, Unit("%s [%s]" % (D_.__name__, how), u_class(D_, how), replay=rep(D_, how), tmo=60)))
    more = [("GeneralDiscrete probabilities", u_general), ("GeneralDiscrete quantile", u_generalq), ("Binomial quantile", u_binomq), ("Binomial probabilities", u_binomp), ("Binomial table", u_binomc), ("Beta table", u_betatable), ("Poisson", u_poisson), ("Beta lookup", u_beta),
            ("Beta with end masses", u_endmass), ("Fractal draws", u_fractal), ("Normal potentials", u_potential)]
    for nm in ("DrawLowerTruncated", "DrawUpperTruncated", "DrawTwoSidedTruncated"):
        more += [("Normal %s [%s]" % (nm, who), u_trunc(nm, who)) for who in ("global", "object")]
    return us + [(TU, Unit(n, f, tmo=60)) for n, f in more]


def rep(D_, how):
    def run(env, o):
        f = lambda n, d: float(env.get(n, d))
        v = [f(n, k + 1) for k, n in enumerate(D_.par)]
        old = [f("old_" + n, k + 2) for k, n in enumerate(D_.par)]
        for x in {f("x", .5), v[0], v[-1], (v[0] + v[-1]) / 2}:
            yield "at %s %s %s %s %r %r" % (D_.__name__, how, " ".join(map(repr, v)), " ".join(map(repr, old)), x, f("p", .3))
    return run


KINDS = ["truncated", "general", "binomial", "poisson", "beta", "fractal", "special"]


def gen(rng, budget, tier):
    n = {"std": 60, "deep": 800}[budget]
    for k in range(n):
        for D_ in ALL:
            yield "%s %d" % (D_.__name__, rng.randint(1, 10 ** 9))
            yield "%s %d" % (D_.__name__, rng.randint(1, 10 ** 9))
        for s in KINDS:
            yield "%s %d" % (s, rng.randint(1, 10 ** 9))


def harness(scratch):
    src = ["random", "randomgenerator", "dSFMT"] + [D_.__name__.lower() for D_ in ALL] + ["beta", "betawithendmass", "generaldiscrete", "binomial", "poisson", "functions", "gamma"]
    return Harness(scratch, "dist.cpp", ["nrlib/random/%s.cpp" % s for s in src] + ["nrlib/math/constants.cpp"], gen,
                   "random parameters for every distribution class; densities, cumulative probabilities, quantiles and draws against closed forms and Boost.Math",
                   libs=("-Wl,--unresolved-symbols=ignore-all",))


TRUSTED = ["NRLib's special functions (erf, erfc, their inverses, gammln, gammp, invgammp, bico) and the libm functions enter the proofs as functions with their textbook laws; their values are compared with Boost.Math on samples",
           "a generator's Unif01 is in [0,1), Unif01Open in (0,1) (C12), Norm01 any number (C13)"]
ASSUMPTIONS = ["parameters in the range a distribution is defined for; a normal standard deviation is zero or above the code's zero tolerance"]
BOUNDED = ["Beta::ComputeQuantile, the total mass of Beta's tables, Poisson::Draw and the shape of the truncated normal draws (proved: they respect their limits): sampled against Boost.Math",
           "Binomial and GeneralDiscrete: number of outcomes any in the loops, sampled for sums of floating-point probabilities"]
