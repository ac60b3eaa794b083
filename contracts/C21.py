"""C21: counts, extremes, sums, means, variances and covariances of a range, with missing values left out."""
from .lib import *

TU = {"file": "stat.cpp"}
N = "NRLib::"
X, Y = z3.Function("x", T.Int, T.Real), z3.Function("y", T.Int, T.Real)
MISS = z3.Function("missing", T.Real, T.Bool)
n, n2 = I("n"), I("n2")
COUNT, TOTAL = I("count"), {}


def c_miss(ex, st, f, this, a):
    return MISS(norm(ex.argval(a[0], st)))


def start(c, K=None):
    ex = c.exec(dict({"NRLib::stat_tu::Missing::operator()": c_miss}, **(K or {})))
    ex.check_bounds = True
    st = State()
    for h in (n >= 0, n < 2 ** 31, n2 >= 0, n2 < 2 ** 31):
        st.assume(h)
    data = [ex.alloc(st, ArrV("double", Base("fn", lambda i, F=F: F(norm(i))), (), k), nm) for F, k, nm in ((X, n, "x"), (Y, n2, "y"))]
    return ex, st, data


def rng(l, k):
    return [Arg(val=PtrV(l.root, l.path, iv(0))), Arg(val=PtrV(l.root, l.path, k))]


def m_(ex, st):
    return Arg(lv=ex.alloc(st, Rec("NRLib::stat_tu::Missing", {}), "missing"))


def of(data, a):
    """the whole range of one of the data sets, or None"""
    x, y = a[0].val, a[1].val
    for l, k, nm in ((data[0], n, "x"), (data[1], n2, "y")):
        if isinstance(x, PtrV) and isinstance(y, PtrV) and x.root == l.root == y.root and x.off is not None and y.off is not None and norm(x.off).eq(iv(0)) and norm(y.off).eq(norm(k)):
            return nm
    return None


def vals(ex, st, a):
    return [Arg(val=ex.argval(x, st)) for x in a[:2]]


def fn(c, nm, st, ex, args, extra):
    """call the wrapper that names the instance"""
    f = [f for f in c.P.find("NRLib::stat_tu::" + nm, len(args) + len(extra))]
    if len(f) != 1:
        raise ToolLimit("no instance " + nm)
    r = ex.call_func(f[0], None, args + extra, st, None)
    return ex.load(st, r) if isinstance(r, LV) else r


present = lambda t: z3.Not(MISS(X(norm(t))))


def u_count(c):
    ex, st, data = start(c)
    c.cover(ex, st, "any range")
    r = fn(c, "count", st, ex, rng(data[0], n), [])
    ex.oblige(st, r == n, "number of elements", where=N + "Count")
    s = st.clone()
    r = fn(c, "count_m", s, ex, rng(data[0], n), [m_(ex, s)])
    whole(ex, s, r, lambda t: z3.If(present(t), iv(1), iv(0)), N + "Count", "number of present elements")


def whole(ex, st, r, elem, w, name):
    """sum over the range; an empty range may be handled apart"""
    s = st.clone()
    s.assume(n >= 1)
    r = norm(r)
    if r.get_id() not in getattr(ex, "sums", {}):
        cand = [v[0] for v in getattr(ex, "sums", {}).values() if ex.decide(s, r == v[0], 5000)]
        if not cand:
            raise ToolLimit("%s: not a recognised sum" % name)
        ex.oblige(s, r == cand[0], name + ": the result is the sum", where=w)
        s0 = st.clone()
        s0.assume(n == 0)
        ex.oblige(s0, r == 0, name + ": nothing is summed for an empty range", where=w)
        r = cand[0]
    summed(ex, st, r, n, elem, w, name)


def u_sum(c):
    ex, st, data = start(c)
    r = fn(c, "sum", st, ex, rng(data[0], n), [])
    whole(ex, st, r, lambda t: X(norm(t)), N + "Sum", "sum of the elements")
    ex, st, data = start(c)
    r = fn(c, "sum_m", st, ex, rng(data[0], n), [m_(ex, st)])
    whole(ex, st, r, lambda t: z3.If(present(t), X(norm(t)), rv(0)), N + "Sum", "sum of the present elements")


def callees(data):
    """contracts of Count and Sum for whole ranges"""
    def cc(ex, st, f, this, a):
        k = of(data(), vals(ex, st, a))
        if k is None:
            return NotImplemented
        return {"x": n, "y": n2}[k] if len(a) == 2 else I("present_" + k)

    def cs(ex, st, f, this, a):
        k = of(data(), vals(ex, st, a))
        if k is None:
            return NotImplemented
        return R("sum_" + k) if len(a) == 2 else R("presum_" + k)
    return {N + "Count": cc, N + "Sum": cs}


def setup(c, wrap):
    box = {}
    ex, st, data = start(c, callees(lambda: box["d"]))
    box["d"] = data
    for k, m in (("x", n), ("y", n2)):
        st.assume(I("present_" + k) >= 0)
        st.assume(I("present_" + k) <= m)
    return ex, st, data


def outcome(ex, st, r, cnt, w, val, what):
    """value for data; refusal or zero without"""
    may = z3.Bool("may")
    s = st.clone()
    s.assume(cnt == 0)
    ex.oblige(s, z3.And(z3.Not(may), norm(r) == 0), what + " without data is zero, if not refused", where=w)
    for t in ex.throws[0]:
        ex.oblige(t, z3.And(may, cnt == 0), what + " is refused only without data and when that is asked for", where=w)
    return val


def thrown(ex, k):
    out = ex.throws[0][k:]
    return out


def u_mean(miss):
    def run(c):
        ex, st, data = setup(c, None)
        may = z3.Bool("may")
        c.cover(ex, st, "any range")
        r = fn(c, "mean_m" if miss else "mean", st, ex, rng(data[0], n), ([m_(ex, st)] if miss else []) + [Arg(val=may)])
        cnt, tot = (I("present_x"), R("presum_x")) if miss else (n, R("sum_x"))
        w = N + "Mean"
        outcome(ex, st, r, cnt, w, None, "mean")
        s = st.clone()
        s.assume(cnt >= 1)
        ex.oblige(s, norm(r) * z3.ToReal(cnt) == tot, "mean times number is the sum", where=w)
    return run


def u_var(miss):
    def run(c):
        ex, st, data = setup(c, None)
        may = z3.Bool("may")
        c.cover(ex, st, "any range")
        r = norm(fn(c, "var_m" if miss else "var", st, ex, rng(data[0], n), ([m_(ex, st)] if miss else []) + [Arg(val=may)]))
        cnt, tot = (I("present_x"), R("presum_x")) if miss else (n, R("sum_x"))
        w = N + "Var"
        outcome(ex, st, r, cnt, w, None, "variance")
        s = st.clone()
        s.assume(cnt == 1)
        ex.oblige(s, r == 0, "variance of one element is zero", where=w)
        s = st.clone()
        s.assume(cnt >= 2)
        mean = tot / z3.ToReal(cnt)
        dev = lambda t: norm((X(norm(t)) - mean) * (X(norm(t)) - mean))
        squares(ex, s, r, cnt, (lambda t: z3.If(present(t), dev(t), rv(0))) if miss else dev, w, "variance")
    return run


def squares(ex, s, r, cnt, elem, w, name):
    cand = [v[0] for v in getattr(ex, "sums", {}).values() if v[0].sort() == T.Real and ex.decide(s, r * z3.ToReal(cnt - 1) == v[0], 5000)]
    if not cand:
        raise ToolLimit(name + ": not a recognised quotient of a sum")
    ex.oblige(s, r * z3.ToReal(cnt - 1) == cand[0], name + " times (number - 1) is the sum of products of deviations", where=w)
    summed(ex, s, cand[0], n, elem, w, name + " numerator")


def u_cov(c):
    ex, st, data = setup(c, None)
    may = z3.Bool("may")
    c.cover(ex, st, "any two ranges")
    r = norm(fn(c, "cov", st, ex, rng(data[0], n) + rng(data[1], n2), [Arg(val=may)]))
    w = N + "Cov"
    s = st.clone()
    s.assume(z3.Or(n != n2, n == 0))
    ex.oblige(s, z3.And(z3.Not(may), r == 0), "covariance without pairs is zero, if not refused", where=w)
    for t in ex.throws[0]:
        ex.oblige(t, z3.And(may, z3.Or(n != n2, n == 0)), "covariance is refused only without pairs and when that is asked for", where=w)
    s = st.clone()
    s.assume(n == n2)
    s1 = s.clone()
    s1.assume(n == 1)
    ex.oblige(s1, r == 0, "covariance of one pair is zero (as its variances)", where=w)
    s.assume(n >= 2)
    dev = lambda t: norm((X(norm(t)) - R("sum_x") / z3.ToReal(n)) * (Y(norm(t)) - R("sum_y") / z3.ToReal(n)))
    squares(ex, s, r, n, dev, w, "covariance")


def u_extreme(low, miss):
    def run(c):
        ex, st, data = start(c)
        t = I("t")
        st.assume(t >= 0)
        st.assume(t < n)
        le = (lambda a, b: a <= b) if low else (lambda a, b: a >= b)
        ok = present if miss else (lambda i: z3.BoolVal(True))
        w = N + ("MinElement" if low else "MaxElement")

        def templates(ex, s, vs):
            ints = [v for v in vs if isinstance(v, z3.ExprRef) and v.sort() == T.Int]
            out = [v >= 0 for v in ints] + [v <= n for v in ints] + [v >= 1 for v in ints]
            out += [z3.Implies(t < v, z3.Not(ok(t))) for v in ints]
            for a, v in enumerate(ints):
                out += [z3.Implies(v < n, ok(v)), z3.And(v < n, ok(v))]
                for b, x in enumerate(ints):
                    if a != b:
                        out += [v < x, v <= x, z3.Implies(z3.And(t < x, ok(t)), le(X(v), X(t)))]
            return out
        ex.loop_candidates, ex.prefer_candidates = templates, True
        s = st.clone()
        r = fn(c, ("min" if low else "max") + ("_m" if miss else ""), s, ex, rng(data[0], n), [m_(ex, s)] if miss else [])
        if not isinstance(r, PtrV) or r.off is None:
            raise ToolLimit("not an iterator")
        ex.oblige(s, z3.BoolVal(r.root == data[0].root), "an iterator into the range", where=w)
        k = norm(r.off)
        ex.oblige(s, z3.And(k >= 0, k <= n), "within the range", where=w)
        s2 = s.clone()
        s2.assume(ok(t))
        ex.oblige(s2, z3.And(k < n, ok(k)), "a present element is found if there is one", where=w)
        ex.oblige(s2, le(X(k), X(t)), "no present element is beyond it", where=w)
        s2 = s.clone()
        s2.assume(k < n)
        ex.oblige(s2, ok(k), "the element found is present", where=w)
        ex.loop_candidates, ex.prefer_candidates = None, False
    return run


def u_whole(c):
    """forms for a whole collection: the same as for its range"""
    for nm, tgt, miss in (("mean_c", "Mean", False), ("mean_cm", "Mean", True), ("var_c", "Var", False), ("var_cm", "Var", True), ("cov_c", "Cov", False)):
        got = []

        def k(ex, st, f, this, a):
            v = [ex.argval(x, st) if x.val is not None or x.lv is not None else ex.ev(ex.default_arg(f, i), st) for i, x in enumerate(a)]
            if not isinstance(v[0], PtrV):
                return NotImplemented
            got.append((st.clone(), v))
            return R("answer")
        ex, st, data = start(c, {N + tgt: k})
        a = [Arg(lv=data[0])] + ([Arg(lv=data[1])] if tgt == "Cov" else []) + ([m_(ex, st)] if miss else [])
        r = fn(c, nm, st, ex, a, [])
        w = N + tgt
        if len(got) != 1:
            raise ToolLimit("form for a collection does not use the form for a range")
        ex.oblige(st, norm(r) == R("answer"), nm + ": the answer for the range", where=w)
        s, v = got[0]
        for j, (F, m) in enumerate([(X, n)] + ([(Y, n2)] if tgt == "Cov" else [])):
            b, e = v[2 * j], v[2 * j + 1]
            ok = isinstance(e, PtrV) and b.root == e.root
            ex.oblige(s, z3.BoolVal(ok), nm + ": one range", where=w)
            if ok:
                i = I("i")
                s2 = s.clone()
                s2.assume(z3.And(i >= 0, i < m))
                ex.oblige(s2, z3.And(norm(b.off) == 0, norm(e.off) == m), nm + ": the whole collection", where=w)
                ex.oblige(s2, ex.elem(s2, ex.load(s2, LV(b.root, b.path)), i) == F(i), nm + ": its elements", where=w)
        last = v[-1]
        ex.oblige(s, last if isinstance(last, z3.ExprRef) and last.sort() == T.Bool else z3.BoolVal(False), nm + ": refusal is the default", where=w)


def u_refusal(c):
    """the throwing flag omitted: refusal without data"""
    for nm, miss in (("mean_d", False), ("mean_md", True), ("var_d", False), ("var_md", True), ("cov_d", False)):
        ex, st, data = setup(c, None)
        cov = nm == "cov_d"
        c.cover(ex, st, nm)
        fn(c, nm, st, ex, rng(data[0], n) + (rng(data[1], n2) if cov else []), [m_(ex, st)] if miss else [])
        w = N + {"m": "Mean", "v": "Var", "c": "Cov"}[nm[0]]
        st.assume(z3.Or(n != n2, n == 0) if cov else (I("present_x") if miss else n) == 0)
        ex.oblige(st, z3.BoolVal(False), "refused without data when the flag is omitted (%s)" % nm, where=w)


def units():
    us = [("counting", u_count), ("summing", u_sum), ("covariance", u_cov), ("whole collections", u_whole), ("omitted flag", u_refusal)]
    for miss in (False, True):
        x = " [missing values]" if miss else ""
        us += [("mean" + x, u_mean(miss)), ("variance" + x, u_var(miss)), ("smallest" + x, u_extreme(True, miss)), ("largest" + x, u_extreme(False, miss))]
    return [(TU, Unit(a, f, tmo=60)) for a, f in us]


ASSUMPTIONS = ["fewer than 2^31 elements", "ranges of std::vector<double>; the test for missing values is any predicate on the value"]


def gen(rng, budget, tier):
    for k in range({"std": 3000, "deep": 40000}[budget]):
        yield "all %d" % rng.randint(1, 10 ** 9)


def harness(scratch):
    return Harness(scratch, "stat.cpp", [], gen, "random ranges (empty, one element, all missing) against direct formulas")
