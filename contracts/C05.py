"""C05: the FFT length chosen for a requested length."""
import itertools
import z3
from cxxvc import terms as T
from cxxvc.terms import iv, norm
from cxxvc.execu import Arg
from cxxvc.values import *
from cxxvc.unit import Unit
from cxxvc.harness import Harness

CORE = {"file": "core.cpp"}
Q = "NRLib::FindNewSizeWithPadding"


def smooth(a, b, c, d):
    return norm(T.ipow(2, a) * T.ipow(3, b) * T.ipow(5, c) * T.ipow(7, d))


def unit(even):
    def run(c):
        ex = c.exec()
        st = State()
        m = z3.Int("m")
        st.assume(m >= 1)
        st.assume(m < 2 ** 31)
        c.cover(ex, st, "1 <= m < 2^31")
        f = c.fn(Q, 2)
        r = ex.call_func(f, None, [Arg(val=m), Arg(val=z3.BoolVal(even))], st, None)
        ex.oblige(st, r >= m, "result>=requested", where=Q)
        # every value the search can return is a product of powers of 2, 3, 5, 7: the final value is the
        # initial value or one of the values tried
        mr = getattr(ex, "minreds", {}).get(r.get_id())
        if mr is None:
            raise ToolLimit("result is not the running minimum of the candidates")
        ex.oblige(st, is_smooth(ex, st, mr["init"]), "initial candidate is 7-smooth", where=Q)
        if even:
            ex.oblige(st, is_even(mr["init"]), "initial candidate is even", where=Q)
        for bs, d, g, fv in mr["entries"]:
            s = st.clone()
            s.assume(d)
            s.assume(g)
            if even:
                ex.oblige(s, is_even(fv), "candidates are even", where=Q)
            ex.oblige(s, is_smooth(ex, s, fv), "candidates are 7-smooth", where=Q)
        # minimality: let v = 2^a 3^b 5^c 7^d >= m be the least admissible 7-smooth number; then result <= v.
        # Each step is an obligation of its own with only the facts it needs; the last one uses the steps.
        ab = [z3.Int(x) for x in "abcd"]
        low = [1 if even and k == 0 else 0 for k in range(4)]
        pr = (2, 3, 5, 7)
        v = smooth(*ab)
        P = [T.ipow(pr[k], ab[k]) for k in range(4)]
        s = State()
        for h in st.bools():
            if not (z3.is_app(h) and h.decl().kind() == z3.Z3_OP_OR):
                s.assume(h)
        lm = T.mathfn("log", T.toreal(m))
        for k in range(4):
            s.assume(ab[k] >= low[k])
        s.assume(v >= m)
        # every factor is at least one, hence each factor is at most the product
        s.assume(v >= P[0])
        for k in range(4):
            q = norm(lm / T.mathfn("log", T.rv(pr[k])))
            h = State()
            h.assume(m >= 1)
            ex.oblige(h, q >= 0, "bound on the exponent of %d is not negative" % pr[k], where=Q)
            s.assume(q >= 0)
            h = State()
            h.assume(m == 1)
            ex.oblige(h, q == 0, "bound on the exponent of %d is 0 for length 1" % pr[k], where=Q)
            s.assume(z3.Implies(m == 1, q == 0))
            # one factor less is not admissible (v is the least), and that product is at least P^(exponent-1)
            h = State()
            h.assume(m >= 1)
            h.assume(ab[k] > low[k])
            h.assume(T.ipow(pr[k], norm(ab[k] - 1)) < m)
            g = T.toreal(norm(ab[k] - 1)) < q
            ex.oblige(h, g, "exponent of %d in the least admissible number is within the bound" % pr[k], where=Q)
            s.assume(z3.Implies(ab[k] > low[k], g))
        n = 0
        for bs, d, g, fv in mr["entries"]:
            for inst in itertools.product(ab + [iv(0)], repeat=len(bs)):
                pairs = list(zip(bs, inst))
                if z3.is_true(T.beq(subst(fv, pairs), v)):
                    s.assume(z3.Implies(band(subst(d, pairs), subst(g, pairs)), r <= v))
                    n += 1
        if not n:
            raise ToolLimit("candidate enumeration not recognised")
        ex.oblige(s, r <= v, "result is the least 7-smooth number >= requested", where=Q)
        ex.obls[-1].budgets = (20000, 1000, 20000)
    return run


from cxxvc.terms import band


def is_smooth(ex, st, e):
    """e is syntactically a product of powers of 2,3,5,7 (exponents >= 0)"""
    if T.is_num(e):
        n = int(T.num(e))
        for p in (2, 3, 5, 7):
            while n > 1 and n % p == 0:
                n //= p
        return z3.BoolVal(n == 1)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return z3.And(z3.Implies(e.arg(0), is_smooth(ex, st, e.arg(1))), z3.Implies(z3.Not(e.arg(0)), is_smooth(ex, st, e.arg(2))))
    p = T.poly(e)
    if len(p) != 1:
        raise ToolLimit("candidate is not a product of powers")
    (m, c), = p.items()
    gs = [is_smooth(ex, st, iv(int(c)))]
    for a in m:
        x = T._atoms[a]
        if x.decl().name() != "ipow" or not T.is_num(x.arg(0)):
            raise ToolLimit("candidate is not a product of powers")
        gs.append(is_smooth(ex, st, x.arg(0)))
        gs.append(x.arg(1) >= 0)
    return z3.And(*gs)


def is_even(e):
    """a sufficient structural condition: the product has a factor 2^n with n >= 1 (or an even constant)"""
    if T.is_num(e):
        return z3.BoolVal(int(T.num(e)) % 2 == 0)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return z3.And(z3.Implies(e.arg(0), is_even(e.arg(1))), z3.Implies(z3.Not(e.arg(0)), is_even(e.arg(2))))
    (m, c), = T.poly(e).items()
    gs = [z3.BoolVal(int(c) % 2 == 0)]
    for a in m:
        x = T._atoms[a]
        if x.decl().name() == "ipow" and T.is_num(x.arg(0)) and int(T.num(x.arg(0))) % 2 == 0:
            gs.append(x.arg(1) >= 1)
    return z3.Or(*gs)


def replay(env, o):
    if "m" in env:
        for e in (0, 1):
            yield "size %d %d" % (int(env["m"]), e)


def units():
    return [(CORE, Unit(Q + " [any parity]", unit(False), replay=replay, tmo=200)),
            (CORE, Unit(Q + " [even required]", unit(True), replay=replay, tmo=200))]


def gen(rng, budget, tier):
    deep = budget == "deep"
    for a in range(1, 20000 if not deep else 60000, 500):
        yield "range %d %d" % (a, a + 499)
    for k in range(1, 31):
        for d in (-2, -1, 0, 1, 2):
            m = 2 ** k + d
            if m >= 1:
                yield "size %d 0" % m
                yield "size %d 1" % m
    for p in (3, 5, 7):
        v = p
        while v < 2 ** 31:
            for d in (-1, 0, 1):
                yield "size %d 0" % (v + d)
                yield "size %d 1" % (v + d)
            v *= p
    sm = sorted({2 ** a * 3 ** b * 5 ** c * 7 ** d for a in range(32) for b in range(21) for c in range(14) for d in range(12)
                 if 2 ** a * 3 ** b * 5 ** c * 7 ** d < 2 ** 31})
    for v in rng.sample(sm, 400 if not deep else 2500):
        yield "size %d 0" % v
        yield "size %d 1" % v
        yield "size %d %d" % (v + 1, rng.randint(0, 1))
    for _ in range(300 if not deep else 3000):
        m = int(2 ** rng.uniform(0, 31))
        yield "size %d %d" % (m, rng.randint(0, 1))


def harness(scratch):
    return Harness(scratch, "size.cpp", ["nrlib/fft/fft.cpp"], gen,
                   "requested lengths: every m up to 20000, m near powers of 2, 3, 5, 7, random 7-smooth numbers and their successors, log-uniform m < 2^31; both parities")


ASSUMPTIONS = ["the search counters do not overflow for requested lengths below 2^31",
               "lemma used: a non-empty set of positive integers has a least element; the least admissible number has no superfluous factor",
               "product of integers >= 1 is >= each factor (instantiated as a hypothesis)"]
