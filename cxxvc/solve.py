"""Discharging obligations: z3, then nlsat on the Ackermannised problem, then cvc5."""
import itertools, os, subprocess, tempfile, time
import z3
from . import terms as T
from .terms import rv, norm, poly


def apps(es, names=None):
    out = {}
    for x in T.subterms(es):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
            n = x.decl().name()
            if names is None or n in names:
                out.setdefault(n, {})[x.get_id()] = x
    return {n: list(d.values()) for n, d in out.items()}


def axioms(es, level=1):
    """instances of the mathematical axioms of exp, sqrt, sin, cos, pow, flt for the terms in es"""
    ax = []
    A = apps(es)
    for s in A.get("sqrt", []):
        x = s.arg(0)
        ax.append(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)))
    sq = A.get("sqrt", [])
    for a, b in itertools.combinations(sq, 2):
        x, y = a.arg(0), b.arg(0)
        ax.append(z3.Implies(z3.And(x >= 0, y >= 0), (x <= y) == (a <= b)))
        ax.append(z3.Implies(x == y, a == b))
    es_ = A.get("exp", [])
    for e in es_:
        x = e.arg(0)
        ax.append(e > 0)
        ax.append(z3.Implies(x <= 0, e <= 1))
        ax.append(z3.Implies(x <= 0, e * (1 - x + x * x / 2 - x * x * x / 6) <= 1))
        ax.append(z3.Implies(x >= 0, e >= 1 + x + x * x / 2 + x * x * x / 6))
        ax.append(z3.Implies(x == 0, e == 1))
    for a, b in itertools.permutations(es_, 2):
        s, t = a.arg(0), b.arg(0)
        x = norm(t - s)
        ax.append(z3.Implies(x >= 0, b >= a * (1 + x + x * x / 2 + x * x * x / 6)))
    args = {}
    for n in ("sin", "cos"):
        for e in A.get(n, []):
            args.setdefault(e.arg(0).get_id(), {})[n] = e
            ax += [e >= -1, e <= 1]
    for d in args.values():
        if len(d) == 2:
            ax.append(d["sin"] * d["sin"] + d["cos"] * d["cos"] == 1)
    pw = A.get("pow", [])
    for p in pw:
        x, y = p.arg(0), p.arg(1)
        ax.append(z3.Implies(x > 0, p > 0))
        ax.append(z3.Implies(x >= 0, p >= 0))
        ax.append(z3.Implies(z3.And(x == 0, y > 0), p == 0))
        ax.append(z3.Implies(z3.And(x > 0, y == 0), p == 1))
        ax.append(z3.Implies(x == 1, p == 1))
    for a, b in itertools.permutations(pw, 2):
        if z3.is_true(T.beq(a.arg(1), b.arg(1))):
            ax.append(z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) <= b.arg(0), a.arg(1) > 0), a <= b))
    ax += log_axioms(A)
    for n in T.EVEN:
        for a in A.get(n, []):
            ax.append(a == a.decl()(*[norm(-x) for x in a.children()]))
    for f in A.get("flt", []):
        x = f.arg(0)
        eps = rv(T.Fraction(1, 2 ** 24))
        ax.append(z3.Implies(x >= 0, z3.And(f >= x * (1 - eps), f <= x * (1 + eps))))
        ax.append(z3.Implies(x <= 0, z3.And(f <= x * (1 - eps), f >= x * (1 + eps))))
    return ax


def log_axioms(A):
    """log of positive numbers, integer powers of integer bases and how they relate"""
    ax = []
    logs = A.get("log", [])
    ips = A.get("ipow", [])
    if not logs and not ips:
        return ax
    for l in logs:
        x = l.arg(0)
        ax.append(z3.Implies(x >= 1, l >= 0))
        ax.append(z3.Implies(x > 1, l > 0))
        ax.append(z3.Implies(x == 1, l == 0))
        ax.append(z3.Implies(z3.And(x > 0, x < 1), l < 0))
    for a, b in itertools.combinations(logs, 2):
        x, y = a.arg(0), b.arg(0)
        ax.append(z3.Implies(z3.And(x > 0, y > 0), (x <= y) == (a <= b)))
    lf = T.mathfn
    for p in ips:
        b, n = p.arg(0), p.arg(1)
        ax.append(z3.Implies(n >= 0, z3.And(p >= 1, p >= n + 1)))
        ax.append(z3.Implies(n == 0, p == 1))
        ax.append(z3.Implies(n >= 1, p % b == 0))
        for l in logs:
            x = l.arg(0)
            if T.is_num(x):
                continue
            lb = lf("log", T.toreal(b))
            ax.append(lb > 0)
            ax.append(z3.Implies(z3.And(n >= 0, x > 0), (z3.ToReal(p) >= x) == (z3.ToReal(n) * lb >= l)))
    for p, q in itertools.combinations(ips, 2):
        if p.arg(0).eq(q.arg(0)):
            b = p.arg(0)
            m, n = p.arg(1), q.arg(1)
            ax.append(z3.Implies(z3.And(m >= 0, n >= 0), (m <= n) == (p <= q)))
            ax.append(z3.Implies(z3.And(m >= 0, n == m + 1), q == b * p))
            ax.append(z3.Implies(z3.And(n >= 0, m == n + 1), p == b * q))
    return ax


def ackermann(es):
    """replace uninterpreted applications by constants (sound for unsat: congruence dropped)"""
    sub = []
    done = {}
    # innermost first is unnecessary: substitute handles maximal terms top-down through fresh naming
    A = apps(es)
    terms_ = [t for l in A.values() for t in l]
    terms_.sort(key=lambda t: -depth(t))
    for t in terms_:
        c = T.fresh("ack", t.sort())
        sub.append((t, c))
    # substitute larger terms first
    out = []
    for e in es:
        for t, c in sub:
            pass
        out.append(z3.substitute(e, *sub) if sub else e)
    # nested applications: arguments inside replaced terms vanish with them
    return out


_depth = {}


def depth(e):
    i = e.get_id()
    d = _depth.get(i)
    if d is None:
        d = (e, 1 + max([depth(c) for c in e.children()] or [0]))
        _depth[i] = d
    return d[1]


def relevant(hyps, goal, ax):
    return hyps


def split_nf(hyps, goal, n):
    """case split on the ite conditions of an equality, conditions decided by the hypotheses pruned first;
    each remaining case by polynomial normal form"""
    n[0] += 1
    if n[0] > n[1]:
        return False
    g = T.renorm(goal)
    if z3.is_true(g):
        return True
    if not z3.is_eq(g):
        return z3.is_true(z3.simplify(g))
    if z3.is_true(T.beq(g.arg(0), g.arg(1))):
        return True
    cs = T.ite_conds(g, 30)
    if not cs:
        return infeasible(hyps)
    cs.sort(key=depth)
    open_, sub = [], []
    for c in cs:
        if infeasible(hyps + [z3.Not(c)], 100):
            sub.append((c, z3.BoolVal(True)))
        elif infeasible(hyps + [c], 100):
            sub.append((c, z3.BoolVal(False)))
        else:
            open_.append(c)
            if sub or len(open_) > 3:
                break
    if sub:
        return split_nf(hyps, z3.substitute(g, *sub), n)
    c = open_[0]
    for v in (True, False):
        h = c if v else z3.Not(c)
        if not split_nf(hyps + [h], z3.substitute(g, (c, z3.BoolVal(v))), n):
            return False
    return True


def divmod_simplify(e, hyps):
    """(q*d + r) div d = q and mod d = r where the hypotheses give 0 <= r < d"""
    memo = {}

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        if not z3.is_app(x) or x.num_args() == 0:
            memo[i] = (x, x)
            return x
        ch = [go(c) for c in x.children()]
        r = x if all(a.eq(b) for a, b in zip(ch, x.children())) else x.decl()(*ch)
        k = r.decl().kind()
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not T.is_num(r.arg(1)):
            d = norm(r.arg(1))
            q, m = T.pdiv(poly(r.arg(0)), poly(d))
            if all(v.denominator == 1 for v in list(q.values()) + list(m.values())):
                mt = T.from_poly(m, T.Int)
                if infeasible(hyps + [z3.Not(z3.And(mt >= 0, mt < d))], 1000):
                    r = T.from_poly(q, T.Int) if k == z3.Z3_OP_IDIV else mt
        if r.sort() in (T.Int, T.Real):
            r = norm(r)
        memo[i] = (x, r)
        return r
    return go(e)


def has_divmod(e):
    return any(z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not T.is_num(x.arg(1)) for x in T.subterms([e]))


def infeasible(hyps, tmo=400):
    s = z3.Solver()
    s.set("timeout", tmo)
    for h in hyps:
        s.add(h)
    return s.check() == z3.unsat


def linear_consequence(goal, hyps):
    """the goal equation is a linear combination of equations among the hypotheses (exact elimination over monomials)"""
    rows = []
    for h in hyps:
        if z3.is_eq(h) and h.arg(0).sort() == T.Real:
            p = T.padd(T.poly(h.arg(0)), T.poly(h.arg(1)), -1)
            if p and len(p) <= 200:
                rows.append(p)
    if not rows or len(rows) > 60:
        return False
    g = T.padd(T.poly(goal.arg(0)), T.poly(goal.arg(1)), -1)
    if len(g) > 400:
        return False
    basis = []                                # (pivot monomial, polynomial with coefficient one there)
    def reduce(p):
        for m, b in basis:
            c = p.get(m)
            if c:
                p = T.padd(p, b, -c)
        return p
    for r in rows:
        r = reduce(r)
        if not r:
            continue
        m = max(r, key=lambda m: (len(m), m))
        c = r[m]
        r = {k: v / c for k, v in r.items()}
        basis = [(mm, T.padd(b, r, -b[m]) if b.get(m) else b) for mm, b in basis] + [(m, r)]
    return not reduce(g)


def discharge(o, t1=4000, t2=8000, t3=15000, extra=(), cvc5=True):
    t0 = time.time()
    goal = o.goal
    if z3.is_eq(goal) and goal.arg(0).sort() in (T.Real, T.Int) and z3.is_true(T.beq(goal.arg(0), goal.arg(1))):
        o.status, o.backend, o.t = "proved", "polynomial normal form", time.time() - t0
        return o
    if has_divmod(goal):
        goal = divmod_simplify(goal, list(o.hyps))
        if z3.is_true(z3.simplify(goal)) or z3.is_eq(goal) and goal.arg(0).sort() in (T.Real, T.Int) and z3.is_true(T.beq(goal.arg(0), goal.arg(1))):
            o.status, o.backend, o.t = "proved", "index arithmetic + polynomial normal form", time.time() - t0
            return o
    if z3.is_eq(goal) and goal.arg(0).sort() == T.Real and linear_consequence(goal, o.hyps):
        o.status, o.backend, o.t = "proved", "linear combination of hypotheses", time.time() - t0
        return o
    if z3.is_eq(goal) and goal.arg(0).sort() in (T.Real, T.Int):
        cs = T.ite_conds(goal)
        rg = T.renorm(goal) if not cs and T.EVEN else None
        if rg is not None and (z3.is_true(rg) or z3.is_eq(rg) and z3.is_true(T.beq(rg.arg(0), rg.arg(1)))):
            o.status, o.backend, o.t = "proved", "polynomial normal form", time.time() - t0
            return o
        if cs and split_nf(list(o.hyps), goal, [0, 80]):
            o.status, o.backend, o.t = "proved", "case split + polynomial normal form", time.time() - t0
            return o
    goal = z3.simplify(goal)
    if z3.is_true(goal):
        o.status, o.backend, o.t = "proved", "simplifier", time.time() - t0
        return o
    hyps = list(o.hyps) + list(extra)
    ng = z3.Not(goal)
    ax = axioms(hyps + [ng])
    tried = []
    s = z3.Solver()
    s.set("timeout", t1)
    for h in hyps + ax:
        s.add(h)
    s.add(ng)
    r = s.check()
    tried.append("z3:%s" % r)
    if r == z3.unsat:
        o.status, o.backend = "proved", "z3"
    else:
        if r == z3.sat:
            o.model = s.model()
            o.status, o.backend = "refuted", "z3"
        else:
            try:
                es = ackermann(hyps + ax + [ng])
                tac = z3.Then("simplify", "solve-eqs", "purify-arith", "qfnra-nlsat") if not has_int(es) else None
                if tac is not None:
                    s2 = z3.TryFor(z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "elim-term-ite", "qfnra-nlsat"), t2).solver()
                    for h in es:
                        s2.add(h)
                    r2 = s2.check()
                    tried.append("nlsat:%s" % r2)
                    if r2 == z3.unsat:
                        o.status, o.backend = "proved", "z3-nlsat"
            except z3.Z3Exception as e:
                tried.append("nlsat:%s" % str(e)[:40])
            if o.status is None and cvc5:
                r3 = run_cvc5(hyps + ax + [ng], t3)
                tried.append("cvc5:%s" % r3)
                if r3 == "unsat":
                    o.status, o.backend = "proved", "cvc5"
            if o.status is None:
                o.status, o.backend = "unknown", ",".join(tried)
    o.detail = " ".join(tried)
    o.t = time.time() - t0
    return o


def has_int(es):
    for x in T.subterms(es):
        if z3.is_const(x) and x.sort() == T.Int and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return True
    return False


def smt2(es):
    s = z3.Solver()
    for e in es:
        s.add(e)
    return "(set-logic ALL)\n" + s.to_smt2()


def run_cvc5(es, tmo):
    p = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
    try:
        p.write(smt2(es))
        p.close()
        r = subprocess.run(["cvc5", "--tlimit=%d" % tmo, "--nl-ext-tplanes", p.name], capture_output=True, text=True,
                           timeout=tmo / 1000 + 5)
        out = r.stdout.strip().split("\n")[0] if r.stdout.strip() else "error"
        return out if out in ("sat", "unsat", "unknown") else "unknown"
    except Exception as e:
        return "unknown"
    finally:
        os.unlink(p.name)
