"""Terms: z3 expressions, polynomial normal form, mathematical functions and their axioms."""
from fractions import Fraction
import z3

Int, Real, Bool, Str = z3.IntSort(), z3.RealSort(), z3.BoolSort(), z3.StringSort()
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

_fresh = [0]


def fresh(name, sort):
    _fresh[0] += 1
    return z3.Const("%s!%d" % (name, _fresh[0]), sort)


def iv(n):
    return z3.IntVal(n)


def rv(q):
    if isinstance(q, float):
        q = Fraction(q)
    if isinstance(q, Fraction):
        return z3.Q(q.numerator, q.denominator) if q.denominator != 1 else z3.RealVal(q.numerator)
    return z3.RealVal(q)


def is_num(e):
    return z3.is_int_value(e) or z3.is_rational_value(e)


def num(e):
    """python Fraction/int of a numeral"""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


# ---------------------------------------------------------------- math functions
FN = {}


def mathfn(name, *args):
    f = FN.get((name, len(args)))
    if f is None:
        f = z3.Function(name, *([Real] * len(args)), Real)
        FN[(name, len(args))] = f
    return f(*[norm(toreal(a)) for a in args])


ipow_f = z3.Function("ipow", Int, Int, Int)


def ipow(b, n):
    """b^n over the integers (b a numeral >= 2, n >= 0)"""
    n = norm(n)
    if is_num(n) and 0 <= num(n) <= 200:
        return iv(num(b) ** num(n) if not isinstance(b, int) else b ** num(n))
    return ipow_f(iv(b) if isinstance(b, int) else b, n)


def toreal(e):
    if isinstance(e, (int, float, Fraction)):
        return rv(e)
    if e.sort() == Int:
        return norm(z3.ToReal(e))
    return e


# ---------------------------------------------------------------- polynomials
# poly: dict  monomial(tuple of atom keys, sorted) -> Fraction
_atoms = {}      # key(int) -> expr
_atomid = {}     # z3 ast id -> key


def atom_key(e):
    i = e.get_id()
    k = _atomid.get(i)
    if k is None:
        k = len(_atoms) + 1
        _atoms[k] = e
        _atomid[i] = k
    return k


def padd(a, b, f=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + f * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


_pcache = {}
_keep = []


class TooBig(Exception):
    pass


def poly(e):
    i = e.get_id()
    p = _pcache.get(i)
    if p is not None:
        return p[1]
    p = _poly(e)
    _pcache[i] = (e, p)
    return p


def _poly(e):
    if z3.is_int_value(e):
        n = e.as_long()
        return {(): Fraction(n)} if n else {}
    if z3.is_rational_value(e):
        q = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return {(): q} if q else {}
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in e.children():
            r = padd(r, poly(c))
        return r
    if k == z3.Z3_OP_SUB:
        ch = e.children()
        r = poly(ch[0])
        for c in ch[1:]:
            r = padd(r, poly(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return padd({}, poly(e.arg(0)), -1)
    if k == z3.Z3_OP_MUL:
        r = {(): Fraction(1)}
        for c in e.children():
            r = pmul(r, poly(c))
            if len(r) > 400:
                return {(atom_key(e),): Fraction(1)}
        return r
    if k == z3.Z3_OP_DIV:
        num_, den = poly(e.arg(0)), poly(e.arg(1))
        if len(den) == 1:
            (m, c), = den.items()
            inv = {tuple(sorted(atom_key(1 / _atoms[a]) for a in m)): 1 / c}
            return pmul(num_, inv)
        if not den:
            return {(atom_key(e),): Fraction(1)}
        d = from_poly(den, Real)
        return pmul(num_, {(atom_key(1 / d),): Fraction(1)})
    if k == z3.Z3_OP_TO_REAL:
        p = poly(e.arg(0))
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and c == 1:
                a = _atoms[m[0]]
                return {(atom_key(z3.ToReal(a)),): Fraction(1)}
        r = {}
        for m, c in p.items():
            r[tuple(sorted(atom_key(z3.ToReal(_atoms[a])) for a in m))] = c
        return r
    if k == z3.Z3_OP_POWER and is_num(e.arg(1)):
        n = num(e.arg(1))
        if n == int(n) and 0 <= n <= 8:
            r = {(): Fraction(1)}
            b = poly(e.arg(0))
            for _ in range(int(n)):
                r = pmul(r, b)
            return r
    return {(atom_key(e),): Fraction(1)}


def from_poly(p, sort):
    if not p:
        return iv(0) if sort == Int else rv(0)
    ts = []
    for m in sorted(p, key=lambda m: (-len(m), m)):
        c = p[m]
        fs = [_atoms[a] for a in m]
        if sort == Int:
            assert c.denominator == 1
            cv = iv(int(c))
        else:
            cv = rv(c)
        if not fs:
            ts.append(cv)
        elif c == 1:
            ts.append(fs[0] if len(fs) == 1 else z3.Product(fs))
        else:
            ts.append(z3.Product([cv] + fs))
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


_ncache = {}


def norm(e):
    """canonical form of an arithmetic expression"""
    s = e.sort()
    if s != Int and s != Real:
        return e
    i = e.get_id()
    r = _ncache.get(i)
    if r is not None:
        return r[1]
    r = from_poly(poly(e), s)
    _ncache[i] = (e, r)
    _ncache[r.get_id()] = (r, r)
    return r


def pdiv_monomial(p, m):
    """split p = q*m + r monomial-wise (m a monomial tuple)"""
    q, r = {}, {}
    for mm, c in p.items():
        rest = list(mm)
        ok = True
        for a in m:
            if a in rest:
                rest.remove(a)
            else:
                ok = False
                break
        if ok:
            q[tuple(rest)] = c
        else:
            r[mm] = c
    return q, r


def pdiv(p, d):
    """split p = q*d + r, trying to pull out as much of d as possible (leading-term division)"""
    if len(d) == 1:
        (m, c), = d.items()
        q, r = pdiv_monomial(p, m)
        return {k: v / c for k, v in q.items()}, r
    lead = max(d, key=lambda m: (len(m), m))
    lc = d[lead]
    q, r, work = {}, {}, dict(p)
    for _ in range(2000):
        if not work:
            break
        m = max(work, key=lambda m: (len(m), m))
        c = work[m]
        rest = list(m)
        ok = True
        for a in lead:
            if a in rest:
                rest.remove(a)
            else:
                ok = False
                break
        if ok:
            t = {tuple(rest): c / lc}
            q = padd(q, t)
            work = padd(work, pmul(t, d), -1)
        else:
            r[m] = c
            del work[m]
    return q, padd(r, work)


def coeff_of(p, key):
    """p = c*atom + rest; None if atom occurs nonlinearly. returns (c, rest)"""
    c, rest = {}, {}
    for m, k in p.items():
        n = m.count(key)
        if n == 0:
            rest[m] = k
        elif n == 1:
            mm = list(m)
            mm.remove(key)
            c[tuple(mm)] = k
        else:
            return None, None
    return c, rest


def poly_vars(p):
    return set(a for m in p for a in m)


def depends(e, syms):
    """does z3 expression e contain any of the constants whose ids are in set syms"""
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in syms:
            return True
        st.extend(x.children())
    return False


def subterms(es):
    seen = {}
    st = list(es)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen[i] = x
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return seen.values()


def vars_of(e):
    return {x.get_id() for x in subterms([e]) if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED}


def apps(e, name):
    """applications of the uninterpreted function `name` in e"""
    return [x for x in subterms([e]) if z3.is_app(x) and x.num_args() and x.decl().name() == name]


def band(*cs):
    cs = [c for c in cs if not z3.is_true(c)]
    if not cs:
        return TRUE
    if any(z3.is_false(c) for c in cs):
        return FALSE
    return cs[0] if len(cs) == 1 else z3.And(*cs)


def bnot(c):
    if z3.is_true(c):
        return FALSE
    if z3.is_false(c):
        return TRUE
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_false(a) and z3.is_true(b):
            return bnot(c)
    return z3.If(c, a, b)


def beq(a, b):
    """a == b with polynomial simplification"""
    if a.eq(b):
        return TRUE
    if a.sort() in (Int, Real) and b.sort() in (Int, Real):
        if a.sort() != b.sort():
            a, b = toreal(a), toreal(b)
        d = padd(poly(a), poly(b), -1)
        if not d:
            return TRUE
        if set(d) == {()}:
            return FALSE
    return a == b


def cmp(op, a, b):
    if a.sort() != b.sort():
        a, b = toreal(a), toreal(b)
    d = padd(poly(a), poly(b), -1)
    if not d or set(d) == {()}:
        v = d.get((), 0)
        return z3.BoolVal({"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[op])
    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]


def tdiv(a, b):
    """C truncating integer division"""
    if is_num(a) and is_num(b) and num(b) != 0:
        x, y = num(a), num(b)
        q = abs(x) // abs(y)
        return iv(q if (x < 0) == (y < 0) else -q)
    return None


def trunc(x):
    """real -> integer, toward zero"""
    if is_num(x):
        q = num(x)
        return iv(int(q))
    p = poly(x)
    # exact integers stay integers
    out = {}
    for m, c in p.items():
        if c.denominator != 1 or any(not _is_toreal(_atoms[a]) for a in m):
            out = None
            break
        out[tuple(sorted(atom_key(_atoms[a].arg(0)) for a in m))] = c
    if out is not None:
        return from_poly(out, Int)
    x = norm(x)
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def _is_toreal(e):
    return e.decl().kind() == z3.Z3_OP_TO_REAL


def toint_exact(x):
    """the Int term equal to the real term x, when x is an integer-coefficient polynomial of ToReal atoms"""
    if is_num(x):
        q = Fraction(num(x))
        return iv(int(q)) if q.denominator == 1 else None
    out = {}
    for m, c in poly(x).items():
        if c.denominator != 1 or any(not _is_toreal(_atoms[a]) for a in m):
            break
        out[tuple(sorted(atom_key(_atoms[a].arg(0)) for a in m))] = c
    else:
        return from_poly(out, Int)
    # ite over exact integers
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        a, b = toint_exact(x.arg(1)), toint_exact(x.arg(2))
        if a is not None and b is not None:
            return z3.If(x.arg(0), a, b)
    return None


EVEN = set()        # names of uninterpreted functions f with f(-x) = f(x) (joint sign of all arguments)


def even_canon(ch):
    """joint sign of the arguments of an even function, chosen from the leading coefficient of the first non-zero one"""
    for c in ch:
        p = poly(c)
        if not p:
            continue
        m = max(p, key=lambda m: (len(m), sorted(_atoms[a].sexpr() for a in m)))
        return ch if p[m] > 0 else [norm(-x) for x in ch]
    return ch


def renorm(e, memo=None):
    """bottom-up: prune decided ites, renormalise arithmetic and the arguments of functions"""
    if memo is None:
        memo = {}
    i = e.get_id()
    if i in memo:
        return memo[i][1]
    if not z3.is_app(e) or e.num_args() == 0:
        memo[i] = (e, e)
        return e
    k = e.decl().kind()
    if k == z3.Z3_OP_ITE:
        c = renorm(e.arg(0), memo)
        c = z3.simplify(c)
        if z3.is_true(c):
            r = renorm(e.arg(1), memo)
        elif z3.is_false(c):
            r = renorm(e.arg(2), memo)
        else:
            a, b = renorm(e.arg(1), memo), renorm(e.arg(2), memo)
            r = a if a.eq(b) else z3.If(c, a, b)
    else:
        ch = [renorm(c, memo) for c in e.children()]
        if k == z3.Z3_OP_UNINTERPRETED and e.decl().name() in EVEN:
            ch = even_canon(ch)
        if all(x.eq(y) for x, y in zip(ch, e.children())):
            r = e
        else:
            r = e.decl()(*ch)
        if r.sort() in (Int, Real):
            r = norm(r)
    memo[i] = (e, r)
    return r


def ite_conds(e, limit=8):
    out = []
    for x in subterms([e]):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            c = x.arg(0)
            if not any(c.eq(y) for y in out):
                out.append(c)
                if len(out) > limit:
                    break
    return out
