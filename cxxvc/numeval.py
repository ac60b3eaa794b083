"""Concrete evaluation of an obligation under a solver model, with the true mathematical functions.

A solver model is only believed (obligation refuted) when the hypotheses hold and the goal is
false *numerically*, so incompleteness of the axioms for exp/sqrt/pow/... never raises an alarm.
"""
import math, random
from fractions import Fraction
import z3
from . import terms as T

MATH = {"exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "tan": math.tan, "acos": math.acos,
        "asin": math.asin, "atan": math.atan, "log10": math.log10, "atan2": math.atan2, "pow": math.pow, "sqrt": math.sqrt,
        "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "expm1": math.expm1, "log1p": math.log1p,
        "erf": math.erf, "erfc": math.erfc, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x), "fmod": math.fmod}


class Bad(Exception):
    pass


class Ev:
    def __init__(self, model=None, env=None, ufs=None):
        self.model, self.env, self.ufs = model, env or {}, ufs
        self.memo = {}

    def __call__(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i][1]
        v = self.ev(e)
        self.memo[i] = (e, v)
        return v

    def ev(self, e):
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
        if z3.is_algebraic_value(e):
            return float(e.approx(20).as_fraction())
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if not z3.is_app(e):
            raise Bad("quantifier")
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_UNINTERPRETED:
            n = e.decl().name()
            if not ch:
                if n in self.env:
                    return self.env[n]
                if self.model is not None:
                    v = self.model.eval(e, model_completion=True)
                    r = self.const(v)
                    self.env[n] = r
                    return r
                raise Bad("free " + n)
            a = [self(c) for c in ch]
            if n in MATH:
                try:
                    return MATH[n](*[float(x) for x in a])
                except (ValueError, OverflowError, ZeroDivisionError):
                    raise Bad(n)
            if n == "ipow":
                if a[1] < 0 or a[1] > 4000:
                    raise Bad("ipow")
                return int(a[0]) ** int(a[1])
            if n == "flt":
                import struct
                return Fraction(struct.unpack("f", struct.pack("f", float(a[0])))[0])
            if self.ufs is not None:
                return self.ufs(e.decl(), a)
            if n in T.EVEN:
                a = evensign(a)
            if any(isinstance(x, float) for x in a):
                raise Bad("inexact argument of " + n)
            key = (n, tuple(a))
            if key in self.env:
                return self.env[key]
            if self.model is not None:
                args = [T.iv(x) if c.sort() == T.Int else (z3.BoolVal(x) if isinstance(x, bool) else T.rv(Fraction(x)))
                        for x, c in zip(a, ch)]
                v = self.const(self.model.eval(e.decl()(*args), model_completion=True))
                self.env[key] = v
                return v
            raise Bad("uf " + n)
        if k == z3.Z3_OP_ITE:
            c = self(ch[0])
            if c is None:
                raise Bad("undecided branch")
            return self(ch[1]) if c else self(ch[2])
        if k == z3.Z3_OP_AND:
            r = [self(c) for c in ch]
            return False if any(x is False for x in r) else (None if any(x is None for x in r) else True)
        if k == z3.Z3_OP_OR:
            r = [self(c) for c in ch]
            return True if any(x is True for x in r) else (None if any(x is None for x in r) else False)
        if k == z3.Z3_OP_IMPLIES:
            a, b = self(ch[0]), self(ch[1])
            if a is False or b is True:
                return True
            if a is True and b is False:
                return False
            return None
        if k == z3.Z3_OP_NOT:
            a = self(ch[0])
            return None if a is None else not a
        a = [self(c) for c in ch]
        if any(x is None for x in a):
            raise Bad("undecided")
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            x, y = a
            if isinstance(x, str) or isinstance(x, bool):
                r = x == y
                return r if k == z3.Z3_OP_EQ else not r
            # reals (doubles in the code) compare up to rounding; integers compare exactly
            exact = isinstance(x, int) and isinstance(y, int)
            d = x - y
            tol = 0 if exact else 1e-8 * max(1e-3, abs(x), abs(y))
            near = abs(d) <= tol
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
                if exact:
                    r = d == 0
                else:
                    r = True if near else False
                return r if k == z3.Z3_OP_EQ else (not r)
            if exact or not near:
                return {z3.Z3_OP_LE: x <= y, z3.Z3_OP_LT: x < y, z3.Z3_OP_GE: x >= y, z3.Z3_OP_GT: x > y}[k]
            return True if k in (z3.Z3_OP_LE, z3.Z3_OP_GE) else None
        if k == z3.Z3_OP_ADD:
            return sum(a[1:], a[0])
        if k == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r = r - x
            return r
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_MUL:
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        if k == z3.Z3_OP_DIV:
            if a[1] == 0:
                raise Bad("div0")
            return (Fraction(a[0]) if isinstance(a[0], int) else a[0]) / a[1]
        if k == z3.Z3_OP_IDIV:
            if a[1] == 0:
                raise Bad("div0")
            x, y = int(a[0]), int(a[1])
            return x // y if y > 0 else -(x // -y)
        if k in (z3.Z3_OP_MOD, z3.Z3_OP_REM):
            if a[1] == 0:
                raise Bad("div0")
            return int(a[0]) % abs(int(a[1]))
        if k == z3.Z3_OP_TO_REAL:
            return Fraction(a[0])
        if k == z3.Z3_OP_TO_INT:
            f = a[0]
            if abs(f - round(f)) < 1e-9 * max(1, abs(f)) and (isinstance(f, float) or f.denominator != 1):
                raise Bad("boundary floor")
            return math.floor(f)
        if k == z3.Z3_OP_POWER:
            try:
                return float(a[0]) ** float(a[1])
            except Exception:
                raise Bad("power")
        raise Bad("op " + e.decl().name())

    def const(self, v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_string_value(v):
            return v.as_string()
        raise Bad("model value")


def confirm(hyps, goal, model):
    """True when the model is a genuine counterexample with the true mathematical functions"""
    ev = Ev(model)
    try:
        for h in hyps:
            if ev(h) is not True:
                return False, None
        if ev(goal) is False:
            return True, ev.env
    except (Bad, OverflowError, ZeroDivisionError, ValueError, RecursionError):
        pass
    return False, None


def evensign(a):
    for x in a:
        if abs(x) > 1e-12:
            return a if x > 0 else [-y for y in a]
    return a


def hashfn(seed):
    """a fixed random interpretation of the uninterpreted functions"""
    tab = {}

    def smooth(name, ints, xs):
        r = random.Random("%s|%s|%s" % (seed, name, ints))
        v = r.uniform(-1, 1)
        for x in xs:
            v += r.uniform(.5, 2) * math.sin(r.uniform(.3, 1.1) * float(x) + r.uniform(0, 6)) * (1 + .5 * math.sin(v))
        return v

    def f(decl, a):
        nm = decl.name()
        if nm in T.EVEN:
            a = evensign(a)
        if any(isinstance(x, float) for x in a) or (decl.range() == T.Real and any(isinstance(x, Fraction) for x in a)):
            if decl.range() != T.Real:
                raise Bad("inexact argument of " + nm)
            # a smooth interpretation: rounding of the arguments does not change the value noticeably
            v = smooth(nm, tuple(x for x in a if isinstance(x, (int, bool))), [x for x in a if not isinstance(x, (int, bool))])
            tab[(nm, tuple(a))] = v
            return v
        key = (nm, tuple(a))
        if key not in tab:
            r = random.Random("%s|%s|%s" % (seed, decl.name(), ",".join(str(x) for x in a)))
            rs = decl.range()
            if rs == T.Int:
                tab[key] = r.randint(0, 50)
            elif rs == T.Bool:
                tab[key] = r.random() < 0.5
            elif rs == T.Real:
                tab[key] = Fraction(r.randint(-4000, 4000), 1009)
            else:
                raise Bad("uf sort")
        return tab[key]
    f.tab = tab
    return f


def consts(es):
    out = {}
    for x in T.subterms(es):
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.decl().name()] = x
    return out


def rnd_value(r, sort, scale):
    if sort == T.Int:
        return r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 30, 100]) if r.random() < .8 else r.randint(-5, 400)
    if sort == T.Bool:
        return r.random() < .5
    if sort == T.Real:
        c = r.random()
        if c < .15:
            return Fraction(r.choice([0, 1, -1, 2, 3]))
        return Fraction(r.randint(-3000, 3000), r.choice([1000, 331, 97, 10])) * scale
    raise Bad("sort")


def search(hyps, goal, seed=1, budget=6.0, want=False):
    """look for an assignment (true mathematical functions, random UFs) with hyps true and goal false"""
    import time
    t0 = time.time()
    r = random.Random(seed)
    cs = consts(list(hyps) + [goal])
    names = sorted(cs)
    lin = [h for h in hyps if simple(h)]
    it = 0
    while time.time() - t0 < budget and it < 4000:
        it += 1
        env = {}
        try:
            if it % 2 or not lin:
                for n in names:
                    env[n] = rnd_value(r, cs[n].sort(), r.choice([1, 1, 10, Fraction(1, 10)]))
                    if r.random() < .6 and isinstance(env[n], Fraction):
                        env[n] = abs(env[n])
            else:
                s = z3.Solver()
                s.set("timeout", 300)
                s.set("random_seed", r.randint(0, 10 ** 6))
                for h in lin:
                    s.add(h)
                order = names[:]
                r.shuffle(order)
                for n in order:
                    if cs[n].sort() not in (T.Int, T.Real):
                        continue
                    v = rnd_value(r, cs[n].sort(), 1)
                    s.push()
                    s.add(cs[n] == (T.iv(v) if cs[n].sort() == T.Int else T.rv(v)))
                    if s.check() != z3.sat:
                        s.pop()
                if s.check() != z3.sat:
                    continue
                m = s.model()
                e0 = Ev(m)
                for n in names:
                    env[n] = e0(cs[n])
        except Bad:
            continue
        ev = Ev(None, dict(env), hashfn(r.randint(0, 10 ** 9)))
        try:
            ok = True
            for h in hyps:
                if ev(h) is not True:
                    ok = False
                    break
            if not ok:
                continue
            if want:
                return True, env
            if ev(goal) is False:
                e = dict(env)
                e.update(ev.ufs.tab)
                return True, e
        except (Bad, OverflowError, ZeroDivisionError, ValueError, RecursionError, KeyError):
            continue
    return False, None


def simple(h):
    """linear-ish hypothesis without function applications: usable to steer the sampling"""
    n = 0
    for x in T.subterms([h]):
        n += 1
        if n > 200 or not z3.is_app(x):
            return False
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
            return False
    return True


def satisfiable(hyps, seed=1):
    return search(hyps, T.TRUE, seed, 4.0, want=True)[0]
