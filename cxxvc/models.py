"""Assumed contracts of the C++ standard library and FFTW (the trusted base).

Everything here is an assumption about code outside /repo; each use is recorded in
Exec.models_used so the evidence can list it.
"""
import re
import z3
from . import terms as T
from .terms import iv, rv, norm, TRUE, FALSE, band, bnot, ite, mathfn, num, is_num, toreal
from .values import *
from .frontend import qt, strip_type, norm_cls

LISTMAX = 64


def targ(t):
    """first template argument"""
    i = t.find("<")
    d, j = 0, i + 1
    for j in range(i + 1, len(t)):
        c = t[j]
        if c == "<":
            d += 1
        elif c == ">":
            if d == 0:
                break
            d -= 1
        elif c == "," and d == 0:
            break
    return t[i + 1:j].strip()


def is_vec(t):
    t = norm_cls(strip_type(t))
    return t.startswith("std::vector<") or t.startswith("vector<")


def is_str(t):
    t = norm_cls(strip_type(t))
    return t in ("std::string", "string") or "basic_string<char" in t


def is_complex(t):
    t = norm_cls(strip_type(t))
    return t.startswith("std::complex<") or t.startswith("complex<")


def cplx(re_, im):
    return Rec("complex", {"re": norm(toreal(re_)), "im": norm(toreal(im))})


def std_default(ex, t):
    t = norm_cls(strip_type(t))
    if is_vec(t):
        return ListV(targ(t), [])
    if is_str(t):
        return StrV("")
    if is_complex(t):
        return cplx(rv(0), rv(0))
    m = re.match(r"std::array<(.*), (\d+)>$", t)
    if m:
        return Rec("stdarray", {"a": ListV(m.group(1), [ex.default_value(m.group(1), None, True) for _ in range(int(m.group(2)))])})
    if t.startswith("std::pair<"):
        return None
    return None


def filled(ex, st, elem, n, val=None):
    if val is None:
        val = ex.default_value(elem, st) if not (elem in ("bool",)) else FALSE
        if val is None:
            val = ex.zero(elem, st)
    if is_num(n):
        k = int(num(n))
        if 0 <= k <= LISTMAX:
            return ListV(elem, [val] * k)
    return ArrV(elem, Base("const", val), (), norm(n))


def std_construct(ex, st, t, args, node, ctor_type):
    ex.models_used.add(norm_cls(t).split("<")[0])
    ct = ctor_type or ""
    vals = [a for a in args if not (a.lv is None and a.val is None)]
    if is_vec(t):
        el = targ(t)
        if not vals:
            return ListV(el, [])
        v0 = ex.argval(vals[0], st)
        if isinstance(v0, (ListV, ArrV)):
            return ListV(el, v0.items) if isinstance(v0, ListV) else v0
        if isinstance(v0, PtrV) and len(vals) >= 2:
            v1 = ex.argval(vals[1], st)
            return slice_vec(ex, st, v0, v1, el)
        n = ex.asint(v0)
        val = None
        if len(vals) > 1:
            val = ex.argval(vals[1], st)
            if el in ("double", "float") and is_scalar(val):
                val = toreal(ex.asint(val))
            if isinstance(val, Opaque):
                val = None
        return filled(ex, st, el, n, val)
    if is_str(t):
        if not vals:
            return StrV("")
        v = ex.argval(vals[0], st)
        if isinstance(v, (StrV, ArrV, ListV)):
            return v
        if is_scalar(v) and len(vals) > 1 and is_num(v):
            ch = ex.argval(vals[1], st)
            if is_scalar(ch) and is_num(ch):
                return StrV(chr(int(num(ch))) * int(num(v)))
        return Opaque("string")
    if is_complex(t):
        if not vals:
            return cplx(rv(0), rv(0))
        v = ex.argval(vals[0], st)
        if isinstance(v, Rec):
            return v
        im = ex.argval(vals[1], st) if len(vals) > 1 else rv(0)
        return cplx(toreal(ex.asint(v)), toreal(ex.asint(im)))
    if "initializer_list" in t:
        if len(vals) == 1:
            return ex.argval(vals[0], st)
    if len(vals) == 1:
        v = ex.argval(vals[0], st)
        if isinstance(v, (PtrV, Rec, ListV, ArrV)) :
            return v
    if t.startswith("std::pair<") and len(vals) == 2:
        return Rec("pair", {"first": ex.argval(vals[0], st), "second": ex.argval(vals[1], st)})
    return Opaque(t)


def slice_vec(ex, st, a, b, el):
    src = ex.load(st, LV(a.root, a.path))
    n = norm(b.off - a.off)
    off = a.off
    if is_num(n) and int(num(n)) <= LISTMAX:
        return ListV(el, [ex.elem(st, src, norm(off + k)) for k in range(int(num(n)))])
    if is_num(off) and num(off) == 0:
        s = as_arr(src) if isinstance(src, ListV) else src
        return ArrV(s.elem, s.base, s.log, n, s.name)
    snap = st.clone()
    return ArrV(el, Base("fn", lambda i: ex.elem(snap, src, norm(i + off))), (), n)


def vsize(v):
    if isinstance(v, PrefixV):
        raise ToolLimit("size of a growing list")
    return iv(len(v.items)) if isinstance(v, ListV) else v.size


def resize(ex, st, v, n, el, val=None):
    if isinstance(v, PrefixV):
        raise ToolLimit("size of a growing list")
    if is_num(n) and isinstance(v, ListV) and int(num(n)) <= LISTMAX:
        k = int(num(n))
        it = list(v.items[:k])
        if val is None and len(it) < k:
            val = ex.zero(el, st)
        while len(it) < k:
            it.append(val)
        return ListV(v.elem, it)
    old = vsize(v)
    if is_num(old) and num(old) == 0:
        return filled(ex, st, el, n, val)
    if old is not None and z3.is_true(T.beq(old, n)):
        return v
    if val is None:
        val = ex.zero(el, st)
    a = as_arr(v) if isinstance(v, ListV) else v
    snap = st.clone()
    if ex.decide(st, n <= old):
        return ArrV(a.elem, a.base, a.log, n, a.name)
    return ArrV(a.elem, Base("fn", lambda i: ite_val(i < old, ex.read(snap, a, i), val)), (), n)


def push_back(ex, v, x):
    if isinstance(v, ListV):
        return type(v)(v.elem, v.items + (x,))
    a = ex.write(v, v.size, x)
    return ArrV(a.elem, a.base, a.log, norm(v.size + 1), a.name)


def std_method(ex, st, name, this, args, node, objtype):
    v = ex.load(st, this)
    A = lambda k: ex.argval(args[k], st)
    have = [a for a in args if not (a.lv is None and a.val is None)]
    if isinstance(v, Rec) and v.cls == "stdarray":
        this, v = this.field("a"), v.f["a"]
    if isinstance(v, (ListV, ArrV)):
        if isinstance(v, PrefixV) and name not in ("push_back", "emplace_back", "reserve"):
            raise ToolLimit("%s of a growing list" % name)
        ex.models_used.add("std::vector::" + name)
        el = v.elem
        if name in ("size", "length"):
            s = vsize(v)
            if s is None:
                raise ToolLimit("size of an array of unknown length")
            return s
        if name == "empty":
            return T.beq(vsize(v), iv(0))
        if name == "operator=" and len(have) == 1 and isinstance(A(0), (ListV, ArrV)):
            ex.store(st, this, A(0))
            return this
        if name in ("operator[]", "at"):
            i = ex.asint(A(0))
            if name == "at" and not (isinstance(v, ListV) and is_num(i)):
                ok = band(i >= 0, i < vsize(v))
                if not ex.decide(st, ok):
                    raise ToolLimit("vector::at may throw")
            return this.at(i)
        if name in ("begin", "cbegin", "data"):
            return PtrV(this.root, this.path, iv(0))
        if name in ("end", "cend"):
            return PtrV(this.root, this.path, vsize(v))
        if name == "front":
            return this.at(iv(0))
        if name == "back":
            return this.at(norm(vsize(v) - 1))
        if name in ("push_back", "emplace_back"):
            x = A(0)
            if strip_type(el) in ("double", "float") and is_scalar(x):
                x = toreal(x)
            ex.store(st, this, push_back(ex, v, x))
            return None
        if name == "pop_back":
            if isinstance(v, ListV):
                ex.store(st, this, ListV(v.elem, v.items[:-1]))
            else:
                ex.store(st, this, v.resized(norm(v.size - 1)))
            return None
        if name == "clear":
            ex.store(st, this, ListV(v.elem, []))
            return None
        if name in ("reserve", "shrink_to_fit"):
            return None
        if name == "resize":
            ex.store(st, this, resize(ex, st, v, norm(ex.asint(A(0))), el, A(1) if len(have) > 1 else None))
            return None
        if name == "assign":
            a0 = A(0)
            if isinstance(a0, PtrV):
                ex.store(st, this, slice_vec(ex, st, a0, A(1), el))
            else:
                x = A(1)
                if strip_type(el) in ("double", "float"):
                    x = toreal(x)
                ex.store(st, this, filled(ex, st, el, ex.asint(a0), x))
            return None
        if name == "swap":
            o = args[0].lv
            w = ex.load(st, o)
            ex.store(st, this, w)
            ex.store(st, o, v)
            return None
        if name == "fill":
            x = A(0)
            ex.store(st, this, ListV(v.elem, [x] * len(v.items)))
            return None
    if isinstance(v, Rec) and v.cls == "complex":
        if name in ("real", "imag"):
            f = "re" if name == "real" else "im"
            if have:
                ex.store(st, this.field(f), toreal(ex.asint(A(0))))
                return None
            return v.f[f]
    if isinstance(v, StrV):
        if name in ("operator=", "assign") and len(have) == 1 and isinstance(A(0), StrV):
            ex.store(st, this, A(0))
            return this
        ex.models_used.add("std::string::" + name)
        if name in ("c_str", "data"):
            return v
        if isinstance(v.s, str):
            if name in ("size", "length"):
                return iv(len(v.s))
            if name == "empty":
                return z3.BoolVal(v.s == "")
            if name == "clear":
                ex.store(st, this, StrV(""))
                return None
        else:
            if name in ("size", "length"):
                return z3.Length(v.s)
            if name == "empty":
                return T.beq(z3.Length(v.s), iv(0))
    if isinstance(v, Opaque):
        return Opaque(name)
    if isinstance(v, PtrV):
        # iterator
        if name == "base":
            return v
    raise ToolLimit("method %s of %s" % (name, objtype))


def std_operator(ex, st, name, args, node, type1):
    op = name.replace("operator", "")
    vals = [ex.argval(a, st) for a in args]
    x = vals[0]
    if isinstance(x, Rec) and x.cls == "stdarray" and op == "[]":
        return args[0].lv.field("a").at(ex.asint(vals[1]))
    if isinstance(x, (ListV, ArrV)):
        if op == "[]":
            return args[0].lv.at(ex.asint(vals[1]))
        if op == "=":
            ex.store(st, args[0].lv, vals[1])
            return args[0].lv
    if isinstance(x, PtrV):
        if op == "*":
            return ex.deref(x, st)
        if op == "->":
            return x
        if op == "[]":
            return ex.deref(PtrV(x.root, x.path, norm(x.off + vals[1])), st)
        if op in ("++", "--"):
            d = 1 if op == "++" else -1
            new = PtrV(x.root, x.path, norm(x.off + d))
            ex.store(st, args[0].lv, new)
            if len(args) > 1:
                return x
            return args[0].lv
        if op in ("+=", "-="):
            new = PtrV(x.root, x.path, norm(x.off + vals[1] if op == "+=" else x.off - vals[1]))
            ex.store(st, args[0].lv, new)
            return args[0].lv
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return ex.compare(op, x, vals[1], st)
        if op in ("+", "-"):
            return ex.ptr_arith(op, x, vals[1])
        if op == "=":
            ex.store(st, args[0].lv, vals[1])
            return args[0].lv
    if isinstance(x, Rec) and x.cls == "complex" or (len(vals) > 1 and isinstance(vals[1], Rec) and vals[1].cls == "complex"):
        if op == "=":
            y = vals[1]
            if not isinstance(y, Rec):
                y = cplx(toreal(ex.asint(y)), rv(0))
            ex.store(st, args[0].lv, y)
            return args[0].lv
        if op in ("+=", "-=", "*=", "/="):
            ex.store(st, args[0].lv, complex_op(ex, op[0], x, vals[1]))
            return args[0].lv
        if op in ("+", "-", "*", "/"):
            if len(vals) == 1:
                return complex_op(ex, "*", cplx(rv(-1), rv(0)), x) if op == "-" else x
            return complex_op(ex, op, x, vals[1])
        if op in ("==", "!="):
            a, b = c_of(ex, x), c_of(ex, vals[1])
            r = band(T.beq(a.f["re"], b.f["re"]), T.beq(a.f["im"], b.f["im"]))
            return r if op == "==" else bnot(r)
    if isinstance(x, StrV) or (len(vals) > 1 and isinstance(vals[1], StrV)):
        if op in ("==", "!="):
            return ex.str_eq(op, x, vals[1])
        if op in ("=",):
            ex.store(st, args[0].lv, vals[1])
            return args[0].lv
        if op in ("+", "+="):
            y = vals[1]
            if isinstance(x, StrV) and isinstance(y, StrV) and isinstance(x.s, str) and isinstance(y.s, str):
                r = StrV(x.s + y.s)
            elif isinstance(x, StrV) and isinstance(y, StrV):
                f = lambda s: z3.StringVal(s.s) if isinstance(s.s, str) else s.s
                r = StrV(z3.Concat(f(x), f(y)))
            else:
                r = Opaque("string")
            if op == "+=":
                ex.store(st, args[0].lv, r)
                return args[0].lv
            return r
        if op == "<<" :
            return Opaque("stream")
    if isinstance(x, Opaque):
        if op == "=" and args[0].lv is not None:
            ex.store(st, args[0].lv, vals[1])
            return args[0].lv
        if op in ("<<", ">>", "=", "+", "+=", "*", "->"):
            if op == ">>" and args[1].lv is not None:
                raise ToolLimit("stream input")
            return Opaque("op" + op)
    if op == "=" and args[0].lv is not None and isinstance(x, (Rec, type(None))):
        ex.store(st, args[0].lv, vals[1])
        return args[0].lv
    raise ToolLimit("operator %s on %s" % (op, type1))


def c_of(ex, x):
    if isinstance(x, Rec):
        return x
    return cplx(toreal(ex.asint(x)), rv(0))


def complex_op(ex, op, x, y):
    if isinstance(x, Rec) and x.cls != "complex" or isinstance(y, Rec) and y.cls != "complex":
        raise ToolLimit("arithmetic on records")
    realy = not isinstance(y, Rec)
    x, y = c_of(ex, x), c_of(ex, y)
    a, b, c, d = x.f["re"], x.f["im"], y.f["re"], y.f["im"]
    if op == "+":
        return cplx(a + c, b + d)
    if op == "-":
        return cplx(a - c, b - d)
    if op == "*":
        return cplx(a * c - b * d, a * d + b * c)
    if op == "/":
        if realy:
            return cplx(a / c, b / c)
        m = c * c + d * d
        return cplx((a * c + b * d) / m, (b * c - a * d) / m)
    raise ToolLimit("complex op " + op)


def rsqrt(x):
    x = norm(x)
    if is_num(x):
        from math import isqrt
        q = num(x)
        from fractions import Fraction
        q = Fraction(q)
        if q >= 0:
            n, d = isqrt(q.numerator), isqrt(q.denominator)
            if n * n == q.numerator and d * d == q.denominator:
                return rv(Fraction(n, d))
    return mathfn("sqrt", x)


def rpow(ex, x, y, st=None):
    x, y = norm(toreal(x)), norm(toreal(y))
    if is_num(y):
        q = num(y)
        if q == int(q) and 0 <= q <= 6:
            r = rv(1)
            for _ in range(int(q)):
                r = r * x
            return norm(r)
    if is_num(x) and num(x) == 1:
        return rv(1)
    if is_num(x) and num(x) == int(num(x)) and num(x) >= 2 and st is not None:
        # integer base, integer exponent >= 0: the result is an integer
        n = T.toint_exact(y)
        if n is not None and ex.decide(st, n >= 0):
            return z3.ToReal(T.ipow(int(num(x)), n))
    if x.decl().name() == "pow" and x.num_args() == 2 and st is not None and ex.decide(st, x.arg(0) > 0):
        return rpow(ex, x.arg(0), norm(x.arg(1) * y), st)
    return mathfn("pow", x, y)


def rfloor(x):
    x = norm(x)
    if is_num(x):
        import math
        return rv(math.floor(num(x)))
    return z3.ToReal(z3.ToInt(x))


UNARY = {"exp", "log", "sin", "cos", "tan", "acos", "asin", "atan", "log10", "sinh", "cosh", "tanh", "expm1", "log1p", "erf", "erfc", "cbrt"}


def free_function(ex, st, name, args, node, qname):
    rt = strip_type(qt(node))
    A = lambda k: ex.argval(args[k], st)
    base = name
    for suf in ("f", "l"):
        if name.endswith(suf) and name[:-1] in UNARY | {"sqrt", "pow", "floor", "ceil", "fabs"}:
            base = name[:-1]
    is_f = rt == "float"
    if base in UNARY:
        x = A(0)
        ex.models_used.add("libm::" + base)
        if isinstance(x, Rec):
            raise ToolLimit("complex " + base)
        x = norm(toreal(ex.asint(x)))
        if base in ("sin", "atan", "asin", "tan") and is_num(x) and num(x) == 0:
            return rv(0)
        if base in ("cos", "exp") and is_num(x) and num(x) == 0:
            return rv(1)
        if base == "log" and is_num(x) and num(x) == 1:
            return rv(0)
        if base in ("log", "log10") and ex.check_defined:
            ex.oblige(st, x > 0, "logarithm of a positive number", where=ex.frames[-1].func.qname if ex.frames and ex.frames[-1].func is not None else "")
        r = mathfn(base, x)
        return ex.flt(r) if is_f else r
    if base == "sqrt":
        x = A(0)
        ex.models_used.add("libm::sqrt")
        if isinstance(x, Rec):
            re_, im = x.f["re"], x.f["im"]
            c = band(T.beq(im, rv(0)), T.cmp(">=", re_, rv(0)))
            ex.models_used.add("std::sqrt(complex): principal root; (r,0), r>=0 -> (sqrt r, 0)")
            if not z3.is_true(c) and ex.decide(st, c):
                c = TRUE
            if z3.is_true(c):
                return cplx(rsqrt(re_), rv(0))
            return Rec("complex", {"re": ite(c, rsqrt(re_), mathfn("csqrt_re", re_, im)),
                                   "im": ite(c, rv(0), mathfn("csqrt_im", re_, im))})
        r = rsqrt(toreal(ex.asint(x)))
        return ex.flt(r) if is_f else r
    if base == "pow":
        ex.models_used.add("libm::pow")
        r = rpow(ex, ex.asint(A(0)), ex.asint(A(1)), st)
        return ex.flt(r) if is_f else r
    if base in ("atan2", "fmod", "hypot"):
        ex.models_used.add("libm::" + base)
        if base == "hypot":
            a, b = toreal(A(0)), toreal(A(1))
            return rsqrt(a * a + b * b)
        return mathfn(base, toreal(ex.asint(A(0))), toreal(ex.asint(A(1))))
    if base in ("fabs", "abs", "labs", "llabs"):
        x = A(0)
        if isinstance(x, Rec):
            return rsqrt(x.f["re"] * x.f["re"] + x.f["im"] * x.f["im"])
        x = ex.asint(x)
        if is_num(x):
            return x if num(x) >= 0 else norm(-x)
        return z3.If(x >= 0, x, norm(-x))
    if base == "floor":
        return toreal(ex.floor(st, ex.asint(A(0))))
    if base == "ceil":
        return toreal(norm(-ex.floor(st, norm(-toreal(ex.asint(A(0)))))))
    if base == "round":
        x = toreal(ex.asint(A(0)))
        h = rv(T.Fraction(1, 2))
        return ite(x >= 0, toreal(ex.floor(st, norm(x + h))), toreal(norm(-ex.floor(st, norm(h - x)))))
    if base == "trunc":
        return toreal(ex.trunc(st, ex.asint(A(0))))
    if base == "modf" and len(args) == 2:
        x = toreal(ex.asint(A(0)))
        t = toreal(ex.trunc(st, x))
        pt = A(1)
        if not isinstance(pt, PtrV):
            raise ToolLimit("modf target")
        ex.store(st, ex.deref(pt, st), t)
        return ex.cancel(st, norm(x - t))
    if base in ("min_element", "max_element") and len(args) == 2:
        x, y = A(0), A(1)
        if isinstance(x, PtrV) and isinstance(y, PtrV) and x.root == y.root and is_num(norm(x.off)) and is_num(norm(y.off)):
            v = ex.load(st, LV(x.root, x.path))
            lo, hi = int(num(norm(x.off))), int(num(norm(y.off)))
            if 0 < hi - lo <= 16:
                k, best = iv(lo), ex.elem(st, v, iv(lo))
                for q in range(lo + 1, hi):
                    z = ex.elem(st, v, iv(q))
                    c = T.cmp("<", z, best) if base == "min_element" else T.cmp("<", best, z)
                    best, k = ite(c, z, best), ite(c, iv(q), k)
                ex.models_used.add("std::" + base)
                return PtrV(x.root, x.path, k)
        if isinstance(x, PtrV) and isinstance(y, PtrV) and x.root == y.root and x.off is not None and y.off is not None:
            v = ex.load(st, LV(x.root, x.path))
            lo, hi, k, i = norm(x.off), norm(y.off), T.fresh("extreme", T.Int), T.fresh("i", T.Int)
            at = [ex.read(st, v, z) for z in (k, i)] if isinstance(v, ArrV) else [None]
            if all(isinstance(z, z3.ExprRef) for z in at):
                st.assume(z3.If(lo < hi, z3.And(k >= lo, k < hi), k == hi))
                st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), at[0] <= at[1] if base == "min_element" else at[0] >= at[1])))
                ex.models_used.add("std::" + base)
                return PtrV(x.root, x.path, k)
        raise ToolLimit(base)
    if base == "find" and len(args) == 3:
        x, y, q = A(0), A(1), A(2)
        if isinstance(x, PtrV) and isinstance(y, PtrV) and x.root == y.root and x.off is not None and y.off is not None:
            v = ex.load(st, LV(x.root, x.path))
            if isinstance(v, ArrV):
                lo, hi, k, i = norm(x.off), norm(y.off), T.fresh("found", T.Int), T.fresh("i", T.Int)

                def same(j):
                    z = ex.read(st, v, j)
                    if isinstance(z, z3.ExprRef) and isinstance(q, z3.ExprRef):
                        return T.cmp("==", z, q)
                    if isinstance(z, Rec) and isinstance(q, Rec) and z.cls == q.cls:
                        fs = ex.prog.find(z.cls + "::operator==", 1)
                        if len(fs) == 1:
                            s = st.clone()
                            r = ex.call_func(fs[0], ex.alloc(s, z, "element"), [type(args[0])(lv=ex.alloc(s, q, "sought"))], s, None)
                            r = ex.load(s, r) if isinstance(r, LV) else r
                            if isinstance(r, z3.ExprRef) and r.sort() == T.Bool:
                                return r
                    raise ToolLimit("std::find: comparison")
                st.assume(z3.And(k >= lo, k <= hi))
                st.assume(z3.Implies(k < hi, same(k)))
                st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < k), z3.Not(same(i)))))
                ex.models_used.add("std::find")
                return PtrV(x.root, x.path, k)
        raise ToolLimit("std::find")
    if base == "norm" and isinstance(A(0), Rec):
        x = A(0)
        return norm(x.f["re"] * x.f["re"] + x.f["im"] * x.f["im"])
    if base == "conj" and isinstance(A(0), Rec):
        x = A(0)
        return cplx(x.f["re"], -x.f["im"])
    if base in ("real", "imag") and len(args) == 1:
        x = A(0)
        if isinstance(x, Rec):
            return x.f["re" if base == "real" else "im"]
    if base in ("max", "min", "lowest", "infinity", "epsilon") and not args:
        # std::numeric_limits<A>
        from .execu import ctype
        t = ctype(node)
        if t in ("double", "float"):
            big = T.Fraction(2) ** 1024 - T.Fraction(2) ** 971 if t == "double" else T.Fraction(2) ** 128 - T.Fraction(2) ** 104
            if base == "infinity":
                ex.notes.add("infinity is a number larger than every finite double")
                return z3.Real("INFINITY")
            return rv({"max": big, "lowest": -big, "min": T.Fraction(1, 2 ** (1022 if t == "double" else 126)),
                       "epsilon": T.Fraction(1, 2 ** (52 if t == "double" else 23))}[base])
        if t in INTS and base in ("max", "min", "lowest"):
            w, sg = INTS[t]
            return iv((2 ** (w - 1) - 1 if sg else 2 ** w - 1) if base == "max" else (-2 ** (w - 1) if sg else 0))
    if base in ("isnan", "isinf"):
        ex.notes.add("doubles are finite reals (no NaN/infinity)")
        return FALSE
    if base in ("isfinite",):
        ex.notes.add("doubles are finite reals (no NaN/infinity)")
        return TRUE
    if base in ("max", "min", "fmax", "fmin") and len(args) == 2:
        x, y = A(0), A(1)
        if is_scalar(x) and is_scalar(y):
            x, y = ex.asint(x), ex.asint(y)
            if x.sort() != y.sort():
                x, y = toreal(x), toreal(y)
            c = T.cmp("<", x, y)     # max(a,b) = a<b ? b : a ; min(a,b) = b<a ? b : a
            if base.endswith("max"):
                return ite(c, y, x)
            return ite(T.cmp("<", y, x), y, x)
    if base in ("max", "min") and len(args) == 1:
        v = A(0)
        if isinstance(v, ListV) and v.items:
            r = v.items[0]
            for x in v.items[1:]:
                r = ite(T.cmp("<", r, x) if base == "max" else T.cmp("<", x, r), x, r)
            return r
    if base == "clamp" and len(args) == 3:
        x, lo, hi = A(0), A(1), A(2)
        return ite(T.cmp("<", x, lo), lo, ite(T.cmp("<", hi, x), hi, x))
    if base in ("move", "forward", "as_const", "addressof"):
        if args[0].lv is not None:
            if base == "addressof":
                l = args[0].lv
                return PtrV(l.root, l.path)
            return args[0].lv
        return args[0].val
    if base == "swap" and len(args) == 2:
        a, b = args[0].lv, args[1].lv
        x, y = ex.load(st, a), ex.load(st, b)
        ex.store(st, a, y)
        ex.store(st, b, x)
        return None
    if base == "distance":
        x, y = A(0), A(1)
        if isinstance(x, PtrV) and isinstance(y, PtrV) and x.root == y.root:
            return norm(y.off - x.off)
    if base in ("begin", "end", "cbegin", "cend", "size"):
        l = args[0].lv
        if l is not None:
            return std_method(ex, st, base, l, [], node, "")
    if base in ("copy",) and len(args) == 3:
        return copy_range(ex, st, A(0), A(1), A(2))
    if base in ("copy_n",) and len(args) == 3:
        s, n, d = A(0), ex.asint(A(1)), A(2)
        return copy_range(ex, st, s, PtrV(s.root, s.path, norm(s.off + n)), d)
    if base in ("fill",) and len(args) == 3:
        return fill_range(ex, st, A(0), A(1), A(2))
    if base in ("fill_n",) and len(args) == 3:
        d, n = A(0), ex.asint(A(1))
        return fill_range(ex, st, d, PtrV(d.root, d.path, norm(d.off + n)), A(2))
    if base in ("memcpy", "memmove", "memset"):
        raise ToolLimit(base)
    if base in ("__assert_fail", "abort", "exit", "terminate"):
        raise ToolLimit("call of " + base)
    if base in ("accumulate",):
        x, y = A(0), A(1)
        if len(args) == 3 and isinstance(x, PtrV) and isinstance(y, PtrV) and x.root == y.root and x.off is not None and y.off is not None:
            v, v0, b = ex.load(st, LV(x.root, x.path)), A(2), T.fresh("b", T.Int)
            if isinstance(v, ArrV):
                e = ex.read(st, v, b)
                if isinstance(e, z3.ExprRef) and isinstance(v0, z3.ExprRef) and e.sort() == v0.sort():
                    res = T.fresh("sum", e.sort())
                    ex.sums = getattr(ex, "sums", {})
                    ex.sums[res.get_id()] = (res, e, b, z3.And(norm(x.off) <= b, b < norm(y.off)), v0)
                    ex.models_used.add("std::accumulate")
                    return res
        raise ToolLimit("std::accumulate")
    if base == "time":
        return T.fresh("time", T.Int)
    if base in ("toupper", "tolower"):
        x = ex.asint(A(0))
        ex.models_used.add("libc::" + base)
        f = z3.Function(base, T.Int, T.Int)
        return f(x)
    # ---- FFTW
    if base in ("fftw_malloc", "fftwf_malloc", "malloc"):
        return Rec("rawmem", {"bytes": ex.asint(A(0))})
    if base in ("fftw_free", "fftwf_free", "free", "fftw_destroy_plan", "fftwf_destroy_plan", "fftw_cleanup"):
        ex.models_used.add(base)
        return None
    m = re.match(r"fftwf?_plan_dft_(r2c|c2r)_(1|2|3)d$", base)
    if m:
        d = int(m.group(2))
        dims = [ex.asint(A(k)) for k in range(d)]
        pin, pout = A(d), A(d + 1)
        flags = ex.asint(A(d + 2))
        return Rec("plan", {"kind": m.group(1), "dims": ListV("int", dims), "in": pin, "out": pout, "flags": flags})
    m = re.match(r"fftwf?_plan_dft_(r2c|c2r)$", base)
    if m:
        rank = A(0)
        if not is_num(rank):
            raise ToolLimit("fftw rank")
        pn = A(1)
        arr = ex.load(st, LV(pn.root, pn.path))
        dims = [ex.elem(st, arr, norm(pn.off + k)) for k in range(int(num(rank)))]
        return Rec("plan", {"kind": m.group(1), "dims": ListV("int", dims), "in": A(2), "out": A(3), "flags": ex.asint(A(4))})
    if base in ("fftw_execute", "fftwf_execute"):
        return fftw_execute(ex, st, A(0))
    if base in ("cast",) and len(args) >= 1:       # pybind11::cast
        ex.models_used.add("pybind11::cast(std::vector<double>): element-wise copy")
        return A(0)
    if rt == "void" and base in ("printf", "fprintf"):
        return None
    raise ToolLimit("call of external function %s" % (qname or name))


def copy_range(ex, st, a, b, d):
    if not all(isinstance(p, PtrV) and p.off is not None for p in (a, b, d)):
        raise ToolLimit("std::copy")
    src = ex.load(st, LV(a.root, a.path))
    dl = LV(d.root, d.path)
    dst = ex.load(st, dl)
    n = norm(b.off - a.off)
    if is_num(n) and int(num(n)) <= LISTMAX:
        for k in range(int(num(n))):
            ex.store(st, dl.at(norm(d.off + k)), ex.elem(st, src, norm(a.off + k)))
        return PtrV(d.root, d.path, norm(d.off + n))
    if a.root == d.root and str(a.path) == str(d.path):
        raise ToolLimit("std::copy within one array")
    dst = as_arr(dst) if isinstance(dst, ListV) else dst
    bi = T.fresh("b", T.Int)
    dom = band(bi >= 0, bi < n)
    s2 = st.clone()
    s2.assume(dom)
    val = ex.elem(s2, src, norm(a.off + bi))
    ex.store(st, dl, dst.with_log(dst.log + (WR((bi,), dom, TRUE, norm(d.off + bi), val),)))
    return PtrV(d.root, d.path, norm(d.off + n))


def fill_range(ex, st, a, b, x):
    dl = LV(a.root, a.path)
    dst = ex.load(st, dl)
    n = norm(b.off - a.off)
    el = strip_type(dst.elem)
    if el in ("double", "float") and is_scalar(x):
        x = toreal(ex.asint(x))
    if is_complex(el):
        x = c_of(ex, x)
    if is_num(n) and int(num(n)) <= LISTMAX:
        for k in range(int(num(n))):
            ex.store(st, dl.at(norm(a.off + k)), x)
        return b
    dst = as_arr(dst) if isinstance(dst, ListV) else dst
    bi = T.fresh("b", T.Int)
    ex.store(st, dl, dst.with_log(dst.log + (WR((bi,), band(bi >= 0, bi < n), TRUE, norm(a.off + bi), x),)))
    return b


_ev = [0]


class FFTEvent:
    """one execution of an FFTW plan: `inp` is a snapshot of the whole input array"""
    def __init__(self, k, kind, dims, inp, ioff, st):
        self.k, self.kind, self.dims, self.inp, self.ioff, self.st = k, kind, dims, inp, ioff, st
        if kind == "r2c":
            self.fre = z3.Function("fft%d_re" % k, T.Int, T.Real)
            self.fim = z3.Function("fft%d_im" % k, T.Int, T.Real)
        else:
            self.f = z3.Function("ifft%d" % k, T.Int, T.Real)


def fftw_execute(ex, st, plan):
    ex.models_used.add("FFTW: unnormalised real-to-complex / complex-to-real DFT of the given row-major dimensions; "
                       "r2c keeps its input, c2r destroys it")
    kind, dims = plan.f["kind"], list(plan.f["dims"].items)
    pin, pout = plan.f["in"], plan.f["out"]
    src = LV(pin.root, pin.path)
    dst = LV(pout.root, pout.path)
    if not (is_num(pout.off) and num(pout.off) == 0 and is_num(pin.off) and num(pin.off) == 0):
        raise ToolLimit("FFT on part of an array")
    if pin.root == pout.root:
        raise ToolLimit("in-place FFT")
    inp = ex.load(st, src)
    outv = ex.load(st, dst)
    inp = as_arr(inp) if isinstance(inp, ListV) else inp
    outv = as_arr(outv) if isinstance(outv, ListV) else outv
    _ev[0] += 1
    e = FFTEvent(_ev[0], kind, dims, inp, pin.off, st.clone())
    ev = st.ghost.get("fft", ())
    st.ghost["fft"] = ev + (e,)
    n = iv(1)
    for d in dims:
        n = n * d
    if kind == "r2c":
        nc = iv(1)
        for d in dims[:-1]:
            nc = nc * d
        nc = norm(nc * (dims[-1] / iv(2) + 1))
        if outv.size is not None:
            ex.oblige(st, outv.size >= nc, "FFT output buffer holds the half spectrum", "bounds")
        if inp.size is not None:
            ex.oblige(st, inp.size >= norm(n), "FFT input buffer holds the grid", "bounds")
        new = ArrV(outv.elem, Base("fn", lambda i: Rec("complex", {"re": e.fre(i), "im": e.fim(i)})), (), outv.size)
        ex.store(st, dst, new)
    else:
        if outv.size is not None:
            ex.oblige(st, outv.size >= norm(n), "FFT output buffer holds the grid", "bounds")
        new = ArrV(outv.elem, Base("fn", lambda i: e.f(i)), (), outv.size)
        ex.store(st, dst, new)
        fr = z3.Function("destroyed%d_re" % e.k, T.Int, T.Real)
        fi = z3.Function("destroyed%d_im" % e.k, T.Int, T.Real)
        ex.store(st, src, ArrV(inp.elem, Base("fn", lambda i: Rec("complex", {"re": fr(i), "im": fi(i)})), (), inp.size))
    return None
