"""Values and program state of the symbolic executor (all values immutable)."""
import z3
from . import terms as T
from .terms import TRUE, FALSE, band, bnot, ite, iv, rv, norm, poly


class ToolLimit(Exception):
    """a construct outside the verifier's reach: never a violation"""


class Rec:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def set(self, k, v):
        d = dict(self.f)
        d[k] = v
        return Rec(self.cls, d)

    def __repr__(self):
        return "Rec(%s,%s)" % (self.cls, self.f)


class WR:
    """quantified write: for all binders with dom: if guard: a[idx] = val"""
    __slots__ = ("binders", "dom", "guard", "idx", "val", "where")

    def __init__(self, binders, dom, guard, idx, val, where=None):
        self.binders, self.dom, self.guard, self.idx, self.val, self.where = binders, dom, guard, idx, val, where


class Base:
    """contents an array had before the writes in its log"""
    __slots__ = ("kind", "data")

    def __init__(self, kind, data):
        self.kind, self.data = kind, data
    # kinds: const (value), fn (python callable idx->value), loop (Marker), shift (ArrV, delta)


class Marker:
    def __init__(self, pre):
        self.pre = pre
        self.deps = []       # (idx, pc-bools)


class ArrV:
    """array contents: base + write log; size None if not tracked"""
    __slots__ = ("elem", "base", "log", "size", "name")

    def __init__(self, elem, base, log=(), size=None, name=None):
        self.elem, self.base, self.log, self.size, self.name = elem, base, log, size, name

    def with_log(self, log):
        return ArrV(self.elem, self.base, tuple(log), self.size, self.name)

    def resized(self, size):
        return ArrV(self.elem, self.base, self.log, size, self.name)


class ListV:
    """vector/array of concrete length"""
    __slots__ = ("elem", "items")

    def __init__(self, elem, items):
        self.elem, self.items = elem, tuple(items)


class PrefixV(ListV):
    """vector of which only the elements appended since some point are known: appending is all that can be done with it"""
    __slots__ = ()


class PtrV:
    """pointer/iterator: root location + path (+ element offset into the array at that path)"""
    __slots__ = ("root", "path", "off")

    def __init__(self, root, path=(), off=None):
        self.root, self.path, self.off = root, tuple(path), off

    def __repr__(self):
        return "Ptr(%s,%s,%s)" % (self.root, self.path, self.off)


NULL = PtrV(None)


class StrV:
    """concrete or symbolic (z3 String) string"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


class Opaque:
    """a value nothing is known about and nothing may depend on (streams, allocators...)"""
    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what


class FnRef:
    __slots__ = ("func", "name")

    def __init__(self, func, name):
        self.func, self.name = func, name


class LV:
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def field(self, name):
        return LV(self.root, self.path + (("f", name),))

    def at(self, idx):
        return LV(self.root, self.path + (("i", idx),))

    def __repr__(self):
        return "LV(%s,%s)" % (self.root, self.path)


class State:
    __slots__ = ("store", "pc", "ghost")

    def __init__(self):
        self.store = {}
        self.pc = ()       # tuple of (kind, bool) kind in br|fact
        self.ghost = {}

    def clone(self):
        s = State()
        s.store = dict(self.store)
        s.pc = self.pc
        s.ghost = dict(self.ghost)
        return s

    def assume(self, c, kind="fact"):
        if not z3.is_true(c):
            self.pc = self.pc + ((kind, c),)

    def bools(self):
        return [c for _, c in self.pc]


def is_scalar(v):
    return isinstance(v, z3.ExprRef)


def subst(v, pairs):
    if not pairs:
        return v
    if isinstance(v, z3.ExprRef):
        r = z3.substitute(v, *pairs)
        return norm(r) if r.sort() in (T.Int, T.Real) else r
    if isinstance(v, Rec):
        return Rec(v.cls, {k: subst(x, pairs) for k, x in v.f.items()})
    if isinstance(v, ListV):
        return type(v)(v.elem, [subst(x, pairs) for x in v.items])
    if isinstance(v, ArrV):
        return ArrV(v.elem, subst_base(v.base, pairs), tuple(subst_wr(w, pairs) for w in v.log),
                    subst(v.size, pairs) if v.size is not None else None, v.name)
    if isinstance(v, PtrV):
        return PtrV(v.root, subst_path(v.path, pairs), subst(v.off, pairs) if v.off is not None else None)
    if isinstance(v, StrV) and isinstance(v.s, z3.ExprRef):
        return StrV(z3.substitute(v.s, *pairs))
    return v


def subst_path(path, pairs):
    return tuple((k, subst(x, pairs)) if k == "i" else (k, x) for k, x in path)


def subst_base(b, pairs):
    if b.kind == "const":
        return Base("const", subst(b.data, pairs))
    if b.kind == "fn":
        f = b.data
        # substitute the free symbols of the result, protecting the index through a placeholder
        def g(idx, f=f, pairs=pairs):
            ph = T.fresh("ix", T.Int)
            r = subst(f(ph), pairs)
            return subst(r, [(ph, idx)])
        return Base("fn", g)
    return b


def subst_wr(w, pairs):
    return WR(w.binders, subst(w.dom, pairs), subst(w.guard, pairs), subst(w.idx, pairs), subst(w.val, pairs), w.where)


def ite_val(c, a, b):
    if a is b:
        return a
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if is_scalar(a) and is_scalar(b):
        if a.sort() != b.sort():
            if {str(a.sort()), str(b.sort())} == {"Int", "Real"}:
                a, b = T.toreal(a), T.toreal(b)
            elif {str(a.sort()), str(b.sort())} == {"Int", "Bool"}:
                a = ite(a, iv(1), iv(0)) if z3.is_bool(a) else a
                b = ite(b, iv(1), iv(0)) if z3.is_bool(b) else b
            else:
                raise ToolLimit("merge of sorts %s %s" % (a.sort(), b.sort()))
        return ite(c, a, b)
    if isinstance(a, Rec) and isinstance(b, Rec) and a.cls == b.cls:
        keys = set(a.f) | set(b.f)
        return Rec(a.cls, {k: ite_val(c, a.f[k], b.f[k]) if k in a.f and k in b.f else a.f.get(k, b.f.get(k))
                           for k in keys})
    if isinstance(a, PrefixV) or isinstance(b, PrefixV):
        if a is b:
            return a
        raise ToolLimit("merge of growing lists")
    if isinstance(a, ListV) and isinstance(b, ListV) and len(a.items) == len(b.items):
        return ListV(a.elem, [ite_val(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, ArrV) and isinstance(b, ArrV):
        size = a.size
        if a.size is not None and b.size is not None:
            size = ite_val(c, a.size, b.size)
        if a.base is b.base:
            n = 0
            while n < len(a.log) and n < len(b.log) and a.log[n] is b.log[n]:
                n += 1
            log = list(a.log[:n])
            ta, tb = a.log[n:], b.log[n:]
            if len(ta) >= 1 and len(ta) == len(tb) and all(
                    not x.binders and not y.binders and z3.is_true(x.dom) and z3.is_true(y.dom)
                    and z3.is_true(T.beq(x.idx, y.idx)) for x, y in zip(ta, tb)):
                for x, y in zip(ta, tb):
                    log.append(WR((), TRUE, ite(c, x.guard, y.guard), x.idx, ite_val(c, x.val, y.val), x.where))
                return ArrV(a.elem, a.base, tuple(log), size, a.name)
            for w in a.log[n:]:
                log.append(WR(w.binders, w.dom, band(c, w.guard), w.idx, w.val, w.where))
            for w in b.log[n:]:
                log.append(WR(w.binders, w.dom, band(bnot(c), w.guard), w.idx, w.val, w.where))
            return ArrV(a.elem, a.base, tuple(log), size, a.name)
        return ArrV(a.elem, Base("ite", (c, a, b)), (), size, a.name)
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        if a.root == b.root and len(a.path) == len(b.path):
            if a.off is None and b.off is None and all(x[0] == y[0] and (x[1] is y[1] or x[1] == y[1]) for x, y in zip(a.path, b.path) if x[0] == "f"):
                return a
            if a.off is not None and b.off is not None:
                return PtrV(a.root, a.path, ite(c, a.off, b.off))
        raise ToolLimit("merge of different pointers")
    if isinstance(a, StrV) and isinstance(b, StrV):
        if isinstance(a.s, str) and isinstance(b.s, str) and a.s == b.s:
            return a
        x = z3.StringVal(a.s) if isinstance(a.s, str) else a.s
        y = z3.StringVal(b.s) if isinstance(b.s, str) else b.s
        return StrV(z3.If(c, x, y))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque("merged")
    if a is None:
        return b
    if b is None:
        return a
    if isinstance(a, (ListV, ArrV)) and isinstance(b, (ListV, ArrV)):
        return ite_val(c, as_arr(a), as_arr(b)) if not (isinstance(a, ArrV) and isinstance(b, ArrV)) else None
    raise ToolLimit("merge of %s and %s" % (type(a).__name__, type(b).__name__))


def as_arr(v):
    if isinstance(v, ArrV):
        return v
    if isinstance(v, PrefixV):
        raise ToolLimit("element of a growing list")
    log = tuple(WR((), TRUE, TRUE, iv(k), x) for k, x in enumerate(v.items))
    if v.items:
        base = Base("const", v.items[0])
    else:
        base = Base("const", None)
    return ArrV(v.elem, base, log, iv(len(v.items)))


def leaves(v, path=()):
    """scalar and array leaves of a value: yields (path, leaf)"""
    if isinstance(v, z3.ExprRef):
        yield path, v
    elif isinstance(v, Rec):
        for k in v.f:
            yield from leaves(v.f[k], path + (("f", k),))
    elif isinstance(v, ListV):
        for k, x in enumerate(v.items):
            yield from leaves(x, path + (("k", k),))
        yield path + (("len", 0),), v
    elif isinstance(v, ArrV):
        yield path + (("arr", 0),), v
        if v.size is not None:
            yield path + (("size", 0),), v.size
    elif isinstance(v, PtrV):
        if v.off is not None:
            yield path + (("off", 0),), v.off
        else:
            yield path, v
    else:
        yield path, v


def get_leaf(v, path):
    for k, x in path:
        if k == "f":
            v = v.f.get(x)
        elif k == "k":
            v = v.items[x] if x < len(v.items) else None
        elif k == "arr" or k == "len":
            return v
        elif k == "size":
            return v.size
        elif k == "off":
            return v.off
        if v is None:
            return None
    return v


def set_leaf(v, path, new):
    if not path:
        return new
    (k, x), rest = path[0], path[1:]
    if k == "f":
        return v.set(x, set_leaf(v.f[x], rest, new))
    if k == "k":
        it = list(v.items)
        it[x] = set_leaf(it[x], rest, new)
        return ListV(v.elem, it)
    if k == "arr":
        return ArrV(new.elem, new.base, new.log, v.size, new.name)
    if k == "size":
        return v.resized(new)
    if k == "off":
        return PtrV(v.root, v.path, new)
    if k == "len":
        return new
    raise ToolLimit("set_leaf " + k)


class LamV:
    """a closure: AST node id, captured environment (declaration id -> lvalue), captured this"""

    def __init__(self, nid, env, this):
        self.nid, self.env, self.this = nid, env, this
