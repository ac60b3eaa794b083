"""Bit-exact execution of a function's AST: every integer is a z3 bit vector of its C++ width, floats are their bit patterns.
Used where the meaning of the code is in its bits (number encodings).  Paths are merged; loops with a known number of rounds
are followed, loops over an array of any length are summarised as a map (checked: each round reads and writes its own element)."""
import z3
from .frontend import qt, strip_type
from .values import ToolLimit
from .execu import Obl

WIDTH = {"char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False),
         "int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False), "long long": (64, True),
         "unsigned long long": (64, False), "float": (32, None), "double": (64, None), "bool": (1, None),
         "std::uint16_t": (16, False), "std::uint32_t": (32, False), "std::uint64_t": (64, False), "size_t": (64, False), "std::size_t": (64, False),
         "uint16_t": (16, False), "uint32_t": (32, False), "uint64_t": (64, False), "int16_t": (16, True), "int32_t": (32, True), "int64_t": (64, True),
         "std::int16_t": (16, True), "std::int32_t": (32, True), "std::int64_t": (64, True),
         "std::streamsize": (64, True), "std::ptrdiff_t": (64, True), "ptrdiff_t": (64, True), "difference_type": (64, True), "size_type": (64, False),
         "std::uint8_t": (8, False), "uint8_t": (8, False), "value_type": None}
simp = z3.simplify


def bare(t):
    t = t.strip()
    while True:
        u = t
        for w in ("const ", "volatile ", "typename ", "struct ", "class "):
            if t.startswith(w):
                t = t[len(w):].strip()
        for w in (" const", "&", "&&"):
            if t.endswith(w):
                t = t[:-len(w)].strip()
        if u == t:
            return t


def width(t):
    t = bare(t)
    w = WIDTH.get(t)
    if w is None and t.endswith("difference_type"):
        w = (64, True)
    if w is None and t.endswith("size_type"):
        w = (64, False)
    return w


def ntype(node):
    return bare(qt(node))


class V:
    """a scalar value: bits and signedness (None: bit pattern of a float; width 1 / z3 Bool: bool)"""
    __slots__ = ("e", "s")

    def __init__(self, e, s):
        self.e, self.s = e, s


class Ptr:
    """pointer, iterator or reference: object, index (64-bit), width of the view, signedness of the view"""
    __slots__ = ("obj", "i", "w", "s")

    def __init__(self, obj, i, w, s):
        self.obj, self.i, self.w, self.s = obj, i, w, s


class Arr:
    """array value: width of the elements, contents as a function of the 64-bit index, number of elements (64-bit term)"""
    __slots__ = ("w", "f", "n")

    def __init__(self, w, f, n):
        self.w, self.f, self.n = w, f, n


class Vec:
    """a std::vector lvalue / stream lvalue / union lvalue by name of its object"""
    __slots__ = ("obj", "s")

    def __init__(self, obj, s=None):
        self.obj, self.s = obj, s


class Opaque:
    pass


class Text:
    """a std::string of which only emptiness is kept"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class Stop(Exception):
    """every path has ended"""


class St:
    __slots__ = ("m", "pc", "rd", "wr")

    def __init__(self):
        self.m, self.pc = {}, z3.BoolVal(True)
        self.rd, self.wr = None, None

    def clone(self):
        n = St()
        n.m, n.pc, n.rd, n.wr = dict(self.m), self.pc, self.rd, self.wr
        return n


def c64(x):
    return z3.BitVecVal(x, 64)


def const(e):
    e = simp(e)
    if z3.is_bv_value(e):
        return e.as_signed_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return None


class Bits:
    def __init__(self, prog):
        self.P = prog
        self.inlined, self.used_contracts, self.models_used, self.notes = set(), set(), set(), set()
        self.loops_summarized = self.loops_havoced = self.ndecide = 0
        self.t_decide = 0.0
        self.obls = []
        self.hyps = []
        self.lengths = []
        self.throws = []
        self.written = []      # (condition, array contents at the time, first byte, number of bytes)
        self.streamops = []    # (condition, success) of every read and write
        self.input = None      # bytes the stream delivers
        self.readok = None
        self.nobj = 0
        self.env = []
        self.rets = []
        self.depth = 0

    # ------------------------------------------------------------ objects
    def new(self, st, v, name="o"):
        self.nobj += 1
        k = "%s#%d" % (name, self.nobj)
        st.m[k] = v
        return k

    def scalar(self, st, bv, s, name="v"):
        k = self.new(st, V(bv, s), name)
        return Ptr(k, None, bv.size() if z3.is_bv(bv) else 1, s)

    def array(self, st, w, f, n, name="a"):
        return self.new(st, Arr(w, f, n), name)

    def load(self, st, p):
        v = st.m.get(p.obj)
        if v is None:
            raise ToolLimit("read of unknown object")
        if isinstance(v, V):
            if p.i is not None and const(p.i) != 0:
                raise ToolLimit("index into a scalar")
            if z3.is_bool(v.e):
                return v
            if v.e.size() != p.w:
                raise ToolLimit("view of another width")
            return V(v.e, p.s)
        if isinstance(v, Arr):
            if st.rd is not None:
                st.rd.append((p.obj, p.i))
            if v.w == p.w:
                return V(v.f(p.i), p.s)
            if v.w == 8 and p.w % 8 == 0:      # several bytes, little endian machine
                k = p.w // 8
                return V(z3.Concat(*[v.f(simp(p.i * k + j)) for j in reversed(range(k))]), p.s)
            if p.w == 8:
                k = v.w // 8
                q = simp(z3.UDiv(p.i, c64(k)))
                r = const(z3.URem(p.i, c64(k)))
                if r is None:
                    raise ToolLimit("byte view at an unknown offset")
                return V(z3.Extract(8 * r + 7, 8 * r, v.f(q)), p.s)
            raise ToolLimit("view of another width")
        return v

    def store(self, st, p, v):
        o = st.m.get(p.obj)
        if p.obj.startswith("static "):
            raise ToolLimit("write to a static variable")
        if isinstance(o, V) or o is None:
            st.m[p.obj] = V(v.e, o.s if o is not None else v.s)
            return
        if isinstance(o, Arr):
            if o.w != p.w:
                raise ToolLimit("write through a view of another width")
            if st.wr is not None:
                st.wr.append((p.obj, p.i))
            i, e, f = p.i, v.e, o.f
            ci = const(i)

            def g(k, i=i, e=e, f=f, ci=ci):
                ck = const(k)
                if ck is not None and ci is not None:
                    return e if ck == ci else f(k)
                c = simp(k == i)
                if z3.is_true(c):
                    return e
                if z3.is_false(c):
                    return f(k)
                return z3.If(c, e, f(k))
            st.m[p.obj] = Arr(o.w, g, o.n)
            return
        raise ToolLimit("write to an object of another kind")

    # ------------------------------------------------------------ functions
    def call(self, st, f, args):
        if f.body is None:
            raise ToolLimit("no body: " + f.qname)
        self.depth += 1
        if self.depth > 20:
            raise ToolLimit("recursion")
        self.inlined.add(f.qname)
        env = {}
        for p, a in zip(f.params, args):
            t = p.get("type", {}).get("qualType", "")
            if isinstance(a, (Ptr, Vec)) and not t.rstrip().endswith("&"):
                # by value: pointers and iterators are copied, scalars loaded
                if width(qt(p)) is not None:
                    v = self.load(st, a)
                    env[p["id"]] = self.var(st, self.conv(v, qt(p)), p.get("name", "p"))
                else:
                    env[p["id"]] = Vec(self.new(st, a, p.get("name", "p")))
            elif isinstance(a, V):
                w = width(qt(p))
                env[p["id"]] = self.var(st, self.conv(a, qt(p)) if w else a, p.get("name", "p"))
            else:
                env[p["id"]] = a
        self.env.append(env)
        self.rets.append([])
        try:
            end = self.run(st, f.body)
            outs = self.rets[-1]
            if end is not None:
                outs.append((end, None))
            if not outs:
                raise Stop()
            s, v = outs[0]
            for s2, v2 in outs[1:]:
                v = self.mergev(s.pc, v, v2)
                s = self.merge(s, s2)
            st.m, st.pc = s.m, s.pc
            return v
        finally:
            self.env.pop()
            self.rets.pop()
            self.depth -= 1

    def var(self, st, v, name):
        k = self.new(st, v, name)
        return Ptr(k, None, v.e.size() if z3.is_bv(v.e) else 1, v.s)

    def mergev(self, c, a, b):
        if a is None or b is None:
            return a if b is None else b
        if isinstance(a, V) and isinstance(b, V):
            return V(a.e if a.e.eq(b.e) else z3.If(c, a.e, b.e), a.s)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return Ptr(a.obj, a.i if a.i is b.i or a.i.eq(b.i) else z3.If(c, a.i, b.i), a.w, a.s)
        raise ToolLimit("merge of results")

    def merge(self, a, b):
        """join of two states, a under a.pc, b under b.pc (disjoint)"""
        r = St()
        c = a.pc
        r.pc = simp(z3.Or(a.pc, b.pc))
        r.rd, r.wr = a.rd, a.wr
        for k in a.m:
            if k not in b.m:
                continue
            x, y = a.m[k], b.m[k]
            if x is y:
                r.m[k] = x
            elif isinstance(x, V) and isinstance(y, V):
                r.m[k] = V(x.e if x.e.eq(y.e) else z3.If(c, x.e, y.e), x.s)
            elif isinstance(x, Arr) and isinstance(y, Arr) and x.w == y.w:
                r.m[k] = Arr(x.w, lambda i, f=x.f, g=y.f: z3.If(c, f(i), g(i)), x.n)
            elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
                r.m[k] = Ptr(x.obj, z3.If(c, x.i, y.i), x.w, x.s)
            elif isinstance(x, Text) and isinstance(y, Text):
                r.m[k] = Text(z3.If(c, x.e, y.e))
            # anything else is dropped: reading it later is a tool limit
        return r

    # ------------------------------------------------------------ statements
    def run(self, st, n):
        """the state after n, or None if no path goes on"""
        k = n.get("kind")
        if k is None:
            return st
        m = getattr(self, "s_" + k, None)
        if m:
            return m(st, n)
        self.ev(st, n)
        return st

    def s_CompoundStmt(self, st, n):
        for c in n.get("inner", ()):
            st = self.run(st, c)
            if st is None:
                return None
        return st

    def s_NullStmt(self, st, n):
        return st

    def s_DeclStmt(self, st, n):
        for d in n.get("inner", ()):
            if d.get("kind") in ("UsingDirectiveDecl", "UsingDecl", "TypedefDecl", "TypeAliasDecl", "StaticAssertDecl", "CXXRecordDecl"):
                continue
            if d.get("kind") != "VarDecl":
                raise ToolLimit("declaration " + d.get("kind", "?"))
            self.declare(st, d)
        return st

    def declare(self, st, d):
        t = d.get("type", {}).get("qualType", "")
        dt = qt(d)
        init = [c for c in d.get("inner", ()) if c.get("kind") not in ("FullComment", "AlignedAttr")]
        env = self.env[-1]
        nm = d.get("name", "v")
        if d.get("storageClass") == "static":
            nm = "static " + nm          # its initial value stands for it: writing to it is refused
        if t.rstrip().endswith("&") and init:
            env[d["id"]] = self.ev(st, init[0])
            return
        if "[" in bare(dt) and bare(dt).endswith("]"):
            el, cnt = bare(dt)[:-1].rsplit("[", 1)
            w = width(el)
            if w is None or not cnt.isdigit():
                raise ToolLimit("array of " + dt)
            vals = None
            if init and init[0].get("kind") == "InitListExpr":
                vals = [self.rv(st, self.ev(st, c)) for c in init[0].get("inner", ())]
                vals += [V(z3.BitVecVal(0, w[0]), w[1])] * (int(cnt) - len(vals))
            env[d["id"]] = Vec(self.table(st, w[0], vals, int(cnt), nm), w[1])
            return
        if self.isunion(dt):
            env[d["id"]] = Vec(self.new(st, None, nm))
            if init and init[-1].get("kind") == "InitListExpr" and init[-1].get("inner"):
                st.m[env[d["id"]].obj] = self.rv(st, self.ev(st, init[-1]["inner"][0]))
            return
        w = width(dt)
        if w is not None:
            if init:
                v = self.conv(self.rv(st, self.ev(st, init[-1])), dt)
            else:
                v = V(z3.FreshConst(z3.BitVecSort(w[0]) if bare(dt) != "bool" else z3.BoolSort(), "uninit"), w[1])
            env[d["id"]] = self.var(st, v, nm)
            return
        if init:
            v = self.ev(st, init[-1])
            if isinstance(v, Arr):
                env[d["id"]] = Vec(self.new(st, v, nm), getattr(v, "s", None))
                env[d["id"]].s = self.elem(dt)[1] if self.elem(dt) else None
                return
            if isinstance(v, (Ptr,)):
                env[d["id"]] = Vec(self.new(st, v, nm))
                return
            if isinstance(v, V):
                env[d["id"]] = self.var(st, v, nm)
                return
            if isinstance(v, Text):
                env[d["id"]] = Vec(self.new(st, v, nm))
                return
            if isinstance(v, Vec):
                env[d["id"]] = v
                return
            env[d["id"]] = Vec(self.new(st, Opaque(), nm))
            return
        env[d["id"]] = Vec(self.new(st, Opaque(), nm))

    def isunion(self, t):
        c = self.P.classes.get(bare(t)) or self.P.classes.get("NRLib::NRLibPrivate::" + bare(t).split("::")[-1])
        return bool(c and c.get("node") and c["node"].get("tagUsed") == "union")

    def elem(self, t):
        t = bare(t)
        if "vector<" in t:
            return width(t.split("vector<", 1)[1].split(",")[0].split(">")[0])
        return None

    def elname(self, t):
        return bare(t).split("vector<", 1)[1].split(",")[0].split(">")[0]

    def table(self, st, w, vals, n, nm):
        if vals is None:
            fr = [z3.FreshConst(z3.BitVecSort(w), "uninit") for _ in range(n)]
            es = fr
        else:
            es = [v.e for v in vals]

        def f(i):
            c = const(i)
            if c is not None:
                if not 0 <= c < len(es):
                    raise ToolLimit("index outside the array")
                return es[c]
            r = es[-1]
            for j in range(len(es) - 2, -1, -1):
                r = z3.If(i == j, es[j], r)
            return r
        return self.array(st, w, f, c64(n), nm)

    def cond(self, st, n):
        v = self.rv(st, self.ev(st, n))
        return self.truth(v)

    def truth(self, v):
        if not isinstance(v, V):
            raise ToolLimit("truth of an object")
        return v.e if z3.is_bool(v.e) else v.e != 0

    def feasible(self, st, c):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        s = z3.Solver()
        s.set("timeout", 2000)
        for h in self.hyps:
            s.add(h)
        s.add(st.pc, c)
        self.ndecide += 1
        return s.check() != z3.unsat

    def s_IfStmt(self, st, n):
        ch = n["inner"]
        if n.get("hasInit") or n.get("hasVar"):
            raise ToolLimit("if with declaration")
        return self.branch(st, self.cond(st, ch[0]), lambda s: self.run(s, ch[1]), lambda s: self.run(s, ch[2]) if len(ch) > 2 else s)

    def branch(self, st, c, a, b):
        ta, tb = self.feasible(st, c), self.feasible(st, z3.Not(c))
        if not tb:
            return a(st)
        if not ta:
            return b(st)
        s1, s2 = st.clone(), st
        s1.pc, s2.pc = simp(z3.And(st.pc, c)), simp(z3.And(st.pc, z3.Not(c)))
        r1, r2 = a(s1), b(s2)
        if r1 is None:
            return r2
        if r2 is None:
            return r1
        return self.merge(r1, r2)

    def s_SwitchStmt(self, st, n):
        ch = n["inner"]
        v = const(self.rv(st, self.ev(st, ch[0])).e)
        if v is None:
            raise ToolLimit("switch on an unknown value")
        body = ch[-1].get("inner", ())
        on = False
        todo = []
        default = None
        flat = []
        for c in body:
            labs = []
            while c.get("kind") in ("CaseStmt", "DefaultStmt"):
                if c["kind"] == "CaseStmt":
                    labs.append(const(self.rv(st, self.ev(st, c["inner"][0])).e))
                    c = c["inner"][-1]
                else:
                    labs.append("default")
                    c = c["inner"][-1]
            flat.append((labs, c))
        start = next((i for i, (l, _) in enumerate(flat) if v in l), None)
        if start is None:
            start = next((i for i, (l, _) in enumerate(flat) if "default" in l), None)
        if start is None:
            return st
        for _, c in flat[start:]:
            if c.get("kind") == "BreakStmt":
                return st
            if self.has(c, "BreakStmt"):
                if c.get("kind") == "CompoundStmt" and c["inner"] and c["inner"][-1].get("kind") == "BreakStmt" and not any(self.has(x, "BreakStmt") for x in c["inner"][:-1]):
                    for x in c["inner"][:-1]:
                        st = self.run(st, x)
                        if st is None:
                            return None
                    return st
                if c.get("kind") not in ("ForStmt", "WhileStmt", "DoStmt", "SwitchStmt", "CXXForRangeStmt"):
                    raise ToolLimit("break inside a case")
            st = self.run(st, c)
            if st is None:
                return None
        return st

    def has(self, n, kind):
        if not isinstance(n, dict):
            return False
        return n.get("kind") == kind or any(self.has(c, kind) for c in n.get("inner", ()))

    def s_ReturnStmt(self, st, n):
        v = None
        if n.get("inner"):
            v = self.ev(st, n["inner"][0])
            if isinstance(v, Ptr) and width(qt(n["inner"][0])) is not None:
                v = self.load(st, v)
            elif isinstance(v, Vec) and isinstance(st.m.get(v.obj), Ptr):
                v = st.m[v.obj]
        self.rets[-1].append((st, v))
        return None

    def s_ExprWithCleanups(self, st, n):
        if self.isthrow(n):
            self.throws.append(st.pc)
            return None
        return self.run(st, n["inner"][0])

    def isthrow(self, n):
        while n.get("kind") in ("ExprWithCleanups", "ParenExpr"):
            n = n["inner"][0]
        return n.get("kind") == "CXXThrowExpr"

    def s_CXXThrowExpr(self, st, n):
        self.throws.append(st.pc)
        return None

    # loops ------------------------------------------------------
    def s_ForStmt(self, st, n):
        ch = n["inner"]
        init, cond, inc, body = ch[0], ch[2], ch[3], ch[4]
        if init.get("kind"):
            st = self.run(st, init)
        return self.loop(st, cond, inc, body)

    def s_WhileStmt(self, st, n):
        return self.loop(st, n["inner"][0], {}, n["inner"][-1])

    def s_CXXForRangeStmt(self, st, n):
        ch = [c for c in n["inner"]]
        body, var = ch[-1], ch[-2]
        inc, cond = ch[-3], ch[-4]
        for c in ch[:-4]:
            if c.get("kind") == "DeclStmt":
                st = self.run(st, c)
        return self.loop(st, cond, inc, {"kind": "CompoundStmt", "inner": [var, body]})

    def loop(self, st, cond, inc, body):
        if any(self.has(body, k) for k in ("BreakStmt", "ContinueStmt", "ReturnStmt", "GotoStmt")):
            raise ToolLimit("jump inside a loop")
        for _ in range(300):
            c = const(self.cond(st.clone(), cond)) if cond.get("kind") else None
            if c is None:
                return self.maploop(st, cond, inc, body)
            if c == 0:
                return st
            self.cond(st, cond)
            st = self.run(st, body)
            if st is None:
                return None
            if inc.get("kind"):
                self.ev(st, inc)
        raise ToolLimit("long loop")

    def diff(self, a, b):
        """constant step from value a to value b, or None"""
        if isinstance(a, V) and isinstance(b, V) and z3.is_bv(a.e):
            return const(b.e - a.e)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return const(b.i - a.i)
        return None

    def at(self, v, d, k):
        if isinstance(v, V):
            w = v.e.size()
            kk = k if w == 64 else z3.Extract(w - 1, 0, k)
            return V(simp(v.e + kk * z3.BitVecVal(d, w)), v.s)
        return Ptr(v.obj, simp(v.i + k * c64(d)), v.w, v.s)

    def maploop(self, st, cond, inc, body):
        def once(s):
            r = self.run(s, body)
            if r is None:
                raise ToolLimit("loop body ends the path")
            if inc.get("kind"):
                self.ev(r, inc)
            return r
        nobj, nthr, nwr = self.nobj, len(self.throws), len(self.written)
        a = once(st.clone())
        step, arrs = {}, []
        for k, v in st.m.items():
            x = a.m.get(k)
            if x is v:
                continue
            if isinstance(v, Arr):
                arrs.append(k)
                continue
            d = self.diff(v, x)
            if d is not None:
                step[k] = d
            else:
                step[k] = None           # set anew in each round; must not be read before (checked below)
        k = z3.FreshConst(z3.BitVecSort(64), "round")
        b = st.clone()
        b.rd, b.wr = [], []
        poison = {}
        for o, d in step.items():
            if d is None:
                v = st.m[o]
                if isinstance(v, V):
                    p = z3.FreshConst(v.e.sort(), "poison")
                    b.m[o] = V(p, v.s)
                    poison[o] = p
                elif isinstance(v, Ptr):
                    p = z3.FreshConst(z3.BitVecSort(64), "poison")
                    b.m[o] = Ptr("nowhere", p, v.w, v.s)
                    poison[o] = p
                elif v is None or isinstance(v, Opaque):
                    pass
                else:
                    raise ToolLimit("loop changes an object")
            else:
                b.m[o] = self.at(st.m[o], d, k)
        b2 = b.clone()
        cb = self.cond(b2, cond)
        e = once(b)
        if len(self.throws) != nthr or len(self.written) != nwr:
            raise ToolLimit("throw or output inside a loop")
        for o, d in step.items():
            if d is not None:
                w = self.at(st.m[o], d, k + 1)
                x = e.m[o]
                self.need(st, (x.e == w.e) if isinstance(x, V) else (x.i == w.i), [])
        N = None
        for cand in self.lengths:
            cn = z3.substitute(cb, (k, cand))
            if self.valid(st, [z3.ULT(k, cand)], cb) and self.valid(st, [], z3.Not(cn)):
                N = cand
                break
        if N is None:
            raise ToolLimit("number of rounds not found")
        new = {}
        for o in arrs:
            ws = [i for (q, i) in e.wr if q == o]
            rs = [i for (q, i) in e.rd if q == o]
            if not ws:
                raise ToolLimit("array changed without a write")
            w0 = ws[0]
            for i in ws[1:] + rs:
                self.need(st, i == w0, [z3.ULT(k, N)])
            base = simp(z3.substitute(w0, (k, c64(0))))
            if not self.valid(st, [z3.ULT(k, N)], w0 == base + k):
                raise ToolLimit("element written is not the element of the round")
            val = e.m[o].f(w0)
            if any(self.mentions(val, p) for p in poison.values()):
                raise ToolLimit("value carried from round to round")
            old = st.m[o]

            def g(i, base=base, val=val, old=old, N=N, k=k):
                j = simp(i - base)
                return z3.If(z3.ULT(j, N), z3.substitute(val, (k, j)), old.f(i))
            new[o] = Arr(old.w, g, old.n)
        # an array that is read but also written elsewhere was excluded above: reads see the old contents
        for o in {q for q, _ in e.rd} - set(arrs):
            pass
        for o, d in step.items():
            if d is not None:
                st.m[o] = self.at(st.m[o], d, N)
            elif isinstance(st.m[o], V):
                st.m[o] = V(z3.FreshConst(st.m[o].e.sort(), "after"), st.m[o].s)
        st.m.update(new)
        self.loops_summarized += 1
        return st

    def mentions(self, e, v):
        seen, todo = set(), [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.eq(v):
                return True
            todo.extend(x.children())
        return False

    def valid(self, st, hy, g):
        s = z3.Solver()
        s.set("timeout", 5000)
        for h in self.hyps + list(hy) + [st.pc]:
            s.add(h)
        s.add(z3.Not(g))
        self.ndecide += 1
        return s.check() == z3.unsat

    def need(self, st, g, hy):
        if not self.valid(st, hy, g):
            raise ToolLimit("rounds of the loop are not independent")

    # ------------------------------------------------------------ expressions
    def rv(self, st, v):
        if isinstance(v, Ptr):
            return self.load(st, v)
        if isinstance(v, Vec) and v.obj in st.m and isinstance(st.m[v.obj], V):
            return st.m[v.obj]
        return v

    def conv(self, v, t):
        t = bare(t)
        if t == "bool":
            return V(v.e if z3.is_bool(v.e) else v.e != 0, None)
        w = width(t)
        if w is None:
            raise ToolLimit("conversion to " + t)
        if z3.is_bool(v.e):
            return V(z3.If(v.e, z3.BitVecVal(1, w[0]), z3.BitVecVal(0, w[0])), w[1])
        a = v.e.size()
        if w[1] is None or v.s is None:
            if w[1] is None and v.s is None and a == w[0]:
                return v
            if w[1] is None and v.s is None:
                f = z3.Function("float_to_double" if a == 32 else "double_to_float", z3.BitVecSort(a), z3.BitVecSort(w[0]))
                return V(f(v.e), None)
            c = const(v.e)
            if c == 0:
                return V(z3.BitVecVal(0, w[0]), w[1])
            raise ToolLimit("conversion between integer and float")
        if w[0] == a:
            return V(v.e, w[1])
        if w[0] < a:
            return V(z3.Extract(w[0] - 1, 0, v.e), w[1])
        return V(z3.SignExt(w[0] - a, v.e) if v.s else z3.ZeroExt(w[0] - a, v.e), w[1])

    def ev(self, st, n):
        k = n.get("kind")
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise ToolLimit("expression " + str(k))
        return m(st, n)

    def e_ParenExpr(self, st, n):
        return self.ev(st, n["inner"][0])
    e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_FullExpr = e_SubstNonTypeTemplateParmExpr = e_ParenExpr

    def e_IntegerLiteral(self, st, n):
        w = width(ntype(n))
        return V(z3.BitVecVal(int(n["value"]), w[0]), w[1])

    def e_CharacterLiteral(self, st, n):
        return V(z3.BitVecVal(int(n["value"]), 8), True)

    def e_FloatingLiteral(self, st, n):
        import struct
        w = width(ntype(n))
        x = float(n["value"])
        b = struct.unpack("<I", struct.pack("<f", x))[0] if w[0] == 32 else struct.unpack("<Q", struct.pack("<d", x))[0]
        return V(z3.BitVecVal(b, w[0]), None)

    def e_CXXBoolLiteralExpr(self, st, n):
        return V(z3.BoolVal(bool(n["value"])), None)

    def e_StringLiteral(self, st, n):
        return Text(z3.BoolVal(n.get("value", "") in ('""', "")))

    def e_CXXDefaultArgExpr(self, st, n):
        return Opaque()

    def e_UnaryExprOrTypeTraitExpr(self, st, n):
        if n.get("name") != "sizeof":
            raise ToolLimit("type trait")
        a = n.get("argType")
        t = (a.get("desugaredQualType") or a["qualType"]) if a else qt(n["inner"][0])
        w = width(t)
        if w is None:
            raise ToolLimit("sizeof " + t)
        return V(c64(max(1, w[0] // 8)), False)

    def e_DeclRefExpr(self, st, n):
        r = n.get("referencedDecl") or {}
        i = r.get("id")
        for env in (self.env[-1],):
            if i in env:
                return env[i]
        if r.get("kind") == "EnumConstantDecl":
            v = self.P.enums.get(i)
            if v is None:
                raise ToolLimit("enum " + r.get("name", ""))
            return V(z3.BitVecVal(v, 32), False)
        g = self.P.globals.get(i)
        if g:
            return self.globalvar(st, g, self.P.gcanon[g])
        if r.get("kind") == "VarDecl":
            d = self.P.decls.get(i)
            if d is not None:
                return self.globalvar(st, r.get("name", ""), d)
        raise ToolLimit("reference to " + r.get("name", "?"))

    def globalvar(self, st, q, node):
        key = "global " + q
        if key not in st.m:
            self.env.append({})
            try:
                self.declare(st, node)
                l = self.env[-1][node["id"]]
            finally:
                self.env.pop()
            # only constants may be read: a variable could have been changed by anyone
            if not (node.get("type", {}).get("qualType", "").startswith("const") or node.get("storageClass") == "static"):
                raise ToolLimit("global variable " + q)
            st.m[key] = l
        return st.m[key]

    def cast(self, st, n):
        ck = n.get("castKind")
        x = n["inner"][-1]
        v = self.ev(st, x)
        t = qt(n)
        if ck == "LValueToRValue":
            if isinstance(v, Ptr):
                return self.load(st, v)
            if isinstance(v, Vec):
                o = st.m.get(v.obj)
                if isinstance(o, (V, Ptr)):
                    return o
            return v
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "UncheckedDerivedToBase", "DerivedToBase", "FunctionToPointerDecay", "ToVoid"):
            return v
        if ck == "ArrayToPointerDecay":
            if isinstance(v, Vec):
                a = st.m[v.obj]
                return Ptr(v.obj, c64(0), a.w, v.s)
            return v
        if ck == "BitCast":
            t = bare(qt(n))
            if not t.endswith("*"):
                raise ToolLimit("cast to " + t)
            w = width(t[:-1])
            if w is None:
                return v if "void" in t else self.limit("cast to " + t)
            if not isinstance(v, Ptr):
                raise ToolLimit("cast of an object")
            if w[0] == v.w or v.i is None:
                return Ptr(v.obj, v.i, w[0], w[1])
            if const(v.i) == 0:
                return Ptr(v.obj, c64(0), w[0], w[1])
            raise ToolLimit("cast of an inner pointer")
        if ck in ("IntegralCast", "IntegralToBoolean", "FloatingCast", "BooleanToSignedIntegral", "IntegralToFloating", "FloatingToIntegral"):
            v = self.rv(st, v)
            if ck in ("IntegralToFloating", "FloatingToIntegral"):
                c = const(v.e)
                if c == 0:
                    return V(z3.BitVecVal(0, width(t)[0]), width(t)[1])
                raise ToolLimit("conversion between integer and float")
            return self.conv(v, t)
        raise ToolLimit("cast " + str(ck))
    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXReinterpretCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = cast

    def limit(self, s):
        raise ToolLimit(s)

    def arith(self, op, a, b, t):
        x, y = a.e, b.e
        if op in ("<<", ">>"):
            w = width(t)
            n = y if y.size() == x.size() else z3.ZeroExt(x.size() - y.size(), y) if y.size() < x.size() else z3.Extract(x.size() - 1, 0, y)
            return V(x << n if op == "<<" else (x >> n if a.s else z3.LShR(x, n)), a.s)
        if z3.is_bool(x) or z3.is_bool(y):
            x, y = (self.truth(a), self.truth(b))
            if op in ("==", "!="):
                return V(x == y if op == "==" else x != y, None)
            if op in ("&", "|"):
                return V(z3.And(x, y) if op == "&" else z3.Or(x, y), None)
            raise ToolLimit("bool " + op)
        if a.s is None or b.s is None:
            raise ToolLimit("arithmetic on floats")
        if x.size() != y.size():
            raise ToolLimit("operands of different width")
        u = not a.s
        f = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
             "/": lambda: z3.UDiv(x, y) if u else x / y, "%": lambda: z3.URem(x, y) if u else z3.SRem(x, y)}.get(op)
        if f:
            return V(f(), a.s)
        g = {"<": lambda: z3.ULT(x, y) if u else x < y, ">": lambda: z3.UGT(x, y) if u else x > y, "<=": lambda: z3.ULE(x, y) if u else x <= y,
             ">=": lambda: z3.UGE(x, y) if u else x >= y, "==": lambda: x == y, "!=": lambda: x != y}.get(op)
        if g:
            return V(g(), None)
        raise ToolLimit("operator " + op)

    def e_BinaryOperator(self, st, n):
        op = n["opcode"]
        l, r = n["inner"]
        if op == "=":
            v = self.ev(st, r)
            d = self.ev(st, l)
            return self.assign(st, d, v)
        if op == ",":
            self.ev(st, l)
            return self.ev(st, r)
        if op in ("&&", "||"):
            a = self.cond(st, l)
            ca = const(a)
            if ca is not None:
                if bool(ca) == (op == "||"):
                    return V(z3.BoolVal(bool(ca)), None)
                return V(self.cond(st, r), None)
            b = self.cond(st, r)
            return V(z3.And(a, b) if op == "&&" else z3.Or(a, b), None)
        a, b = self.ev(st, l), self.ev(st, r)
        if isinstance(a, Ptr) and a.i is not None and "*" in ntype(l) or isinstance(b, Ptr) and b.i is not None and "*" in ntype(r):
            return self.parith(st, op, a, b)
        return self.arith(op, self.rv(st, a), self.rv(st, b), ntype(n))

    def parith(self, st, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj:
                raise ToolLimit("pointers into different objects")
            if op == "-":
                return V(a.i - b.i, True)
            f = {"==": a.i == b.i, "!=": a.i != b.i, "<": a.i < b.i, "<=": a.i <= b.i, ">": a.i > b.i, ">=": a.i >= b.i}.get(op)
            if f is None:
                raise ToolLimit("pointer " + op)
            return V(f, None)
        if isinstance(b, Ptr):
            a, b = b, a
        d = self.conv(self.rv(st, b), "long").e
        return Ptr(a.obj, simp(a.i + d if op == "+" else a.i - d), a.w, a.s)

    def assign(self, st, d, v):
        if isinstance(d, Ptr):
            v = self.rv(st, v)
            self.store(st, d, v)
            return d
        if isinstance(d, Vec):
            if isinstance(v, Vec) and isinstance(st.m.get(v.obj), (Ptr, V)):
                v = st.m[v.obj]
            if isinstance(v, (Ptr, V, Opaque)):
                st.m[d.obj] = v
                return d
        raise ToolLimit("assignment")

    def e_CompoundAssignOperator(self, st, n):
        op = n["opcode"][:-1]
        d, r = self.ev(st, n["inner"][0]), self.rv(st, self.ev(st, n["inner"][1]))
        lt = (n.get("computeLHSType") or {})
        lt = lt.get("desugaredQualType") or lt.get("qualType") or ntype(n)
        if isinstance(d, Vec) and isinstance(st.m.get(d.obj), Ptr):
            p = self.parith(st, op, st.m[d.obj], r)
            st.m[d.obj] = p
            return d
        o = self.rv(st, d)
        a = self.conv(o, lt)
        b = r
        if op not in ("<<", ">>"):
            b = self.conv(r, lt)
        v = self.arith(op, a, b, lt)
        self.assign(st, d, self.conv(v, ntype(n)))
        return d

    def e_UnaryOperator(self, st, n):
        op = n["opcode"]
        x = self.ev(st, n["inner"][0])
        if op == "&":
            if isinstance(x, Ptr):
                return x if x.i is not None else Ptr(x.obj, c64(0), x.w, x.s)
            if isinstance(x, Vec) and isinstance(st.m.get(x.obj), Arr):
                return Ptr(x.obj, c64(0), st.m[x.obj].w, x.s)
            raise ToolLimit("address of an object")
        if op == "*":
            if isinstance(x, Vec):
                x = st.m[x.obj]
            if not isinstance(x, Ptr):
                raise ToolLimit("dereference")
            return x
        if op in ("++", "--"):
            return self.incdec(st, x, 1 if op == "++" else -1, n.get("isPostfix"))
        v = self.rv(st, x)
        if op == "!":
            return V(z3.Not(self.truth(v)), None)
        if op == "~":
            return V(~v.e, v.s)
        if op == "-":
            return V(-v.e, v.s)
        if op == "+":
            return v
        raise ToolLimit("unary " + op)

    def incdec(self, st, x, d, post):
        if isinstance(x, Vec):
            p = st.m[x.obj]
            if not isinstance(p, Ptr):
                raise ToolLimit("increment of an object")
            st.m[x.obj] = Ptr(p.obj, simp(p.i + c64(d)), p.w, p.s)
            return p if post else x
        v = self.rv(st, x)
        self.store(st, x, V(simp(v.e + z3.BitVecVal(d, v.e.size())), v.s))
        return v if post else x

    def e_ConditionalOperator(self, st, n):
        c = self.cond(st, n["inner"][0])
        k = const(c)
        if k is not None:
            return self.ev(st, n["inner"][1 if k else 2])
        a, b = self.rv(st, self.ev(st, n["inner"][1])), self.rv(st, self.ev(st, n["inner"][2]))
        return self.mergev(c, a, b)

    def e_ArraySubscriptExpr(self, st, n):
        a, b = self.ev(st, n["inner"][0]), self.ev(st, n["inner"][1])
        if isinstance(a, Vec) and isinstance(st.m.get(a.obj), Ptr):
            a = st.m[a.obj]
        if not isinstance(a, Ptr):
            raise ToolLimit("subscript of an object")
        d = self.conv(self.rv(st, b), "long").e
        return Ptr(a.obj, simp(a.i + d), a.w, a.s)

    def e_MemberExpr(self, st, n):
        b = self.ev(st, n["inner"][0])
        if isinstance(b, Vec):
            w = width(ntype(n))
            if w is None:
                return b
            o = st.m.get(b.obj)
            if o is None:
                st.m[b.obj] = V(z3.FreshConst(z3.BitVecSort(w[0]), "uninit"), w[1])
            return Ptr(b.obj, None, w[0], w[1])
        raise ToolLimit("member access")

    def e_CXXConstructExpr(self, st, n):
        t = ntype(n)
        ch = n.get("inner", ())
        el = self.elem(t)
        if el is not None and "iterator" not in t:
            args = [self.ev(st, c) for c in ch if c.get("kind") != "CXXDefaultArgExpr"]
            ps = [st.m[a.obj] if isinstance(a, Vec) and isinstance(st.m.get(a.obj), Ptr) else a for a in args]
            if len(ps) == 2 and all(isinstance(a, Ptr) and a.i is not None for a in ps) and all(width(qt(c)) is None for c in ch[:2]):
                # from a range
                self.models_used.add("std::vector(first, last)")
                a, b = ps
                if a.obj != b.obj or not isinstance(st.m[a.obj], Arr):
                    raise ToolLimit("vector from a range of something")
                src, i0 = st.m[a.obj], a.i
                one = self.conv(V(src.f(c64(0)), a.s), self.elname(t)).e
                if src.w != a.w:
                    raise ToolLimit("vector from a view")
                return Arr(el[0], lambda i: self.conv(V(src.f(simp(i0 + i)), a.s), self.elname(t)).e, simp(b.i - a.i))
            args = [self.rv(st, a) for a in args]
            if len(args) in (1, 2) and isinstance(args[0], V):
                self.models_used.add("std::vector(n)")
                z = args[1].e if len(args) == 2 and isinstance(args[1], V) else z3.BitVecVal(0, el[0])
                nn = self.conv(args[0], "long").e
                return Arr(el[0], lambda i, z=z: z, nn)
            if not args:
                return Arr(el[0], lambda i: z3.BitVecVal(0, el[0]), c64(0))
            raise ToolLimit("vector constructor")
        if "string" in t:
            a = [self.text(st, self.ev(st, c)) for c in ch if c.get("kind") != "CXXDefaultArgExpr"]
            return Text(z3.BoolVal(True)) if not a else a[0] if len(a) == 1 and a[0] is not None else Text(z3.FreshConst(z3.BoolSort(), "empty"))
        if len(ch) == 1:
            v = self.ev(st, ch[0])
            if isinstance(v, Vec) and isinstance(st.m.get(v.obj), Ptr):
                return st.m[v.obj]
            return v
        return Opaque()

    def text(self, st, v):
        if isinstance(v, Vec):
            v = st.m.get(v.obj)
        return v if isinstance(v, Text) else None

    def e_CXXTemporaryObjectExpr(self, st, n):
        return Opaque()

    def e_CXXMemberCallExpr(self, st, n):
        m = n["inner"][0]
        while m.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
            m = m["inner"][0]
        name = m.get("name", "")
        b = self.ev(st, m["inner"][0])
        args = n["inner"][1:]
        o = st.m.get(b.obj) if isinstance(b, Vec) else None
        if isinstance(o, str) and o == "stream":
            return self.stream(st, name, [self.ev(st, a) for a in args], b)
        if isinstance(o, Arr):
            if name in ("begin", "cbegin", "data"):
                return Ptr(b.obj, c64(0), o.w, b.s)
            if name in ("end", "cend"):
                return Ptr(b.obj, o.n, o.w, b.s)
            if name == "size":
                return V(o.n, False)
            if name == "empty":
                return V(o.n == 0, None)
            if name == "front":
                return Ptr(b.obj, c64(0), o.w, b.s)
            if name == "at":
                return Ptr(b.obj, self.conv(self.rv(st, self.ev(st, args[0])), "long").e, o.w, b.s)
        if isinstance(o, Ptr) and name == "base":
            return o
        if isinstance(o, Text) and name in ("empty", "size", "length"):
            return V(o.e, None) if name == "empty" else V(z3.If(o.e, c64(0), c64(1)), False)
        if isinstance(o, Opaque) or isinstance(b, Opaque):
            return Opaque()
        raise ToolLimit("member function " + name)

    def streamok(self):
        """neither read nor write has failed so far"""
        return z3.And(*[z3.Implies(pc, ok) for pc, ok in self.streamops])

    def stream(self, st, name, args, b):
        if name in ("operator bool", "good"):
            return V(self.streamok(), None)
        if name in ("fail", "operator!"):
            return V(z3.Not(self.streamok()), None)
        if name in ("eof", "bad"):
            return V(z3.FreshConst(z3.BoolSort(), "eof"), None)
        p, n = args[0], self.conv(self.rv(st, args[1]), "long").e
        if isinstance(p, Vec):
            p = st.m[p.obj]
        if not isinstance(p, Ptr) or p.w != 8:
            raise ToolLimit("stream buffer")
        if name == "write":
            self.written.append((st.pc, st.clone(), p, simp(n)))
            self.streamops.append((st.pc, z3.FreshConst(z3.BoolSort(), "write_ok")))
            return b
        if name == "read":
            o = st.m[p.obj]
            if const(p.i) != 0:
                raise ToolLimit("read into the middle of a buffer")
            k = o.w // 8
            ok = z3.FreshConst(z3.BoolSort(), "read_ok")
            self.readok = ok
            inp = self.input
            self.readn = simp(n)

            def f(i, k=k, o=o, n=n):
                w = z3.Concat(*[inp(simp(i * c64(k) + c64(j))) for j in reversed(range(k))]) if k > 1 else inp(i)
                c = simp(z3.ULT(i * c64(k), n))
                if z3.is_true(c):
                    return w
                return z3.If(c, w, o.f(i))
            st.m[p.obj] = Arr(o.w, f, o.n)
            self.streamops.append((st.pc, ok))
            return b
        raise ToolLimit("stream " + name)

    def callee(self, n):
        m = n["inner"][0]
        while m.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
            m = m["inner"][0]
        return m

    def e_CXXOperatorCallExpr(self, st, n):
        c = self.callee(n)
        name = (c.get("referencedDecl") or {}).get("name", "")
        args = [self.ev(st, a) for a in n["inner"][1:]]
        a = args[0]
        o = st.m.get(a.obj) if isinstance(a, Vec) else a if isinstance(a, Ptr) else None
        if isinstance(o, str) and o == "stream":
            return self.stream(st, name, args[1:], a)
        if name == "operator[]":
            d = self.conv(self.rv(st, args[1]), "long").e
            if isinstance(o, Arr):
                return Ptr(a.obj, simp(d), o.w, a.s)
            if isinstance(o, Ptr):
                return Ptr(o.obj, simp(o.i + d), o.w, o.s)
        if isinstance(o, Ptr):
            if name == "operator*":
                return o
            if name in ("operator++", "operator--"):
                return self.incdec(st, a, 1 if name == "operator++" else -1, len(args) == 2)
            b = args[1]
            if isinstance(b, Vec) and isinstance(st.m.get(b.obj), Ptr):
                b = st.m[b.obj]
            if name in ("operator+", "operator-", "operator==", "operator!=", "operator<"):
                return self.parith(st, name[8:], o, b)
            if name in ("operator+=", "operator-=") and isinstance(a, Vec):
                st.m[a.obj] = self.parith(st, name[8], o, b)
                return a
            if name == "operator=" and isinstance(a, Vec):
                st.m[a.obj] = b
                return a
        ts = [self.text(st, x) for x in args]
        if any(t is not None for t in ts):
            if name in ("operator==", "operator!=") and all(t is not None for t in ts) and any(const(t.e) == 1 for t in ts):
                x = z3.And(*[t.e for t in ts])
                return V(x if name == "operator==" else z3.Not(x), None)
            if name == "operator+" and all(t is not None for t in ts):
                return Text(z3.And(*[t.e for t in ts]))
            if name in ("operator=", "operator+=") and ts[0] is not None and ts[1] is not None:
                st.m[a.obj] = ts[1] if name == "operator=" else Text(z3.And(ts[0].e, ts[1].e))
                return a
            raise ToolLimit("operation on texts")
        if any(isinstance(x, Opaque) or isinstance(x, Vec) and isinstance(st.m.get(x.obj), Opaque) for x in args):
            return Opaque()
        raise ToolLimit("operator " + name)

    def e_CallExpr(self, st, n):
        c = self.callee(n)
        r = c.get("referencedDecl") or {}
        f = self.P.func_of_decl(r.get("id"))
        if r.get("name") == "ToString":
            return Text(z3.FreshConst(z3.BoolSort(), "empty"))
        if f is not None and f.body is not None and f.qname.startswith("NRLib"):
            return self.call(st, f, [self.ev(st, a) for a in n["inner"][1:]])
        name = r.get("name", "")
        args = [self.ev(st, a) for a in n["inner"][1:]]
        ptr = lambda a: st.m[a.obj] if isinstance(a, Vec) and isinstance(st.m.get(a.obj), Ptr) else a
        if name == "distance":
            self.models_used.add("std::distance")
            return self.parith(st, "-", ptr(args[1]), ptr(args[0]))
        if name == "copy" and len(args) == 3:
            self.models_used.add("std::copy")
            a, b, d = [ptr(x) for x in args]
            if not all(isinstance(x, Ptr) for x in (a, b, d)) or a.obj != b.obj or a.obj == d.obj:
                raise ToolLimit("copy")
            x, y = st.m[a.obj], st.m[d.obj]
            if not (isinstance(x, Arr) and isinstance(y, Arr)) or x.w != a.w or y.w != d.w or x.w != y.w or (a.s is None) != (d.s is None):
                raise ToolLimit("copy")
            cnt = simp(b.i - a.i)

            def f(i, x=x, y=y):
                j = simp(i - d.i)
                return z3.If(z3.ULT(j, cnt), x.f(simp(a.i + j)), y.f(i))
            st.m[d.obj] = Arr(y.w, f, y.n)
            return Ptr(d.obj, simp(d.i + cnt), d.w, d.s)
        if name in ("memcpy", "__builtin_memcpy", "memmove"):
            self.models_used.add("memcpy")
            return self.memcpy(st, ptr(args[0]), ptr(args[1]), self.conv(self.rv(st, args[2]), "long").e)
        E = {"native_to_big": 1, "big_to_native": 1, "endian_reverse": 1, "native_to_little": 0, "little_to_native": 0, "__builtin_bswap16": 1,
             "__builtin_bswap32": 1, "__builtin_bswap64": 1}
        base = name[:-8] if name.endswith("_inplace") else name
        if base in E:
            self.models_used.add("boost::endian (little endian machine)")
            v = self.rv(st, args[0])
            w = v.e.size()
            x = z3.Concat(*[z3.Extract(8 * j + 7, 8 * j, v.e) for j in range(w // 8)]) if E[base] else v.e
            if name.endswith("_inplace"):
                self.assign(st, args[0], V(x, v.s))
                return None
            return V(x, v.s)
        if name in ("move", "forward"):
            return args[0]
        if any(isinstance(x, Opaque) for x in args):
            return Opaque()
        raise ToolLimit("call of " + name)

    def memcpy(self, st, d, s, n):
        if not (isinstance(d, Ptr) and isinstance(s, Ptr)):
            raise ToolLimit("memcpy")
        a, b = st.m[d.obj], st.m[s.obj]
        if isinstance(a, V) or isinstance(b, V):
            v = self.load(st, Ptr(s.obj, c64(0) if isinstance(b, Arr) else None, d.w, d.s))
            if const(n) != d.w // 8:
                raise ToolLimit("memcpy of a part")
            self.store(st, d, v)
            return None
        if a.w != b.w:
            raise ToolLimit("memcpy between arrays of different width")
        k = a.w // 8
        di, si, fa, fb = d.i, s.i, a.f, b.f
        if d.w != a.w or s.w != b.w:
            if const(di) != 0 or const(si) != 0:
                raise ToolLimit("memcpy of a part")

        def f(i):
            j = simp(i - di)
            c = simp(z3.ULT(j * c64(k), n))
            return fb(simp(si + j)) if z3.is_true(c) else z3.If(c, fb(simp(si + j)), fa(i))
        st.m[d.obj] = Arr(a.w, f, a.n)
        return None

    # ------------------------------------------------------------ obligations
    def oblige(self, hy, goal, name, where=""):
        o = Obl(name, self.hyps + list(hy), goal, "post", where)
        o.bv = True
        self.obls.append(o)
