"""Symbolic executor / verification-condition generator over the clang AST of the real code."""
import re, time
from fractions import Fraction
import z3
from . import terms as T
from .terms import iv, rv, norm, poly, toreal, TRUE, FALSE, band, bnot, ite, mathfn, num, is_num
from .values import *
from .frontend import qt, strip_type, norm_cls, Func

INTS = {"int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False),
        "short": (16, True), "unsigned short": (16, False), "char": (8, True), "signed char": (8, True),
        "unsigned char": (8, False), "long long": (64, True), "unsigned long long": (64, False), "bool": (1, False),
        "size_t": (64, False), "unsigned": (32, False), "size_type": (64, False), "ptrdiff_t": (64, True),
        "uint32_t": (32, False), "int32_t": (32, True), "uint64_t": (64, False), "std::size_t": (64, False),
        "difference_type": (64, True), "__difference_type": (64, True)}
FLOATS = {"float", "double", "long double", "_Float64"}


class Obl:
    def __init__(self, name, hyps, goal, kind, where=""):
        self.name, self.hyps, self.goal, self.kind, self.where = name, hyps, goal, kind, where
        self.status = None
        self.backend = None
        self.t = 0.0
        self.model = None
        self.detail = ""


class Frame:
    __slots__ = ("env", "this", "returns", "breaks", "conts", "func", "pclen", "long")

    def __init__(self, func, this):
        self.long = set()        # loops known to be too long to unroll
        self.env, self.this, self.func = {}, this, func
        self.returns, self.breaks, self.conts = [], [], []
        self.pclen = 0


class Thrown(Exception):
    """every path of an expression throws"""


class Arg:
    """an evaluated call argument"""
    __slots__ = ("lv", "val", "node")

    def __init__(self, lv=None, val=None, node=None):
        self.lv, self.val, self.node = lv, val, node


def ctype(node):
    return strip_type(qt(node))


class Exec:
    def __init__(self, prog, contracts=None, float_mode="real", check_bounds=False):
        self.prog = prog
        self.contracts = contracts or {}
        self.frames = []
        self.throws = [[]]
        self.facts = []
        self.obls = []
        self.nroot = 0
        self.check_bounds = check_bounds
        self.inlined = {}
        self.used_contracts = {}
        self.models_used = set()
        self.notes = set()
        self.dec_cache = {}
        self.ndecide = 0
        self.t_decide = 0.0
        self.globals = {}
        self.check_defined = False       # obligations for divisions, logarithms and roots
        self.depth = 0
        self.deadline = None
        self.limit_unroll = 40
        self.loops_summarized = 0
        self.loops_havoced = 0
        self.skolem = []

    # ------------------------------------------------------------------ utilities
    def newroot(self, what="o"):
        self.nroot += 1
        return "%s#%d" % (what, self.nroot)

    def alloc(self, st, val, what="o"):
        r = self.newroot(what)
        st.store[r] = val
        return LV(r)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise ToolLimit("symbolic execution time limit")

    def decide(self, st, cond, timeout=1500):
        """is cond entailed by facts and the path condition? (True / False=not shown)"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        hy = self.facts + st.bools()
        key = (c.get_id(), tuple(h.get_id() for h in hy))
        if key in self.dec_cache:
            return self.dec_cache[key][0]
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", timeout)
        for h in hy:
            s.add(h)
        s.add(z3.Not(c))
        r = s.check() == z3.unsat
        if not r:
            from . import solve
            A = solve.apps(hy + [c], ("log", "ipow"))
            if A:
                for x in solve.log_axioms(A):
                    s.add(x)
                r = s.check() == z3.unsat
        self.ndecide += 1
        self.t_decide += time.time() - t0
        self.dec_cache[key] = (r, c, hy)
        return r

    def oblige(self, st, goal, name, kind="post", where=""):
        hy = self.facts + st.bools()
        self.obls.append(Obl(name, hy, goal, kind, where))

    def where(self, node):
        loc = node.get("loc") or {}
        rng = node.get("range", {}).get("begin", {})
        l = rng.get("line") or loc.get("line") or rng.get("expansionLoc", {}).get("line")
        f = self.frames[-1].func.qname if self.frames and self.frames[-1].func else ""
        return "%s%s" % (f, ":%s" % l if l else "")

    # ------------------------------------------------------------------ memory
    def load(self, st, lv):
        v = st.store.get(lv.root)
        if v is None:
            raise ToolLimit("read of unknown location %s" % (lv,))
        for k, x in lv.path:
            v = self.child(st, v, k, x)
        return v

    def child(self, st, v, k, x):
        if k == "f":
            if isinstance(v, Rec):
                if x not in v.f:
                    raise ToolLimit("no field %s in %s" % (x, v.cls))
                return v.f[x]
            raise ToolLimit("field %s of %s" % (x, type(v).__name__))
        if k == "i":
            return self.elem(st, v, x)
        raise ToolLimit("path " + k)

    def elem(self, st, v, idx):
        if isinstance(v, PrefixV):
            raise ToolLimit("element of a growing list")
        if isinstance(v, ListV):
            if is_num(idx):
                n = int(num(idx))
                if 0 <= n < len(v.items):
                    return v.items[n]
                self.oblige(st, FALSE, "index in bounds", "bounds")
                raise ToolLimit("index %d out of range of a %d-element array" % (n, len(v.items)))
            r = v.items[-1]
            for k in range(len(v.items) - 2, -1, -1):
                r = ite_val(T.beq(idx, iv(k)), v.items[k], r)
            return r
        if isinstance(v, ArrV):
            if self.check_bounds and v.size is not None:
                self.bound(st, v.size, idx)
            return self.read(st, v, idx)
        raise ToolLimit("subscript of %s" % type(v).__name__)

    def bound(self, st, size, idx):
        g = z3.simplify(z3.And(idx >= 0, idx < size))
        if z3.is_true(g):
            return
        f = self.frames[-1].func.qname if self.frames and self.frames[-1].func else "?"
        self.oblige(st, z3.And(idx >= 0, idx < size), "in-bounds access in " + f, "bounds")

    def store(self, st, lv, val):
        root = st.store.get(lv.root)
        if not lv.path:
            st.store[lv.root] = val
            return
        st.store[lv.root] = self._store(st, root, lv.path, val)

    def _store(self, st, v, path, val):
        if not path:
            return val
        (k, x), rest = path[0], path[1:]
        if k == "f":
            if not isinstance(v, Rec):
                raise ToolLimit("store to field %s of %s" % (x, type(v).__name__))
            return v.set(x, self._store(st, v.f.get(x), rest, val) if rest else val)
        if k == "i":
            if rest:
                inner = self._store(st, self.elem(st, v, x), rest, val)
            else:
                inner = val
            if isinstance(v, PrefixV):
                raise ToolLimit("store in a growing list")
            if isinstance(v, ListV):
                if is_num(x):
                    it = list(v.items)
                    n = int(num(x))
                    if not 0 <= n < len(it):
                        self.oblige(st, FALSE, "index in bounds", "bounds")
                        raise ToolLimit("store out of range")
                    it[n] = inner
                    return ListV(v.elem, it)
                v = as_arr(v)
            if isinstance(v, ArrV):
                if self.check_bounds and v.size is not None:
                    self.bound(st, v.size, x)
                return self.write(v, x, inner)
            raise ToolLimit("indexed store to %s" % type(v).__name__)
        raise ToolLimit("path " + k)

    def write(self, a, idx, val):
        idx = norm(idx)
        log = a.log
        if log and not log[-1].binders and z3.is_true(log[-1].guard) and z3.is_true(T.beq(log[-1].idx, idx)):
            log = log[:-1]
        return a.with_log(log + (WR((), TRUE, TRUE, idx, val),))

    def read(self, st, a, idx, top=None):
        """value of array a at idx, resolving the write log"""
        idx = norm(idx)
        hits = []
        for n in range(len(a.log) - 1, -1, -1):
            w = a.log[n]
            h, val = self.match(st, w, idx)
            if h is None or z3.is_false(h):
                continue
            hits.append((h, val))
            if z3.is_true(h):
                break
        else:
            b = self.read_base(st, a, idx)
            hits.append((TRUE, b))
        r = hits[-1][1]
        if not z3.is_true(hits[-1][0]):
            raise ToolLimit("internal: read")
        for h, val in reversed(hits[:-1]):
            if r is None:
                r = val
            else:
                r = ite_val(h, val, r)
        return r

    def read_base(self, st, a, idx):
        b = a.base
        if b.kind == "const":
            return b.data
        if b.kind == "fn":
            return b.data(idx)
        if b.kind == "loop":
            b.data.deps.append((idx, st.pc))
            return self.read(st, b.data.pre, idx)
        if b.kind == "ite":
            c, x, y = b.data
            return ite_val(c, self.read(st, x, idx), self.read(st, y, idx))
        raise ToolLimit("array base " + b.kind)

    # does write w hit idx?  returns (hit condition, value) or (None, None) for a proven miss
    def match(self, st, w, idx):
        if not w.binders:
            c = T.beq(w.idx, idx)
            if z3.is_false(c):
                return None, None
            h = band(w.guard, c)
            if not z3.is_true(h):
                if self.decide(st, bnot(h), 300):
                    return None, None
                if self.decide(st, h, 300):
                    h = TRUE
            return h, w.val
        sig = self.solve_idx(st, w, idx)
        if sig is None:
            raise ToolLimit("cannot resolve array index %s against write %s" % (str(idx)[:80], str(w.idx)[:80]))
        pairs, extra = sig
        h = band(*(extra + [subst(w.dom, pairs), subst(w.guard, pairs)]))
        h = z3.simplify(h) if not z3.is_true(h) else h
        if z3.is_false(h):
            return None, None
        if not z3.is_true(h):
            if self.decide(st, bnot(h), 500):
                return None, None
            if self.decide(st, h, 500):
                h = TRUE
        return h, subst(w.val, pairs)

    def solve_idx(self, st, w, idx):
        """find the binder values for which w.idx == idx.
        Returns (substitution, side conditions) with: exists binders in dom. w.idx == idx
        iff  side conditions and dom[substitution]; the preimage is unique (mixed radix)."""
        p = poly(w.idx)
        keys = {}
        rest = dict(p)
        for b in w.binders:
            k = T.atom_key(b)
            c, rest = T.coeff_of(rest, k)
            if c is None or not c:
                return None            # nonlinear, or binder absent from the index
            if T.poly_vars(c) & set(T.atom_key(x) for x in w.binders):
                return None
            keys[b] = c
        if T.poly_vars(rest) & set(T.atom_key(x) for x in w.binders):
            return None
        bids = set(b.get_id() for b in w.binders)
        if any(T.depends(T._atoms[a], bids) for m in rest for a in m) or \
           any(T.depends(T._atoms[a], bids) for c in keys.values() for m in c for a in m):
            return None
        tgt = T.padd(poly(idx), rest, -1)
        # order binders by stride: 1 | s1 | s2 ...
        items = list(keys.items())
        one = {(): Fraction(1)}
        neg1 = {(): Fraction(-1)}
        if len(items) == 1:
            b, c = items[0]
            if c == one:
                return [(b, T.from_poly(tgt, T.Int))], []
            if c == neg1:
                return [(b, T.from_poly(T.padd({}, tgt, -1), T.Int))], []
        chain, cur, todo = [], one, list(items)
        strides = []
        order = []
        # find chain
        while todo:
            nxt = None
            for b, c in todo:
                if c == cur:
                    nxt = (b, c)
                    break
            if nxt is None:
                cands = []
                for b, c in todo:
                    q, r = T.pdiv(c, cur)
                    if not r and q:
                        cands.append((sum(len(m) for m in c), len(c), b, c))
                if not cands:
                    return None
                cands.sort(key=lambda t: (t[0], t[1]))
                nxt = (cands[0][2], cands[0][3])
                if not order and nxt[1] != one:
                    order.append((None, one))
            order.append(nxt)
            todo = [(b, c) for b, c in todo if b is not nxt[0]]
            cur = nxt[1]
        if not order or order[0][1] != one:
            order.insert(0, (None, one))
        strides = [c for _, c in order]
        # radices
        radix = []
        for m in range(len(order) - 1):
            q, r = T.pdiv(strides[m + 1], strides[m])
            if r or not q:
                return None
            radix.append(T.from_poly(q, T.Int))
        # binders within [0, radix)
        s2 = st.clone()
        s2.assume(w.dom)
        for m, (b, c) in enumerate(order[:-1]):
            if b is None:
                if not self.decide(st, radix[m] >= 1):
                    return None
                continue
            if not self.decide(s2, z3.And(b >= 0, b < radix[m])):
                return None
        # polynomial decomposition of the target
        comps = [None] * len(order)
        work = dict(tgt)
        for m in range(len(order) - 1, -1, -1):
            if m == 0:
                comps[0] = work
                break
            q, work = T.pdiv(work, strides[m])
            comps[m] = q
        ok = True
        exprs = [T.from_poly(c, T.Int) for c in comps] if all(all(v.denominator == 1 for v in c.values()) for c in comps) else None
        if exprs is not None:
            for m in range(len(order) - 1):
                if not self.decide(st, z3.And(exprs[m] >= 0, exprs[m] < radix[m])):
                    ok = False
                    break
        else:
            ok = False
        if not ok:
            e = T.from_poly(tgt, T.Int)
            exprs = []
            work = e
            for m in range(len(order) - 1):
                exprs.append(work % radix[m])
                work = work / radix[m]
            exprs.append(work)
        extra, pairs = [], []
        for (b, c), x in zip(order, exprs):
            if b is None:
                extra.append(T.beq(x, iv(0)))
            else:
                pairs.append((b, x))
        return pairs, extra

    # ------------------------------------------------------------------ state merging
    def merge(self, states, base):
        """states: alive states that share the first `base` path conditions"""
        if len(states) == 1:
            return states[0]
        gs = [band(*[c for k, c in s.pc[base:] if k == "br"]) for s in states]
        out = states[-1].clone()
        pc = list(states[0].pc[:base])
        roots = []
        for s in states:
            for r in s.store:
                if r not in out.store:
                    out.store[r] = s.store[r]
        for i in range(len(states) - 2, -1, -1):
            s, g = states[i], gs[i]
            for r, v in s.store.items():
                o = out.store.get(r)
                if o is not v:
                    try:
                        out.store[r] = ite_val(g, v, o)
                    except ToolLimit as ex:
                        out.store[r] = Opaque("unmergeable: %s" % ex)
            for k, v in s.ghost.items():
                o = out.ghost.get(k)
                if o is not v:
                    out.ghost[k] = self.merge_ghost(g, v, o)
        for s, g in zip(states, gs):
            for k, c in s.pc[base:]:
                if k != "br":
                    pc.append(("fact", z3.Implies(g, c)))
        tot = z3.Or(*gs)
        if len(gs) == 2 and (gs[0].eq(bnot(gs[1])) or gs[1].eq(bnot(gs[0]))):
            tot = TRUE
        else:
            tot = z3.simplify(tot)
        if not z3.is_true(tot):
            pc.append(("br", tot))
        out.pc = tuple(pc)
        return out

    def merge_ghost(self, g, a, b):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return ite(g, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) == len(b) and all(x is y for x, y in zip(a, b)):
                return a
            n = 0
            while n < len(a) and n < len(b) and a[n] is b[n]:
                n += 1
            # events that happen on one side only are kept with their guard
            return a[:n] + tuple(("guard", g, e) for e in a[n:]) + tuple(("guard", bnot(g), e) for e in b[n:])
        if a is None:
            return b
        return a

    def become(self, st, other):
        st.store, st.pc, st.ghost = other.store, other.pc, other.ghost

    # ------------------------------------------------------------------ truth values
    def truth(self, v):
        if z3.is_bool(v):
            return v
        if is_scalar(v):
            if is_num(v):
                return z3.BoolVal(num(v) != 0)
            return v != 0
        if isinstance(v, PtrV):
            return z3.BoolVal(v.root is not None)
        raise ToolLimit("truth of %s" % type(v).__name__)

    def asint(self, v):
        if z3.is_bool(v):
            return ite(v, iv(1), iv(0))
        return v

    # ------------------------------------------------------------------ statements
    def run(self, n, st):
        """execute statement; returns False if no path falls through"""
        self.tick()
        k = n.get("kind")
        if k is None:
            return True
        m = getattr(self, "s_" + k, None)
        if m is not None:
            try:
                return m(n, st)
            except Thrown:
                return False
        # expression statement
        try:
            self.ev(n, st)
        except Thrown:
            return False
        return True

    def s_CompoundStmt(self, n, st):
        for c in n.get("inner", ()):
            if not self.run(c, st):
                return False
        return True

    def s_NullStmt(self, n, st):
        return True

    def s_DeclStmt(self, n, st):
        for c in n.get("inner", ()):
            k = c.get("kind")
            if k == "VarDecl":
                self.declare(c, st)
        return True

    def declare(self, c, st):
        fr = self.frames[-1]
        t = qt(c)
        inner = [x for x in c.get("inner", ()) if x.get("kind") not in ("FullComment",)]
        if t.rstrip().endswith("&"):
            fr.env[c["id"]] = self.lv(inner[0], st)
            return
        if c.get("storageClass") == "static" and not (t.startswith("const ") or c.get("constexpr") or t.endswith(" const")):
            raise ToolLimit("static local " + c.get("name", ""))
        if inner and c.get("init"):
            v = self.init_value(inner[-1], st, t)
        else:
            v = self.default_value(t, st, uninit=True, name=c.get("name", "v"))
        fr.env[c["id"]] = self.alloc(st, v, c.get("name", "v"))

    def init_value(self, n, st, t):
        return self.ev(n, st)

    def s_IfStmt(self, n, st):
        inner = list(n.get("inner", ()))
        if n.get("hasInit"):
            if not self.run(inner.pop(0), st):
                return False
        if n.get("hasVar"):
            self.run(inner.pop(0), st)
        c = self.truth(self.ev(inner[0], st))
        then = inner[1]
        els = inner[2] if len(inner) > 2 else None
        return self.branch(st, c, lambda s: self.run(then, s), (lambda s: self.run(els, s)) if els else (lambda s: True))

    def branch(self, st, c, f1, f2):
        c = z3.simplify(c) if not (z3.is_true(c) or z3.is_false(c)) else c
        if not (z3.is_true(c) or z3.is_false(c)):
            if self.decide(st, c, 800):
                c = TRUE
            elif self.decide(st, bnot(c), 800):
                c = FALSE
        if z3.is_true(c):
            return f1(st)
        if z3.is_false(c):
            return f2(st)
        base = len(st.pc)
        s1, s2 = st.clone(), st.clone()
        s1.assume(c, "br")
        s2.assume(bnot(c), "br")
        a1, a2 = f1(s1), f2(s2)
        if a1 and a2:
            self.become(st, self.merge([s1, s2], base))
            return True
        if a1:
            self.become(st, s1)
            return True
        if a2:
            self.become(st, s2)
            return True
        return False

    def s_ReturnStmt(self, n, st):
        fr = self.frames[-1]
        inner = n.get("inner", ())
        v = None
        if inner:
            if inner[0].get("valueCategory") == "lvalue":
                v = self.lv(inner[0], st)
            else:
                v = self.ev(inner[0], st)
        fr.returns.append((st.clone(), v))
        return False

    def s_BreakStmt(self, n, st):
        self.frames[-1].breaks.append(st.clone())
        return False

    def s_ContinueStmt(self, n, st):
        self.frames[-1].conts.append(st.clone())
        return False

    def s_CXXTryStmt(self, n, st):
        inner = n.get("inner", ())
        base = len(st.pc)
        self.throws.append([])
        alive = self.run(inner[0], st)
        thrown = self.throws.pop()
        outs = [st.clone()] if alive else []
        handler = inner[1]
        hb = [c for c in handler.get("inner", ()) if c.get("kind") == "CompoundStmt"][-1]
        hv = [c for c in handler.get("inner", ()) if c.get("kind") == "VarDecl"]
        for ts in thrown:
            s = ts.clone()
            if hv:
                self.frames[-1].env[hv[0]["id"]] = self.alloc(s, Opaque("exception"), "exc")
            if self.run(hb, s):
                outs.append(s)
        if not outs:
            return False
        self.become(st, self.merge(outs, base))
        return True

    def throw(self, st):
        self.throws[-1].append(st.clone())
        raise Thrown()

    def e_CXXThrowExpr(self, n, st):
        self.throw(st)

    def s_SwitchStmt(self, n, st):
        inner = n["inner"]
        v = self.asint(self.ev(inner[0], st))
        body = inner[-1]
        stmts = []

        def flatten(c):
            # case labels nest: CaseStmt(const, substmt)
            if c.get("kind") == "CaseStmt":
                ch = c["inner"]
                stmts.append(("case", ch[0]))
                flatten(ch[-1])
            elif c.get("kind") == "DefaultStmt":
                stmts.append(("default", None))
                flatten(c["inner"][-1])
            else:
                stmts.append(("stmt", c))
        for c in body.get("inner", ()):
            flatten(c)
        labels = [(i, self.asint(self.ev(x, st))) for i, (k, x) in enumerate(stmts) if k == "case"]
        dflt = next((i for i, (k, x) in enumerate(stmts) if k == "default"), None)
        fr = self.frames[-1]
        saved = fr.breaks
        fr.breaks = []
        base = len(st.pc)
        outs = []
        conds = []
        entries = []
        for i, lv_ in labels:
            entries.append((T.beq(v, lv_), i))
            conds.append(T.beq(v, lv_))
        entries.append((band(*[bnot(c) for c in conds]), dflt))
        for c, i in entries:
            c = z3.simplify(c)
            if z3.is_false(c):
                continue
            s = st.clone()
            s.assume(c, "br")
            alive = True
            if i is not None:
                for k, x in stmts[i:]:
                    if k == "stmt":
                        if not self.run(x, s):
                            alive = False
                            break
            if alive:
                outs.append(s)
        outs += fr.breaks
        fr.breaks = saved
        if not outs:
            return False
        self.become(st, self.merge(outs, base))
        return True

    # loops are in loops.py
    def s_ForStmt(self, n, st):
        init, _, cond, inc, body = (list(n["inner"]) + [None] * 5)[:5]
        if init and init.get("kind"):
            if not self.run(init, st):
                return False
        from .loops import loop
        return loop(self, st, cond if cond and cond.get("kind") else None, inc if inc and inc.get("kind") else None, body, "for", n)

    def s_WhileStmt(self, n, st):
        inner = n["inner"]
        from .loops import loop
        return loop(self, st, inner[-2], None, inner[-1], "while", n)

    def s_DoStmt(self, n, st):
        inner = n["inner"]
        from .loops import loop
        return loop(self, st, inner[1], None, inner[0], "do", n)

    def s_CXXForRangeStmt(self, n, st):
        # range-init, begin, end, cond, inc, loopvar, body
        inner = [c for c in n["inner"] if c.get("kind")]
        decls = [c for c in inner if c.get("kind") == "DeclStmt"]
        exprs = [c for c in inner if c.get("kind") != "DeclStmt"]
        for d in decls[:-1]:
            self.run(d, st)
        cond, inc, body = exprs[0], exprs[1], exprs[2]
        var = decls[-1]
        blk = {"kind": "CompoundStmt", "inner": [var, body]}
        from .loops import loop
        return loop(self, st, cond, inc, blk, "for", n)

    # ------------------------------------------------------------------ lvalues
    def lv(self, n, st):
        k = n.get("kind")
        m = getattr(self, "l_" + k, None)
        if m is not None:
            return m(n, st)
        if n.get("valueCategory") == "prvalue" or k in ("CXXDefaultArgExpr",):
            v = self.ev(n, st)
            if isinstance(v, LV):
                return v
            return self.alloc(st, v, "tmp")
        v = self.ev(n, st)
        if isinstance(v, LV):
            return v
        return self.alloc(st, v, "tmp")

    def l_DeclRefExpr(self, n, st):
        rd = n["referencedDecl"]
        did = rd["id"]
        for fr in self.frames[-1:]:
            if did in fr.env:
                return fr.env[did]
        return self.global_lv(rd, st)

    def global_lv(self, rd, st):
        did = rd["id"]
        q = self.prog.globals.get(did) or rd.get("name")
        key = "glob:" + q
        if key in st.store:
            return LV(key)
        if q in self.globals:            # contract-supplied
            st.store[key] = self.globals[q]
            return LV(key)
        node = self.prog.gcanon.get(q)
        if node is not None and "const" in (node.get("type", {}).get("qualType", "")) or (node is not None and node.get("constexpr")):
            inner = [x for x in node.get("inner", ()) if x.get("kind") not in ("FullComment",)]
            if inner:
                st.store[key] = self.ev(inner[-1], st)
                return LV(key)
        if node is not None:
            st.store[key] = self.symbolic(qt(node), q, st)
            return LV(key)
        if rd.get("name") in ("is_signed", "is_integer"):
            # std::numeric_limits<A>::is_signed inside a class template with the one argument A
            f = self.frames[-1].func
            m = re.match(r"[\w:]+<([^<>,]*)>$", (f.cls if f is not None else "") or "")
            if m:
                a = strip_type(m.group(1))
                if a in FLOATS:
                    v = z3.BoolVal(rd["name"] == "is_signed")
                    return self.alloc(st, v, "lim")
                if a in INTS:
                    return self.alloc(st, z3.BoolVal(rd["name"] == "is_integer" or INTS[a][1]), "lim")
        if rd.get("name") in ("has_infinity", "is_iec559"):
            return self.alloc(st, z3.BoolVal(True), "lim")       # IEEE doubles
        raise ToolLimit("unknown variable %s" % q)

    def symbolic(self, t, name, st):
        t = strip_type(t)
        if t in INTS:
            if t == "bool":
                return z3.Const(name, T.Bool)
            return z3.Const(name, T.Int)
        if t in FLOATS:
            return z3.Const(name, T.Real)
        if "basic_string" in t or t == "std::string":
            return StrV(z3.Const(name, T.Str))
        raise ToolLimit("symbolic value of type " + t)

    def l_ParenExpr(self, n, st):
        return self.lv(n["inner"][0], st)
    l_ExprWithCleanups = l_ParenExpr
    l_CXXBindTemporaryExpr = l_ParenExpr
    l_SubstNonTypeTemplateParmExpr = l_ParenExpr

    def l_MaterializeTemporaryExpr(self, n, st):
        v = self.ev(n["inner"][0], st)
        return self.alloc(st, v, "tmp")

    def l_ImplicitCastExpr(self, n, st):
        ck = n.get("castKind")
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "ArrayToPointerDecay", "BaseToDerived"):
            return self.lv(n["inner"][0], st)
        if ck == "LValueToRValue":
            return self.lv(n["inner"][0], st)
        v = self.ev(n, st)
        return self.alloc(st, v, "tmp")
    l_CXXStaticCastExpr = l_ImplicitCastExpr
    l_CStyleCastExpr = l_ImplicitCastExpr
    l_CXXConstCastExpr = l_ImplicitCastExpr
    l_CXXDynamicCastExpr = l_ImplicitCastExpr

    def l_ConditionalOperator(self, n, st):
        c = self.truth(self.ev(n["inner"][0], st))
        c = z3.simplify(c)
        if not (z3.is_true(c) or z3.is_false(c)):
            if self.decide(st, c):
                c = TRUE
            elif self.decide(st, bnot(c)):
                c = FALSE
        if z3.is_true(c):
            return self.lv(n["inner"][1], st)
        if z3.is_false(c):
            return self.lv(n["inner"][2], st)
        v = self.ev(n, st)
        return self.alloc(st, v, "tmp")

    def l_CXXThisExpr(self, n, st):
        return self.frames[-1].this

    def l_MemberExpr(self, n, st):
        inner = n["inner"][0]
        if n.get("isArrow"):
            base = self.deref(self.ev(inner, st), st)
        else:
            did = n.get("referencedMemberDecl")
            if did in self.prog.globals:        # static data member
                return self.global_lv({"id": did, "name": n.get("name")}, st)
            base = self.lv(inner, st)
        did = n.get("referencedMemberDecl")
        if did in self.prog.globals:
            return self.global_lv({"id": did, "name": n.get("name")}, st)
        name = n.get("name")
        fld = self.prog.decls.get(did)
        l = base.field(name)
        if fld is not None and qt(fld).rstrip().endswith("&"):
            p = self.load(st, l)
            return self.deref(p, st)
        return l

    def deref(self, p, st):
        if isinstance(p, LV):
            return p
        if not isinstance(p, PtrV):
            raise ToolLimit("dereference of %s" % type(p).__name__)
        if p.root is None:
            self.oblige(st, FALSE, "null dereference", "bounds")
            raise ToolLimit("null dereference")
        l = LV(p.root, p.path)
        if p.off is not None:
            l = l.at(p.off)
        return l

    def l_UnaryOperator(self, n, st):
        op = n["opcode"]
        if op == "*":
            return self.deref(self.ev(n["inner"][0], st), st)
        if op in ("++", "--") and not n.get("isPostfix"):
            l = self.lv(n["inner"][0], st)
            self.incr(l, op, n, st)
            return l
        if op == "__extension__":
            return self.lv(n["inner"][0], st)
        return self.alloc(st, self.ev(n, st), "tmp")

    def l_ArraySubscriptExpr(self, n, st):
        a, i = n["inner"]
        p = self.ev(a, st)
        idx = self.asint(self.ev(i, st))
        if isinstance(idx, PtrV):
            p, idx = idx, p
        if isinstance(p, PtrV):
            if p.root is None:
                raise ToolLimit("null subscript")
            off = norm(p.off + idx) if p.off is not None else idx
            if p.off is None:
                raise ToolLimit("subscript of pointer to single object")
            return LV(p.root, p.path).at(off)
        raise ToolLimit("subscript of %s" % type(p).__name__)

    def l_BinaryOperator(self, n, st):
        op = n["opcode"]
        if op == "=":
            return self.assign(n, st)
        if op == ",":
            self.ev(n["inner"][0], st)
            return self.lv(n["inner"][1], st)
        return self.alloc(st, self.ev(n, st), "tmp")

    def assign(self, n, st):
        a, b = n["inner"]
        v = self.ev(b, st)
        l = self.lv(a, st)
        if isinstance(v, LV):
            v = self.load(st, v)
        self.store(st, l, v)
        return l

    def l_CompoundAssignOperator(self, n, st):
        a, b = n["inner"]
        r = self.ev(b, st)
        l = self.lv(a, st)
        cur = self.load(st, l)
        if isinstance(cur, PtrV):
            off = self.asint(r)
            new = PtrV(cur.root, cur.path, norm(cur.off + off) if n["opcode"] == "+=" else norm(cur.off - off))
        else:
            lt = strip_type((n.get("computeLHSType") or {}).get("desugaredQualType") or (n.get("computeLHSType") or {}).get("qualType", ""))
            if lt in FLOATS and is_scalar(cur) and cur.sort() == T.Int:
                cur = toreal(cur)
            new = self.arith(n["opcode"][:-1], cur, r, lt, st, n)
            new = self.convert(new, lt, ctype(n), st)
        self.store(st, l, new)
        return l

    def l_CXXOperatorCallExpr(self, n, st):
        v = self.call_operator(n, st)
        if isinstance(v, LV):
            return v
        return self.alloc(st, v, "tmp")

    def l_CallExpr(self, n, st):
        v = self.e_CallExpr(n, st)
        if isinstance(v, LV):
            return v
        return self.alloc(st, v, "tmp")

    def l_CXXMemberCallExpr(self, n, st):
        v = self.e_CXXMemberCallExpr(n, st)
        if isinstance(v, LV):
            return v
        return self.alloc(st, v, "tmp")

    def l_StringLiteral(self, n, st):
        return self.alloc(st, self.e_StringLiteral(n, st), "str")

    # ------------------------------------------------------------------ rvalues
    def ev(self, n, st):
        k = n.get("kind")
        m = getattr(self, "e_" + k, None)
        if m is None:
            if getattr(self, "l_" + k, None) is not None:
                l = self.lv(n, st)
                return self.load(st, l)
            raise ToolLimit("unsupported expression " + str(k))
        v = m(n, st)
        if isinstance(v, LV) and n.get("valueCategory") in ("lvalue", "xvalue") and k not in ("CXXThisExpr",):
            return self.load(st, v)
        return v

    def e_IntegerLiteral(self, n, st):
        return iv(int(n["value"]))

    def e_CharacterLiteral(self, n, st):
        return iv(int(n["value"]))

    def e_FloatingLiteral(self, n, st):
        f = float(n["value"])
        return rv(Fraction(repr(f)))

    def e_CXXBoolLiteralExpr(self, n, st):
        return z3.BoolVal(bool(n["value"]))

    def e_StringLiteral(self, n, st):
        s = n["value"]
        try:
            import ast as _a
            s = _a.literal_eval(s)
        except Exception:
            pass
        return StrV(s)

    def e_GNUNullExpr(self, n, st):
        return iv(0)

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return NULL

    def e_ParenExpr(self, n, st):
        return self.ev(n["inner"][0], st)
    e_ExprWithCleanups = e_ParenExpr
    e_CXXBindTemporaryExpr = e_ParenExpr
    e_ConstantExpr = e_ParenExpr
    e_SubstNonTypeTemplateParmExpr = e_ParenExpr
    e_MaterializeTemporaryExpr = e_ParenExpr
    e_CXXStdInitializerListExpr = e_ParenExpr

    def e_CXXThisExpr(self, n, st):
        t = self.frames[-1].this
        return PtrV(t.root, t.path) if not (t.path and t.path[-1][0] == "i") else PtrV(t.root, t.path[:-1], t.path[-1][1])

    def e_DeclRefExpr(self, n, st):
        rd = n["referencedDecl"]
        did = rd["id"]
        if rd["kind"] == "EnumConstantDecl":
            if did in self.prog.enums:
                return iv(self.prog.enums[did])
            raise ToolLimit("enum constant " + rd.get("name", ""))
        if rd["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return FnRef(self.prog.func_of_decl(did), rd.get("name"))
        return self.load(st, self.lv(n, st))

    def e_CXXDefaultArgExpr(self, n, st):
        if n.get("inner"):
            return self.ev(n["inner"][0], st)
        raise ToolLimit("default argument")

    def e_CXXDefaultInitExpr(self, n, st):
        if n.get("inner"):
            return self.ev(n["inner"][0], st)
        raise ToolLimit("default member initializer")

    def e_CXXScalarValueInitExpr(self, n, st):
        return self.zero(ctype(n), st)
    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.get("name") == "sizeof":
            at = n.get("argType")
            t = strip_type((at.get("desugaredQualType") or at["qualType"])) if at else ctype(n["inner"][0])
            return iv(self.sizeof(t))
        raise ToolLimit("type trait " + str(n.get("name")))

    def sizeof(self, t):
        if t in INTS:
            return max(1, INTS[t][0] // 8)
        if t == "float":
            return 4
        if t == "double":
            return 8
        if t == "std::complex<double>":
            return 16
        if t == "std::complex<float>":
            return 8
        if t.endswith("*"):
            return 8
        raise ToolLimit("sizeof " + t)

    # ---- casts
    def e_ImplicitCastExpr(self, n, st):
        ck = n.get("castKind")
        inner = n["inner"][0]
        if ck == "LValueToRValue":
            l = self.lv(inner, st)
            v = self.load(st, l)
            return v
        if ck in ("NoOp",):
            if n.get("valueCategory") in ("lvalue", "xvalue"):
                return self.lv(inner, st)
            return self.ev(inner, st)
        if ck in ("ConstructorConversion", "UserDefinedConversion", "Dependent"):
            return self.ev(inner, st)
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.ev(inner, st)
        if ck == "ArrayToPointerDecay":
            if inner.get("kind") == "StringLiteral":
                return self.ev(inner, st)
            l = self.lv(inner, st)
            return PtrV(l.root, l.path, iv(0))
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic"):
            if n.get("valueCategory") in ("lvalue", "xvalue"):
                return self.lv(inner, st)
            return self.ev(inner, st)
        if ck == "ToVoid":
            self.ev(inner, st)
            return None
        if ck == "BitCast":
            v = self.ev(inner, st)
            if isinstance(v, Rec) and v.cls == "rawmem":
                t = ctype(n)
                el = strip_type(t[:-1]) if t.endswith("*") else ""
                if el and el != "void":
                    sz = self.sizeof(el)
                    q, r = T.pdiv(poly(v.f["bytes"]), {(): Fraction(sz)})
                    size = T.from_poly(q, T.Int) if not r and all(x.denominator == 1 for x in q.values()) else v.f["bytes"] / iv(sz)
                    nm = self.newroot("mem")
                    st.store[nm] = self.uninit_array(el, size, nm)
                    return PtrV(nm, (), iv(0))
            return v
        if ck == "NullToPointer":
            return NULL
        v = self.ev(inner, st)
        src, dst = ctype(inner), ctype(n)
        return self.cast(ck, v, src, dst, st, n)
    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr
    e_CXXDynamicCastExpr = e_ImplicitCastExpr

    def cast(self, ck, v, src, dst, st, n):
        if ck == "IntegralCast":
            return self.int_cast(self.asint(v), src, dst, st)
        if ck == "IntegralToFloating":
            v = toreal(self.asint(v))
            return self.flt(v) if dst == "float" else v
        if ck == "FloatingToIntegral":
            return self.f2i(v, dst, st)
        if ck == "FloatingCast":
            if dst == "float" and src != "float":
                return self.flt(v)
            return v
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.truth(v)
        if ck == "BooleanToSignedIntegral":
            return self.asint(v)
        raise ToolLimit("cast kind %s" % ck)

    def flt(self, v):
        """rounding to single precision"""
        if is_num(v):
            import struct
            q = num(v)
            try:
                f = struct.unpack("f", struct.pack("f", float(q)))[0]
                if Fraction(f) == q:
                    return v
                return rv(Fraction(f))
            except OverflowError:
                pass
        self.notes.add("rounding to float: |flt(x)-x| <= 2^-24 |x|, exact on integers up to 2^24")
        return mathfn("flt", v)

    def cancel(self, st, e):
        """a * (1/a) = 1 in every monomial, where a is provably not zero"""
        try:
            p = poly(e)
        except T.TooBig:
            return e
        known, out, ch = {}, {}, False
        for m, c in p.items():
            ms = list(m)
            for a in m:
                x = T._atoms[a]
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV and is_num(x.arg(0)) and num(x.arg(0)) == 1:
                    k = T.atom_key(x.arg(1)) if not is_num(x.arg(1)) else None
                    if k in ms and a in ms:
                        if k not in known:
                            known[k] = self.decide(st, x.arg(1) != 0, 1000)
                        if known[k]:
                            ms.remove(k)
                            ms.remove(a)
                            ch = True
            out = T.padd(out, {tuple(ms): c})
        return T.from_poly(out, e.sort()) if ch else e

    def intsplit(self, st, x):
        """x = p + r with p a polynomial in integers with integer coefficients; (p as Int, r)"""
        x = self.cancel(st, norm(x))
        ip, r = {}, {}
        for m, c in poly(x).items():
            if c.denominator == 1 and all(T._is_toreal(T._atoms[a]) for a in m):
                ip[tuple(sorted(T.atom_key(T._atoms[a].arg(0)) for a in m))] = c
            else:
                r[m] = c
        return T.from_poly(ip, T.Int), T.from_poly(r, T.Real)

    def floor(self, st, x, quiet=False):
        """floor as an integer term; quiet: None where the integer part is not found"""
        x = norm(toreal(x))
        if is_num(x):
            import math
            return iv(math.floor(num(x)))
        p, r = self.intsplit(st, x)
        if is_num(r):
            import math
            return norm(p + iv(math.floor(num(r))))
        for k in (0, -1):
            if self.decide(st, z3.And(r >= k, r < k + 1), 2000):
                return norm(p + iv(k))
        return None if quiet else z3.ToInt(x)

    def trunc(self, st, x):
        x = norm(toreal(x))
        if is_num(x):
            return T.trunc(x)
        t = T.trunc(x)
        if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE):
            return t
        f = self.floor(st, x, True)
        if f is None:
            return t
        if self.decide(st, x >= 0, 2000):
            return f
        if self.decide(st, x <= 0, 2000):
            g = self.floor(st, norm(-x), True)
            return norm(-g) if g is not None else t
        g = self.floor(st, norm(-x), True)
        return ite(x >= 0, f, norm(-g)) if g is not None else t

    def f2i(self, v, dst, st):
        r = self.trunc(st, v)
        bits, sg = INTS.get(dst, (64, True))
        lo, hi = (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if sg else (0, 2 ** bits - 1)
        self.notes.add("floating-to-integer conversions stay in the range of the target type")
        return r

    def int_cast(self, v, src, dst, st):
        if dst == "bool":
            return self.truth(v)
        sb, ss = INTS.get(src, (32, True))
        if dst not in INTS:
            return v                      # enum
        db, ds = INTS[dst]
        if is_num(v):
            x = int(num(v)) % (2 ** db)
            if ds and x >= 2 ** (db - 1):
                x -= 2 ** db
            return iv(x)
        if src == "bool":
            return v
        if (ss == ds and db >= sb) or (not ss and ds and db > sb):
            return v
        if ss and not ds:
            if db >= sb:
                # signed -> wider unsigned: value preserved iff nonnegative
                if self.decide(st, v >= 0, 1000):
                    return v
                return ite(v >= 0, v, v + iv(2 ** db))
        if self.decide(st, z3.And(v >= (-(2 ** (db - 1)) if ds else 0), v <= (2 ** (db - 1) - 1 if ds else 2 ** db - 1)), 1000):
            return v
        if db >= 32 and sb > db or (db == sb):
            self.notes.add("grid sizes and counts fit in 31 bits where the code narrows them to int")
            if not (ss and not ds):
                return v
        m = v % iv(2 ** db)
        if ds:
            return ite(m >= iv(2 ** (db - 1)), m - iv(2 ** db), m)
        return m

    def convert(self, v, src, dst, st):
        if not is_scalar(v):
            return v
        if dst in FLOATS:
            v = toreal(self.asint(v))
            if dst == "float" and src != "float":
                return self.flt(v)
            return v
        if dst in INTS:
            if z3.is_bool(v):
                return v if dst == "bool" else self.asint(v)
            if v.sort() == T.Real:
                return self.f2i(v, dst, st)
            if src in INTS and src != dst:
                return self.int_cast(v, src, dst, st)
        return v

    # ---- operators
    def e_UnaryOperator(self, n, st):
        op = n["opcode"]
        inner = n["inner"][0]
        if op in ("++", "--"):
            l = self.lv(inner, st)
            old = self.load(st, l)
            self.incr(l, op, n, st)
            return old if n.get("isPostfix") else self.load(st, l)
        if op == "&":
            if inner.get("kind") == "DeclRefExpr" and inner["referencedDecl"]["kind"] in ("FunctionDecl", "CXXMethodDecl"):
                return self.ev(inner, st)
            l = self.lv(inner, st)
            if l.path and l.path[-1][0] == "i":
                return PtrV(l.root, l.path[:-1], l.path[-1][1])
            return PtrV(l.root, l.path)
        if op == "*":
            return self.load(st, self.lv(n, st))
        v = self.ev(inner, st)
        if op == "-":
            v = self.asint(v)
            r = norm(-v)
            t = ctype(n)
            if t in INTS and not INTS[t][1]:
                return self.wrap(r, t, st)
            return r
        if op == "+":
            return self.asint(v)
        if op == "!":
            return bnot(self.truth(v))
        if op == "__extension__":
            return v
        if op == "~":
            return norm(-self.asint(v) - 1) if INTS.get(ctype(n), (32, True))[1] else norm(iv(2 ** INTS[ctype(n)][0] - 1) - self.asint(v))
        raise ToolLimit("unary " + op)

    def incr(self, l, op, n, st):
        old = self.load(st, l)
        d = 1 if op == "++" else -1
        if isinstance(old, PtrV):
            self.store(st, l, PtrV(old.root, old.path, norm(old.off + d)))
            return
        t = ctype(n["inner"][0])
        v = norm(old + d)
        if t in INTS and not INTS[t][1] and d < 0:
            v = self.wrap(v, t, st)
        self.store(st, l, v)

    def wrap(self, v, t, st):
        """unsigned result that may be negative"""
        if is_num(v):
            return iv(int(num(v)) % (2 ** INTS[t][0]))
        if self.decide(st, v >= 0, 1000):
            return v
        return ite(v >= 0, v, v + iv(2 ** INTS[t][0]))

    def e_BinaryOperator(self, n, st):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            l = self.assign(n, st)
            return self.load(st, l)
        if op == ",":
            self.ev(a, st)
            return self.ev(b, st)
        if op in ("&&", "||"):
            c = self.truth(self.ev(a, st))
            c = z3.simplify(c)
            if op == "&&" and z3.is_false(c):
                return FALSE
            if op == "||" and z3.is_true(c):
                return TRUE
            if op == "&&" and z3.is_true(c) or op == "||" and z3.is_false(c):
                return self.truth(self.ev(b, st))
            base = len(st.pc)
            s1, s2 = st.clone(), st.clone()
            s1.assume(c if op == "&&" else bnot(c), "br")
            s2.assume(bnot(c) if op == "&&" else c, "br")
            v = self.truth(self.ev(b, s1))
            self.become(st, self.merge([s1, s2], base))
            return band(c, v) if op == "&&" else z3.Or(c, v)
        x = self.ev(a, st)
        y = self.ev(b, st)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            r = self.compare(op, x, y, st)
            return r
        if isinstance(x, PtrV) or isinstance(y, PtrV):
            return self.ptr_arith(op, x, y)
        return self.arith(op, x, y, ctype(n), st, n)

    def compare(self, op, x, y, st):
        if isinstance(x, PtrV) or isinstance(y, PtrV):
            if is_scalar(x):
                x = NULL
            if is_scalar(y):
                y = NULL
            if x.root is None or y.root is None or x.root != y.root or x.off is None:
                eq = x.root == y.root and x.path == y.path
                if op == "==":
                    return z3.BoolVal(eq)
                if op == "!=":
                    return z3.BoolVal(not eq)
                raise ToolLimit("ordering of unrelated pointers")
            x, y = x.off, y.off
        if isinstance(x, StrV) or isinstance(y, StrV):
            return self.str_eq(op, x, y)
        if not is_scalar(x) or not is_scalar(y):
            raise ToolLimit("comparison of %s" % type(x).__name__)
        if op in ("==", "!="):
            if z3.is_bool(x) != z3.is_bool(y):
                x, y = self.asint(x), self.asint(y)
            r = T.beq(x, y)
            return r if op == "==" else bnot(r)
        return T.cmp(op, self.asint(x), self.asint(y))

    def str_eq(self, op, x, y):
        if not (isinstance(x, StrV) and isinstance(y, StrV)):
            raise ToolLimit("string comparison")
        if isinstance(x.s, str) and isinstance(y.s, str):
            r = z3.BoolVal(x.s == y.s)
        else:
            f = lambda s: z3.StringVal(s.s) if isinstance(s.s, str) else s.s
            r = f(x) == f(y)
        if op == "==":
            return r
        if op == "!=":
            return bnot(r)
        raise ToolLimit("string ordering")

    def ptr_arith(self, op, x, y):
        if isinstance(x, PtrV) and isinstance(y, PtrV):
            if op == "-" and x.root == y.root:
                return norm(x.off - y.off)
        elif isinstance(x, PtrV) and x.off is not None:
            if op == "+":
                return PtrV(x.root, x.path, norm(x.off + y))
            if op == "-":
                return PtrV(x.root, x.path, norm(x.off - y))
        elif isinstance(y, PtrV) and op == "+":
            return PtrV(y.root, y.path, norm(y.off + x))
        raise ToolLimit("pointer arithmetic")

    def arith(self, op, x, y, t, st, n=None):
        if isinstance(x, Rec) or isinstance(y, Rec):
            from .models import complex_op
            return complex_op(self, op, x, y)
        if not is_scalar(x) or not is_scalar(y):
            raise ToolLimit("arithmetic %s on %s,%s" % (op, type(x).__name__, type(y).__name__))
        x, y = self.asint(x), self.asint(y)
        real = t in FLOATS or x.sort() == T.Real or y.sort() == T.Real
        if real:
            x, y = toreal(x), toreal(y)
            if op == "+":
                return norm(x + y)
            if op == "-":
                return norm(x - y)
            if op == "*":
                return norm(x * y)
            if op == "/":
                if is_num(y) and num(y) == 0:
                    raise ToolLimit("division by literal zero")
                if self.check_defined and not is_num(y):
                    self.oblige(st, y != 0, "divisor is not zero", where=self.frames[-1].func.qname if self.frames and self.frames[-1].func is not None else "")
                py = poly(y)
                if len(py) > 1:
                    # exact polynomial quotient by a divisor that is not zero
                    px = poly(x)
                    if len(px) <= 400 and len(py) <= 100:
                        q, r = T.pdiv(px, py)
                        if not r and self.decide(st, y != 0, 2000):
                            return T.from_poly(q, T.Real)
                return self.cancel(st, norm(x / y))
            raise ToolLimit("float op " + op)
        uns = t in INTS and not INTS[t][1]
        if op == "+":
            return norm(x + y)
        if op == "-":
            r = norm(x - y)
            return self.wrap(r, t, st) if uns else r
        if op == "*":
            return norm(x * y)
        if op in ("/", "%"):
            if is_num(x) and is_num(y) and num(y) != 0:
                q = T.tdiv(x, y)
                return q if op == "/" else iv(int(num(x)) - int(num(q)) * int(num(y)))
            if is_num(y) and num(y) == 1:
                return x if op == "/" else iv(0)
            pos = uns or (self.decide(st, x >= 0, 1000) and self.decide(st, y > 0, 1000))
            if pos:
                if not is_num(y):
                    # exact polynomial quotient
                    q, r = T.pdiv(poly(x), poly(y))
                    if q and not r and all(v.denominator == 1 for v in q.values()) and self.decide(st, y > 0, 1000):
                        return T.from_poly(q, T.Int) if op == "/" else iv(0)
                    # quotient and remainder of the polynomial division, where the remainder is provably in range
                    if q and r and all(v.denominator == 1 for v in list(q.values()) + list(r.values())):
                        rt = T.from_poly(r, T.Int)
                        if self.decide(st, z3.And(rt >= 0, rt < y), 3000):
                            return T.from_poly(q, T.Int) if op == "/" else rt
                    elif r and not q and self.decide(st, x < y, 2000):
                        return iv(0) if op == "/" else x
                return x / y if op == "/" else x % y
            q = ite(z3.Or(z3.And(x >= 0, y > 0)), x / y,
                    ite(z3.And(x >= 0, y < 0), -(x / (-y)), ite(z3.And(x < 0, y > 0), -((-x) / y), (-x) / (-y))))
            if op == "/":
                return q
            return x - q * y
        if op in ("<<", ">>", "&", "|", "^"):
            return self.bitop(op, x, y, t, st)
        raise ToolLimit("integer op " + op)

    def bitop(self, op, x, y, t, st):
        if is_num(x) and is_num(y):
            a, b = int(num(x)), int(num(y))
            r = {"<<": a << b if b >= 0 else 0, ">>": a >> b if b >= 0 else 0, "&": a & b, "|": a | b, "^": a ^ b}[op]
            return iv(r)
        if op == "<<" and is_num(y):
            return norm(x * iv(2 ** int(num(y))))
        if op == ">>" and is_num(y):
            return x / iv(2 ** int(num(y)))
        raise ToolLimit("bit operation")

    def e_ConditionalOperator(self, n, st):
        c, a, b = n["inner"]
        c = z3.simplify(self.truth(self.ev(c, st)))
        if not (z3.is_true(c) or z3.is_false(c)):
            if self.decide(st, c, 500):
                c = TRUE
            elif self.decide(st, bnot(c), 500):
                c = FALSE
        if z3.is_true(c):
            return self.ev(a, st)
        if z3.is_false(c):
            return self.ev(b, st)
        base = len(st.pc)
        s1, s2 = st.clone(), st.clone()
        s1.assume(c, "br")
        s2.assume(bnot(c), "br")
        outs = []
        for s, x in ((s1, a), (s2, b)):
            try:
                outs.append((s, self.ev(x, s)))
            except Thrown:
                pass
        if not outs:
            raise Thrown()
        if len(outs) == 1:
            self.become(st, outs[0][0])
            return outs[0][1]
        self.become(st, self.merge([s1, s2], base))
        return ite_val(c, outs[0][1], outs[1][1])

    def e_InitListExpr(self, n, st):
        t = ctype(n)
        items = [self.ev(c, st) for c in n.get("inner", ()) if c.get("kind")]
        m = re.match(r"(.*)\[(\d+)\]$", t)
        if m:
            N = int(m.group(2))
            el = m.group(1).strip()
            while len(items) < N:
                items.append(self.zero(el, st))
            return ListV(el, items)
        cls = norm_cls(t)
        if cls in self.prog.classes:
            fs = self.prog.classes[cls]["fields"]
            return Rec(cls, {f[0]: v for f, v in zip(fs, items)})
        if len(items) == 1 and (t in INTS or t in FLOATS):
            return items[0]
        return ListV(t, items)

    def e_ArrayInitLoopExpr(self, n, st):
        raise ToolLimit("array init loop")

    # ------------------------------------------------------------------ values by type
    def zero(self, t, st=None):
        t = strip_type(t)
        if t == "bool":
            return FALSE
        if t in INTS:
            return iv(0)
        if t in FLOATS:
            return rv(0)
        if t.startswith("std::complex<"):
            return Rec("complex", {"re": rv(0), "im": rv(0)})
        if t.endswith("*"):
            return NULL
        v = self.default_value(t, st)
        return v

    def default_value(self, t, st, uninit=False, name="v"):
        t = strip_type(t)
        if t in INTS:
            if t == "bool":
                return T.fresh("uninit_" + name, T.Bool) if uninit else FALSE
            return T.fresh("uninit_" + name, T.Int) if uninit else iv(0)
        if t in FLOATS:
            return T.fresh("uninit_" + name, T.Real) if uninit else rv(0)
        if t.endswith("*"):
            return PtrV("uninit", ()) if uninit else NULL
        m = re.match(r"(.*)\[(\d+)\]$", t)
        if m:
            return ListV(m.group(1).strip(), [self.default_value(m.group(1), st, uninit, name) for _ in range(int(m.group(2)))])
        from .models import std_default
        v = std_default(self, t)
        if v is not None:
            return v
        cls = norm_cls(t)
        if cls in self.prog.classes:
            return self.construct(cls, [], st, None)
        if cls in self.prog.enumname or "::" in cls:
            # an enumeration
            for d in self.prog.decls.values():
                pass
            return T.fresh("uninit_" + name, T.Int)
        return Opaque(t)

    def raw_object(self, cls, st):
        """object before its constructor ran: every field uninitialised"""
        f = {}
        for b in self.prog.classes.get(cls, {}).get("bases", []):
            if b in self.prog.classes:
                f.update(self.raw_object(b, st).f)
        for name, t, node in self.prog.classes.get(cls, {}).get("fields", []):
            ts = strip_type(t)
            if ts in INTS or ts in FLOATS or t.rstrip().endswith("*"):
                f[name] = self.default_value(ts, st, True, name)
            else:
                f[name] = None
        return Rec(cls, f)

    def construct(self, cls, args, st, node, ctor_type=None, lv=None):
        """run a constructor of a repository class; returns the object value"""
        ctors = [self.prog.funcs[m] for m in self.prog.classes[cls]["methods"]
                 if self.prog.funcs.get(m) is not None and self.prog.funcs[m].is_ctor]
        cand = None
        if ctor_type is not None:
            key = ctor_type.replace(" noexcept", "")
            for f in ctors:
                if f.type.replace(" noexcept", "") == key:
                    cand = f
                    break
        if cand is None:
            c2 = [f for f in ctors if len(f.params) >= len(args) and all(p.get("init") for p in f.params[len(args):])]
            c3 = [f for f in c2 if len(f.params) == len(args)] or c2
            if len(c3) > 1 and len(args) == 1 and not isinstance(args[0].val, Rec) and args[0].lv is None:
                c3 = [f for f in c3 if cls.split("::")[-1].split("<")[0] not in qt(f.params[0])]      # not the copy/move constructor
            if len(c3) == 1 or (c3 and not args):
                cand = c3[0]
        implicit = cand is None or (cand.body is None and not cand.inits)
        if implicit and len(args) == 1 and (ctor_type is None or "&" in ctor_type):
            v = args[0].val if args[0].val is not None else self.load(st, args[0].lv)
            if isinstance(v, Rec):
                return v                # implicit copy/move
        if implicit and not args:
            obj = self.raw_object(cls, st)
            lv0 = self.alloc(st, obj, "obj")
            self.init_fields(cls, [], lv0, st)
            return self.load(st, lv0)
        if cand is None:
            raise ToolLimit("no constructor of %s for %s" % (cls, ctor_type))
        if lv is None:
            lv = self.alloc(st, self.raw_object(cls, st), "obj")
        self.call_func(cand, lv, args, st, node)
        return self.load(st, lv)

    def init_fields(self, cls, inits, lv, st):
        """member initialisation in declaration order; called inside the constructor's frame"""
        done = set()
        byname = {}
        bases = []
        for c in inits:
            if "anyInit" in c:
                byname[c["anyInit"].get("name")] = c
            elif "baseInit" in c:
                bases.append(c)
        for b in self.prog.classes.get(cls, {}).get("bases", []):
            c = None
            for x in bases:
                t = x["baseInit"]
                if norm_cls(strip_type(t.get("desugaredQualType") or t["qualType"])) == b or \
                   b.endswith(norm_cls(strip_type(t["qualType"]))):
                    c = x
            if b not in self.prog.classes:
                continue
            if c is not None:
                self.base_init(b, c["inner"][0], lv, st)
            else:
                self.base_default(b, lv, st)
        for name, t, node in self.prog.classes.get(cls, {}).get("fields", []):
            c = byname.get(name)
            ts = strip_type(t)
            if c is not None:
                init = c["inner"][0]
                if t.rstrip().endswith("&"):
                    l = self.lv(init, st)
                    v = PtrV(l.root, l.path)
                    if l.path and l.path[-1][0] == "i":
                        v = PtrV(l.root, l.path[:-1], l.path[-1][1])
                else:
                    v = self.ev(init, st)
                self.store(st, lv.field(name), v)
            elif node.get("hasInClassInitializer"):
                init = [x for x in node.get("inner", ()) if x.get("kind") not in ("FullComment",)]
                self.store(st, lv.field(name), self.ev(init[-1], st))
            elif not (ts in INTS or ts in FLOATS or ts.endswith("*")):
                self.store(st, lv.field(name), self.default_value(t, st, True, name))

    def base_init(self, b, node, lv, st):
        while node.get("kind") in ("ExprWithCleanups", "CXXBindTemporaryExpr"):
            node = node["inner"][0]
        if node.get("kind") not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            raise ToolLimit("base initialiser")
        args = [self.arg(a, st, None) for a in node.get("inner", ())]
        self.sub_construct(b, args, node.get("ctorType", {}).get("qualType"), lv, st, node)

    def base_default(self, b, lv, st):
        self.sub_construct(b, [], None, lv, st, None)

    def sub_construct(self, b, args, ctype_, lv, st, node):
        ctors = [self.prog.funcs[m] for m in self.prog.classes[b]["methods"]
                 if self.prog.funcs.get(m) is not None and self.prog.funcs[m].is_ctor]
        cand = None
        for f in ctors:
            if ctype_ is not None and f.type.replace(" noexcept", "") == ctype_.replace(" noexcept", ""):
                cand = f
        if cand is None and ctype_ is None:
            for f in ctors:
                if all(p.get("init") for p in f.params):
                    cand = f
        if (cand is None or (cand.body is None and not cand.inits)) and len(args) == 1:
            src = args[0].lv and self.load(st, args[0].lv) or args[0].val
            if isinstance(src, Rec):            # implicit copy of the base part
                obj = self.load(st, lv)
                names = set(self.raw_object(b, st).f)
                for k in names:
                    obj = obj.set(k, src.f[k])
                self.store(st, lv, obj)
                return
        if cand is None or (cand.body is None and not cand.inits):
            if not args:
                self.init_fields(b, [], lv, st)
                return
            raise ToolLimit("base constructor of " + b)
        self.call_func(cand, lv, args, st, node)

    # ------------------------------------------------------------------ calls
    def arg(self, n, st, ptype):
        """evaluate an argument: as lvalue when it is one, else as value"""
        k = n.get("kind")
        if k == "CXXDefaultArgExpr" and not n.get("inner"):
            return Arg(node=n)
        if n.get("valueCategory") in ("lvalue", "xvalue") or k == "MaterializeTemporaryExpr":
            return Arg(lv=self.lv(n, st), node=n)
        v = self.ev(n, st)
        if isinstance(v, LV):
            return Arg(lv=v, node=n)
        return Arg(val=v, node=n)

    def argval(self, a, st):
        if a.val is not None:
            return a.val
        if a.lv is not None:
            return self.load(st, a.lv)
        raise ToolLimit("unsupported default argument")

    def call_func(self, f, this, args, st, node):
        """inline a repository function (or apply its contract)"""
        c = self.contract_for(f)
        if c is not None:
            r = c(self, st, f, this, args)
            if r is not NotImplemented:
                self.used_contracts[f.qname] = self.used_contracts.get(f.qname, 0) + 1
                return r
        return self.inline(f, this, args, st, node)

    def contract_for(self, f):
        return self.contracts.get(f.qname)

    def inline(self, f, this, args, st, node=None):
        if f.body is None and not f.is_ctor:
            raise ToolLimit("no body for " + f.qname)
        if self.depth > 60:
            raise ToolLimit("call depth")
        self.inlined[f.qname] = self.inlined.get(f.qname, 0) + 1
        fr = Frame(f, this)
        if getattr(f, "is_lambda", False):
            c = self.load(st, this)
            if not isinstance(c, LamV):
                raise ToolLimit("call of an unknown closure")
            fr.env.update(c.env)
            fr.this = c.this
        fr.pclen = len(st.pc)
        # parameters (default arguments evaluated in the callee's declaration)
        vals = []
        for i, p in enumerate(f.params):
            a = args[i] if i < len(args) else Arg()
            t = qt(p)
            if a.lv is None and a.val is None:
                d = self.default_arg(f, i)
                self.frames.append(fr)
                try:
                    if t.rstrip().endswith("&"):
                        a = Arg(lv=self.lv(d, st))
                    else:
                        a = Arg(val=self.ev(d, st))
                finally:
                    self.frames.pop()
            if t.rstrip().endswith("&"):
                l = a.lv if a.lv is not None else self.alloc(st, a.val, p.get("name", "p"))
            else:
                v = a.val if a.val is not None else self.load(st, a.lv)
                l = self.alloc(st, v, p.get("name", "p"))
            vals.append((p["id"], l))
        for pid, l in vals:
            fr.env[pid] = l
        self.frames.append(fr)
        self.depth += 1
        try:
            alive = True
            if f.is_ctor:
                self.init_fields(f.cls, f.inits, this, st)
            if f.body is not None:
                alive = self.run(f.body, st)
        finally:
            self.frames.pop()
            self.depth -= 1
        outs = list(fr.returns)
        if alive:
            outs.append((st.clone(), None))
        if not outs:
            raise Thrown()
        if len(outs) == 1:
            self.become(st, outs[0][0])
            return outs[0][1]
        gs = [band(*[c for k, c in s.pc[fr.pclen:] if k == "br"]) for s, _ in outs]
        v = outs[-1][1]
        for g, (s, x) in list(zip(gs, outs))[-2::-1]:
            if v is None and x is None:
                continue
            if isinstance(v, LV) or isinstance(x, LV):
                if isinstance(v, LV) and isinstance(x, LV) and v.root == x.root and str(v.path) == str(x.path):
                    continue
                if isinstance(v, LV) and isinstance(x, LV):
                    v = self.merge_lv(g, x, v)
                    continue
                raise ToolLimit("merge of references")
            v = ite_val(g, x, v)
        self.become(st, self.merge([s for s, _ in outs], fr.pclen))
        return v

    def merge_lv(self, g, a, b):
        if a.root == b.root and len(a.path) == len(b.path):
            path = []
            for x, y in zip(a.path, b.path):
                if x[0] == "i" and y[0] == "i":
                    path.append(("i", ite(g, x[1], y[1])))
                elif x == y:
                    path.append(x)
                else:
                    raise ToolLimit("merge of references")
            return LV(a.root, path)
        raise ToolLimit("merge of references")

    def default_arg(self, f, i):
        cands = [f.params] + [ps for did, ps in self.prog.params.items() if self.prog.byid.get(did) == f.mangled]
        for ps in cands:
            if i < len(ps) and ps[i].get("init"):
                inner = [x for x in ps[i].get("inner", ()) if x.get("kind") not in ("FullComment",)]
                if inner:
                    return inner[-1]
        # an instantiated template: the pattern's default
        raise ToolLimit("default argument %d of %s" % (i, f.qname))

    def e_CallExpr(self, n, st):
        callee = n["inner"][0]
        c = callee
        while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            c = c["inner"][0]
        if c.get("kind") == "DeclRefExpr":
            rd = c["referencedDecl"]
            f = self.prog.func_of_decl(rd["id"])
            args = [self.arg(a, st, None) for a in n["inner"][1:]]
            if f is not None and (f.body is not None or f.qname in self.contracts):
                return self.call_func(f, None, args, st, n)
            q = f.qname if f is not None else None
            if rd.get("name") in self.contracts:          # external function under an assumed contract
                self.used_contracts[rd["name"]] = self.used_contracts.get(rd["name"], 0) + 1
                return self.contracts[rd["name"]](self, st, f, None, args)
            from .models import free_function
            return free_function(self, st, rd.get("name"), args, n, q)
        if c.get("kind") == "MemberExpr":       # static member through object
            f = self.prog.func_of_decl(c.get("referencedMemberDecl"))
            args = [self.arg(a, st, None) for a in n["inner"][1:]]
            if f is not None:
                return self.call_func(f, None, args, st, n)
        if c.get("kind") == "CXXPseudoDestructorExpr":
            return None
        raise ToolLimit("call through " + str(c.get("kind")))

    def e_CXXMemberCallExpr(self, n, st):
        me = n["inner"][0]
        while me.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
            me = me["inner"][0]
        if me.get("kind") != "MemberExpr":
            raise ToolLimit("member call through " + str(me.get("kind")))
        obj = me["inner"][0]
        if me.get("isArrow"):
            p = self.ev(obj, st)
            this = self.deref(p, st)
        else:
            this = self.lv(obj, st)
        args = [self.arg(a, st, None) for a in n["inner"][1:]]
        f = self.prog.func_of_decl(me.get("referencedMemberDecl"))
        return self.method(f, this, args, st, n, me.get("name"), strip_type(qt(obj)).rstrip("*").strip(), obj)

    def method(self, f, this, args, st, n, name, objtype, objnode=None):
        if f is not None:
            if f.virtual and not self.explicit_qualified(n):
                v = self.load(st, this)
                if isinstance(v, Rec):
                    g = self.prog.overrider(f, v.cls)
                    if g is not None:
                        f = g
            if f.is_static:
                return self.call_func(f, None, args, st, n)
            if f.body is not None or f.qname in self.contracts:
                return self.call_func(f, this, args, st, n)
            raise ToolLimit("no body for method " + f.qname)
        from .models import std_method
        return std_method(self, st, name, this, args, n, objtype)

    def explicit_qualified(self, n):
        """Base::f() on the own object: the member expression starts before the name"""
        me = (n or {}).get("inner", [None])[0] if isinstance(n, dict) else None
        while isinstance(me, dict) and me.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
            me = me["inner"][0]
        if not isinstance(me, dict) or me.get("kind") != "MemberExpr" or not me.get("inner"):
            return False
        if me["inner"][0].get("kind") in ("CXXThisExpr", "ImplicitCastExpr"):
            o = me["inner"][0]
            while o.get("kind") == "ImplicitCastExpr":
                o = o["inner"][0]
            if o.get("kind") == "CXXThisExpr" and o.get("implicit"):
                b, e = me.get("range", {}).get("begin", {}).get("offset"), me.get("range", {}).get("end", {}).get("offset")
                return b is not None and e is not None and b != e
        return False

    def e_CXXOperatorCallExpr(self, n, st):
        return self.call_operator(n, st)

    def call_operator(self, n, st):
        c = n["inner"][0]
        while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            c = c["inner"][0]
        rd = c.get("referencedDecl", {})
        name = rd.get("name", "")
        f = self.prog.func_of_decl(rd.get("id"))
        if f is not None and (f.body is not None or f.qname in self.contracts):
            if f.kind == "CXXMethodDecl":
                this = self.lv(n["inner"][1], st)
                args = [self.arg(a, st, None) for a in n["inner"][2:]]
                return self.method(f, this, args, st, n, name, "")
            args = [self.arg(a, st, None) for a in n["inner"][1:]]
            return self.call_func(f, None, args, st, n)
        if f is not None and f.kind == "CXXMethodDecl" and name == "operator=":
            # implicit member-wise assignment
            this = self.lv(n["inner"][1], st)
            v = self.ev(n["inner"][2], st)
            if isinstance(v, LV):
                v = self.load(st, v)
            self.store(st, this, v)
            return this
        # right operand of assignment operators is sequenced first; others left to right
        args = [self.arg(a, st, None) for a in n["inner"][1:]]
        from .models import std_operator
        return std_operator(self, st, name, args, n, strip_type(qt(n["inner"][1])))

    def e_CXXConstructExpr(self, n, st):
        t = ctype(n)
        m = re.match(r"(.*)\[(\d+)\]$", t)
        args = [self.arg(a, st, None) for a in n.get("inner", ())]
        ct = n.get("ctorType", {}).get("qualType")
        if m:
            return ListV(m.group(1).strip(), [self.default_value(m.group(1), st) for _ in range(int(m.group(2)))])
        if n.get("elidable") and len(args) == 1:
            return self.argval(args[0], st)
        cls = norm_cls(t)
        if t.startswith("(lambda at") and len(args) == 1:
            return self.argval(args[0], st)
        if cls in self.prog.classes:
            return self.construct(cls, args, st, n, ct)
        from .models import std_construct
        return std_construct(self, st, t, args, n, ct)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXNewExpr(self, n, st):
        t = strip_type(qt(n))
        assert t.endswith("*")
        t = strip_type(t[:-1])
        inner = [c for c in n.get("inner", ()) if c.get("kind")]
        if n.get("isArray"):
            size = None
            for c in inner:
                if c.get("kind") not in ("CXXConstructExpr", "InitListExpr"):
                    size = self.asint(self.ev(c, st))
                    break
            nm = self.newroot("new")
            st.store[nm] = self.uninit_array(t, size, nm)
            return PtrV(nm, (), iv(0))
        v = None
        for c in inner:
            v = self.ev(c, st)
            break
        if v is None:
            v = self.default_value(t, st, True)
        l = self.alloc(st, v, "new")
        return PtrV(l.root)

    def uninit_array(self, t, size, nm):
        t = strip_type(t)
        if t.startswith("std::complex"):
            fr = z3.Function("uninit_re_" + nm, T.Int, T.Real)
            fi = z3.Function("uninit_im_" + nm, T.Int, T.Real)
            return ArrV(t, Base("fn", lambda i: Rec("complex", {"re": fr(i), "im": fi(i)})), (), size, nm)
        sort = T.Real if t in FLOATS else T.Int
        f = z3.Function("uninit_" + nm, T.Int, sort)
        return ArrV(t, Base("fn", lambda i: f(i)), (), size, nm)

    def e_CXXDeleteExpr(self, n, st):
        self.ev(n["inner"][0], st)
        return None

    def e_PredefinedExpr(self, n, st):
        return StrV("")

    def e_LambdaExpr(self, n, st):
        """a closure: its operator() runs with the captured variables (references, or copies made here)"""
        rec = next((c for c in n.get("inner", ()) if c.get("kind") == "CXXRecordDecl"), None)
        if rec is None:
            raise ToolLimit("lambda")
        meths = []
        for c in rec.get("inner", ()):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                meths.append(c)
            if c.get("kind") == "FunctionTemplateDecl":
                meths += [x for x in c.get("inner", ()) if x.get("kind") == "CXXMethodDecl"]
        fr = self.frames[-1]
        env = dict(fr.env)
        this = fr.this
        fields = [c for c in rec.get("inner", ()) if c.get("kind") == "FieldDecl"]
        k = n["inner"].index(rec)
        inits = [c for c in n["inner"][k + 1:] if c.get("kind") != "CompoundStmt"]
        if len(fields) != len(inits):
            raise ToolLimit("lambda captures")
        for fd, e in zip(fields, inits):
            if qt(fd).rstrip().endswith("&"):
                continue
            d = e
            while d.get("kind") not in ("DeclRefExpr", "CXXThisExpr"):
                if len(d.get("inner", ())) != 1:
                    raise ToolLimit("lambda init capture")
                d = d["inner"][0]
            if d["kind"] == "CXXThisExpr":
                continue
            v = self.ev(e, st)
            if isinstance(v, LV):
                v = self.load(st, v)
            env[d["referencedDecl"]["id"]] = self.alloc(st, v, "capture")
        for m in meths:
            if m["id"] not in self.prog.byid or self.prog.funcs[self.prog.byid[m["id"]]].body is None:
                self.prog._index_func(m, "lambda", "lambda@" + n["id"])
                f = self.prog.func_of_decl(m["id"])
                f.is_lambda = True
        return LamV(n["id"], env, this)
