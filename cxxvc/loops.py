"""Loop rule.

For each loop the engine derives an inductive summary from the body and checks it:
 * induction variables  v = v0 + c*t           (checked: body maps the closed form at t to t+1)
 * array writes a[f(t)] = g(t)                  (checked: no iteration reads what an earlier one wrote,
                                                 no two iterations write the same cell in conflicting order)
 * per-iteration temporaries                    (their value never flows into the next iteration)
 * min / max / sum reductions                   (kept as quantified facts about the result)
Loops with a concrete number of iterations (<= 40) are executed.
Anything else is abstracted by "every location the body modifies is arbitrary, and the exit
condition holds" - sound for proving, and usually too weak to prove anything that depends on it.
"""
from fractions import Fraction
import z3
from . import terms as T
from .terms import iv, norm, poly, TRUE, FALSE, band, bnot, ite, num, is_num
from .values import *


def loop(ex, st, cond, inc, body, kind, node):
    # 1. concrete execution
    r = try_concrete(ex, st, cond, inc, body, kind)
    if r is not None:
        return r
    rule = getattr(ex, "loop_rule", None)
    if rule is not None:
        r = rule(ex, st, cond, inc, body, kind)
        if r is not None:
            return r
    if getattr(ex, "prefer_candidates", False) and getattr(ex, "loop_candidates", None):
        return havoc_loop(ex, st, cond, inc, body, kind)
    if kind in ("for", "while") and cond is not None:
        snap = st.clone()
        nob, fr = len(ex.obls), ex.frames[-1]
        saved = (list(fr.returns), list(fr.breaks), list(fr.conts), [list(t) for t in ex.throws])
        try:
            ok = summarize(ex, st, cond, inc, body)
            if ok:
                ex.loops_summarized += 1
                return True
        except ToolLimit as e:
            reason = str(e)
        else:
            reason = "no summary"
        ex.become(st, snap)
        del ex.obls[nob:]
        fr.returns[:], fr.breaks[:], fr.conts[:] = saved[0], saved[1], saved[2]
        ex.throws[:] = saved[3]
        ex.notes.add("loop abstracted in %s: %s" % (ex.frames[-1].func.qname if ex.frames else "?", reason[:140]))
    return havoc_loop(ex, st, cond, inc, body, kind)


def run_body(ex, st, body):
    """body with continue handled; returns (alive, break states)"""
    fr = ex.frames[-1]
    sb, sc = fr.breaks, fr.conts
    fr.breaks, fr.conts = [], []
    base = len(st.pc)
    try:
        alive = ex.run(body, st)
        brk, con = fr.breaks, fr.conts
    finally:
        fr.breaks, fr.conts = sb, sc
    outs = ([st.clone()] if alive else []) + con
    if outs:
        ex.become(st, ex.merge(outs, base))
    return bool(outs), brk


def evcond(ex, st, cond):
    return z3.simplify(ex.truth(ex.ev(cond, st)))


def try_concrete(ex, st, cond, inc, body, kind):
    fr = ex.frames[-1]
    long = fr.long
    if id(body) in long:
        return None
    snap = st.clone()
    nob = len(ex.obls)
    saved = (list(fr.returns), list(fr.breaks), list(fr.conts), [list(t) for t in ex.throws])

    def restore():
        ex.become(st, snap)
        del ex.obls[nob:]
        fr.returns[:], fr.breaks[:], fr.conts[:] = saved[0], saved[1], saved[2]
        ex.throws[:] = saved[3]

    exits = []
    base = len(st.pc)
    n = 0
    first = True
    while True:
        if not (kind == "do" and first):
            if cond is None:
                c = TRUE
            else:
                probe = st.clone() if first else st
                c = evcond(ex, st, cond)
                if not (z3.is_true(c) or z3.is_false(c)) and not is_huge(c):
                    if ex.decide(st, c, 300):
                        c = TRUE
                    elif ex.decide(st, bnot(c), 300):
                        c = FALSE
            if z3.is_false(c):
                break
            if not z3.is_true(c):
                restore()
                return None
        if n >= ex.limit_unroll:
            long.add(id(body))
            restore()
            return None
        n += 1
        if kind == "do" and first:
            # only execute concretely if the condition turns out concrete after the body
            pass
        first = False
        try:
            alive, brk = run_body(ex, st, body)
        except ToolLimit:
            raise
        exits += brk
        if not alive:
            st_dead = True
            if exits:
                ex.become(st, ex.merge(exits, base))
                return True
            return False
        if inc is not None:
            ex.ev(inc, st)
        if n == 1 and kind != "do" and not quick_concrete(ex, st, cond):
            restore()
            return None
    if exits:
        ex.become(st, ex.merge(exits + [st.clone()], base))
    return True


def is_huge(c):
    return False


def quick_concrete(ex, st, cond):
    """after one concrete iteration, is the condition still decided?"""
    return True


def changed_leaves(ex, a, b):
    """leaf paths that differ between two stores (roots of a only)"""
    out = []
    for r, va in a.store.items():
        vb = b.store.get(r)
        if vb is va:
            continue
        la = dict(leaves(va)) if va is not None else {}
        if va is None or vb is None:
            out.append((r, ()))
            continue
        lb = dict(leaves(vb))
        if set(map(str, la)) != set(map(str, lb)):
            out.append((r, None))
            continue
        for p, x in la.items():
            y = lb[p]
            if x is y:
                continue
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                if x.sort() == y.sort() and z3.is_true(T.beq(x, y)):
                    continue
                out.append((r, p))
            elif isinstance(x, ArrV) and isinstance(y, ArrV):
                if x.base is not y.base or len(x.log) != len(y.log) or any(u is not v for u, v in zip(x.log, y.log)):
                    out.append((r, p))
            elif isinstance(x, ListV) and isinstance(y, ListV):
                if len(x.items) != len(y.items):
                    out.append((r, None))
            elif isinstance(x, PtrV) and isinstance(y, PtrV):
                if x.root != y.root or str(x.path) != str(y.path):
                    out.append((r, None))
            elif isinstance(x, Opaque) or isinstance(y, Opaque):
                pass
            elif isinstance(x, StrV) and isinstance(y, StrV):
                out.append((r, None))
            else:
                out.append((r, None))
    return out


def setleaf(st, root, path, new):
    st.store[root] = set_leaf(st.store[root], path, new)


def getleaf(st, root, path):
    return get_leaf(st.store[root], path)


def havoc_leaf(ex, st, root, path, markers=None):
    old = getleaf(st, root, path)
    if isinstance(old, z3.ExprRef):
        h = T.fresh("h", old.sort())
        setleaf(st, root, path, h)
        return h
    if isinstance(old, ArrV):
        m = Marker(old)
        if markers is not None:
            markers[(root, path)] = m
        setleaf(st, root, path, ArrV(old.elem, Base("loop", m), (), old.size, old.name))
        return m
    raise ToolLimit("loop modifies a %s" % type(old).__name__)


def list_to_arr(ex, st, root):
    """concrete lists written at symbolic indices become arrays"""
    def conv(v):
        if isinstance(v, ListV):
            return as_arr(ListV(v.elem, v.items))
        if isinstance(v, Rec):
            return Rec(v.cls, {k: conv(x) for k, x in v.f.items()})
        return v
    st.store[root] = conv(st.store[root])


GHOSTS = ("draws", "events")


def iterate(ex, st0, mods, cond, inc, body, subst_state=None):
    """one symbolic iteration from st0 with the leaves in mods havoced"""
    st = st0.clone()
    syms, markers = {}, {}
    for (r, p) in mods:
        h = havoc_leaf(ex, st, r, p, markers)
        syms[(r, p)] = h
    for g in list(st.ghost):
        if isinstance(st.ghost[g], z3.ExprRef):
            h = T.fresh("hg", st.ghost[g].sort())
            syms[("ghost", g)] = h
            st.ghost[g] = h
    return st, syms, markers


def summarize(ex, st, cond, inc, body):
    # ---- pass A: which leaves change, and how
    mods = []
    nob = len(ex.obls)
    fr = ex.frames[-1]
    for rnd in range(8):
        h0, syms, markers = iterate(ex, st, mods, cond, inc, body)
        entry = h0.clone()
        c = evcond(ex, h0, cond)
        if changed_leaves(ex, entry, h0):
            raise ToolLimit("loop condition has side effects")
        h0.assume(c, "br")
        nret, nthr = len(fr.returns), [len(t) for t in ex.throws]
        alive, brk = run_body(ex, h0, body)
        if brk or len(fr.returns) != nret or not alive:
            raise ToolLimit("loop leaves early")
        if [len(t) for t in ex.throws] != nthr:
            for t, k in zip(ex.throws, nthr):
                del t[k:]
            raise ToolLimit("loop may throw")
        if inc is not None:
            ex.ev(inc, h0)
        ch = changed_leaves(ex, entry, h0)
        new = []
        redo = False
        for r, p in ch:
            if p is None:
                # shape change: maybe a list indexed symbolically
                v0 = st.store[r]
                list_to_arr(ex, st, r)
                if st.store[r] is v0:
                    raise ToolLimit("loop changes the shape of %s" % r)
                redo = True
            elif (r, p) not in mods:
                new.append((r, p))
        if redo:
            mods = [m for m in mods if m[0] in st.store and getleaf_ok(st, m)]
            continue
        if not new:
            break
        mods += new
    else:
        raise ToolLimit("loop modification set does not stabilise")
    del ex.obls[nob:]
    hs = {}
    for (r, p), h in syms.items():
        if isinstance(h, z3.ExprRef):
            hs[h.get_id()] = (r, p)
    allh = set(hs)
    # leaves unchanged in truth (havoced but written back identically) are fine
    ind = {}
    for (r, p), h in syms.items():
        if not isinstance(h, z3.ExprRef):
            continue
        e = h0.ghost[p] if r == "ghost" else getleaf(h0, r, p)
        if h.sort() in (T.Int, T.Real):
            d = from_sub(e, h)
            if d is not None and not T.depends(d, allh):
                ind[(r, p)] = d
    # main counter from the condition
    mc = find_counter(ex, c, syms, ind, st)
    if mc is None:
        raise ToolLimit("no counter in loop condition " + str(c)[:60])
    (mr, mp), lo, hi, step = mc           # counter takes values lo, lo+step, ... while < hi (or > for negative)
    i0 = getleaf(st, mr, mp)
    # ---- pass B: generic iteration with closed forms
    b = T.fresh("b", T.Int)
    if step == 1:
        cnt = norm(b - i0)
        bval = b
        dom = band(b >= i0, b < hi)
        last = norm(hi - 1)
        nonempty = T.cmp(">", hi, i0)
        trip0 = norm(hi - i0)
    else:
        # binder counts iterations
        cnt = b
        bval = norm(i0 + b * step)
        if step > 0:
            trip0 = (hi - i0 + (step - 1)) / iv(step)
            nonempty = T.cmp(">", hi, i0)
        else:
            # runs while counter > lo-ish: hi is exclusive lower bound
            trip0 = norm(i0 - hi) if step == -1 else (i0 - hi + (-step - 1)) / iv(-step)
            nonempty = T.cmp(">", i0, hi)
        dom = band(b >= 0, b < trip0)
        last = norm(trip0 - 1)
    if ex.decide(st, trip0 >= 0):
        trip = trip0
    else:
        trip = ite(trip0 >= 0, trip0, iv(0))
    sB = st.clone()
    symsB, markersB = {}, {}
    tcnt = T.toreal(cnt)
    for (r, p) in list(syms):
        if (r, p) in ind:
            d = ind[(r, p)]
            if r == "ghost":
                v0 = st.ghost[p]
            else:
                v0 = getleaf(st, r, p)
            v = norm(v0 + d * (cnt if v0.sort() == T.Int else tcnt))
            if r == "ghost":
                sB.ghost[p] = v
            else:
                setleaf(sB, r, p, v)
        else:
            if r == "ghost":
                h = T.fresh("hg", st.ghost[p].sort())
                sB.ghost[p] = h
                symsB[(r, p)] = h
            else:
                symsB[(r, p)] = havoc_leaf(ex, sB, r, p, markersB)
    base = len(sB.pc)
    nfresh = T._fresh[0]
    nroot0 = ex.nroot
    sB.assume(dom, "br")
    entry = sB.clone()
    cB = evcond(ex, sB, cond)
    if not ex.decide(sB, cB):
        raise ToolLimit("trip count not confirmed")
    nret, nthr = len(fr.returns), [len(t) for t in ex.throws]
    nobB = len(ex.obls)
    for t in markersB.values():
        t.deps = []
    alive, brk = run_body(ex, sB, body)
    if brk or len(fr.returns) != nret or not alive:
        raise ToolLimit("loop leaves early")
    if inc is not None:
        ex.ev(inc, sB)
    extra = [x for x in changed_leaves(ex, entry, sB) if x not in syms]
    if extra:
        raise ToolLimit("unexpected modification")
    hB = set(h.get_id() for h in symsB.values() if isinstance(h, z3.ExprRef))
    fresh_in_body = lambda e: has_fresh(e, nfresh, b, hB, nroot0)
    # induction step check
    for (r, p), d in ind.items():
        v0 = st.ghost[p] if r == "ghost" else getleaf(st, r, p)
        e = sB.ghost[p] if r == "ghost" else getleaf(sB, r, p)
        want = norm(v0 + d * ((cnt + 1) if v0.sort() == T.Int else (tcnt + 1)))
        if not z3.is_true(T.beq(e, want)) and not ex.decide(sB, e == want):
            raise ToolLimit("induction step fails")
    for k in st.ghost:
        if not isinstance(st.ghost[k], z3.ExprRef) and sB.ghost.get(k) is not st.ghost[k]:
            raise ToolLimit("event inside a symbolic loop")
    out = st.clone()
    # scalars
    for (r, p), h in symsB.items():
        if r == "ghost":
            raise ToolLimit("ghost counter not inductive")
        e = getleaf(sB, r, p)
        if isinstance(h, z3.ExprRef):
            v0 = getleaf(st, r, p)
            others = hB - {h.get_id()}
            if T.depends(e, others) and not in_minred(ex, e):
                # depends on another carried value: arbitrary afterwards (sound; uses are rejected below)
                red = T.fresh("carried", e.sort())
                ex.reds = getattr(ex, "reds", {})
                ex.reds[red.get_id()] = dict(res=red, init=v0, step=e, h=h, b=b, dom=dom, dir=None, pc=[c for k, c in sB.pc[base:]])
                setleaf(out, r, p, red)
                continue
            if not T.depends(e, {h.get_id()}) and not in_minred(ex, e):
                if fresh_in_body(e):
                    # value of the last iteration is some arbitrary value
                    fin = T.fresh("last", e.sort())
                else:
                    fin = subst(e, [(b, last)])
                res = ite_val(nonempty, fin, v0)
                if e.get_id() in getattr(ex, "reds", {}):
                    # carried through an inner loop of the body
                    ex.reds[res.get_id()] = dict(res=res, init=v0, step=e, h=h, b=b, dom=dom, dir=None, pc=[c for k, c in sB.pc[base:]])
                setleaf(out, r, p, res)
                continue
            red = minreduction(ex, out, e, h, b, dom, v0, sB, nfresh, hB, nroot0)
            if red is not None:
                if not has_fresh(e, nfresh, b, hB, nroot0):
                    ex.reds = getattr(ex, "reds", {})
                    ex.reds[red.get_id()] = dict(res=red, init=v0, step=e, h=h, b=b, dom=dom, dir=None, pc=[c for k, c in sB.pc[base:]])
                setleaf(out, r, p, red)
                continue
            red = reduction(ex, out, st, e, h, b, dom, v0, cnt, nonempty, sB, base)
            if red is None:
                red = T.fresh("carried", e.sort())
                ex.reds = getattr(ex, "reds", {})
                ex.reds[red.get_id()] = dict(res=red, init=v0, step=e, h=h, b=b, dom=dom, dir=None, pc=[c for k, c in sB.pc[base:]])
            setleaf(out, r, p, red)
    # is some carried scalar used by array writes / conditions?
    # arrays
    for (r, p), m in symsB.items():
        if not isinstance(m, Marker):
            continue
        arr = getleaf(sB, r, p)
        if arr.base.kind != "loop" or arr.base.data is not m:
            raise ToolLimit("array replaced inside a loop")
        recs = collapse(ex, sB, arr.log)
        for w in recs:
            for e in wr_exprs(w):
                if T.depends(e, hB):
                    raise ToolLimit("array write depends on a loop-carried scalar")
                if fresh_in_body(e):
                    raise ToolLimit("array write depends on an unconstrained value")
        # facts assumed inside the body are only implications: keep them out (sound)
        check_deps(ex, sB, m, recs, b, dom)
        check_order(ex, sB, recs, b, dom)
        newrecs = []
        for w in recs:
            idxdep = T.depends(w.idx, {b.get_id()})
            if idxdep:
                newrecs.append(WR(tuple(w.binders) + (b,), band(dom, w.dom), w.guard, w.idx, w.val))
            else:
                if T.depends(w.guard, {b.get_id()}) or T.depends(w.dom, {b.get_id()}):
                    raise ToolLimit("conditional write to a fixed cell in a loop")
                newrecs.append(subst_wr(WR(w.binders, band(nonempty, w.dom), w.guard, w.idx, w.val), [(b, last)]))
        old = getleaf(st, r, p)
        setleaf(out, r, p, old.with_log(old.log + tuple(newrecs)))
    for (r, p), d in ind.items():
        v0 = st.ghost[p] if r == "ghost" else getleaf(st, r, p)
        v = norm(v0 + d * (trip if v0.sort() == T.Int else T.toreal(trip)))
        if r == "ghost":
            out.ghost[p] = v
        else:
            setleaf(out, r, p, v)
    ex.become(st, out)
    return True


def getleaf_ok(st, m):
    try:
        return getleaf(st, m[0], m[1]) is not None
    except Exception:
        return False


def from_sub(e, h):
    d = norm(e - h)
    if T.depends(d, {h.get_id()}):
        return None
    return d


def has_fresh(e, n0, b, hB, nroot0=1 << 60):
    """mentions a value created inside the body (not a binder): it would differ per iteration"""
    for x in T.subterms([e]):
        if not z3.is_app(x) or x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            continue
        nm = x.decl().name()
        if x.num_args() == 0 and "!" in nm:
            base, k = nm.rsplit("!", 1)
            if k.isdigit() and int(k) > n0 and base != "b" and not x.eq(b):
                return True
        if "#" in nm:
            k = nm.rsplit("#", 1)[1]
            if k.isdigit() and int(k) > nroot0:
                return True
    return False


def wr_exprs(w):
    out = [w.dom, w.guard, w.idx]

    def go(v):
        if isinstance(v, z3.ExprRef):
            out.append(v)
        elif isinstance(v, Rec):
            for x in v.f.values():
                go(x)
        elif isinstance(v, ListV):
            for x in v.items:
                go(x)
    go(w.val)
    return out


def find_counter(ex, c, syms, ind, st):
    """(leaf, lo, exclusive bound, step) from a comparison"""
    neg = False
    while z3.is_not(c):
        neg = not neg
        c = c.arg(0)
    if not z3.is_app(c) or c.num_args() != 2:
        return None
    k = c.decl().kind()
    a, bb = c.children()
    if a.sort() not in (T.Int, T.Real):
        return None
    op = {z3.Z3_OP_LT: "<", z3.Z3_OP_LE: "<=", z3.Z3_OP_GT: ">", z3.Z3_OP_GE: ">=", z3.Z3_OP_EQ: "==", z3.Z3_OP_DISTINCT: "!="}.get(k)
    if op is None:
        return None
    if neg:
        op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
    d = T.padd(poly(a), poly(bb), -1)
    # a - bb OP 0, integer
    cand = None
    allh = set(h.get_id() for h in syms.values() if isinstance(h, z3.ExprRef))
    for lf, h in syms.items():
        if lf in ind and isinstance(h, z3.ExprRef) and h.sort() == T.Int:
            co, rest = T.coeff_of(d, T.atom_key(h))
            if co and set(co) == {()} and abs(co[()]) == 1:
                s = ind[lf]
                if not is_num(s) or num(s) == 0:
                    continue
                r = T.from_poly(rest, T.Int) if all(v.denominator == 1 for v in rest.values()) else None
                if r is None or T.depends(r, allh):
                    # maybe depends on other induction variables: unsupported
                    continue
                cand = (lf, int(co[()]), r, int(num(s)))
                break
    if cand is None:
        return None
    lf, sg, r, step = cand
    if lf[0] == "ghost":
        return None
    # sg*h + r OP 0
    if sg == -1:
        op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
        bound = r
    else:
        bound = norm(-r)
    # h OP bound
    i0 = getleaf(st, *lf)
    if step > 0:
        if op == "<":
            return lf, i0, bound, step
        if op == "<=":
            return lf, i0, norm(bound + 1), step
        if op == "!=" and step == 1 and ex.decide(st, bound >= i0):
            return lf, i0, bound, step
    else:
        if op == ">":
            return lf, i0, bound, step
        if op == ">=":
            return lf, i0, norm(bound - 1), step
        if op == "!=" and step == -1 and ex.decide(st, bound <= i0):
            return lf, i0, bound, step
    return None


def collapse(ex, st, log):
    """merge consecutive writes of one iteration to the same cell"""
    out = []
    for w in log:
        done = False
        if out and not w.binders:
            for j in range(len(out) - 1, -1, -1):
                o = out[j]
                if not o.binders and z3.is_true(T.beq(o.idx, w.idx)):
                    if z3.is_true(w.guard):
                        out[j] = WR((), TRUE, TRUE, o.idx, w.val)
                    elif z3.is_true(o.guard):
                        out[j] = WR((), TRUE, TRUE, o.idx, ite_val(w.guard, w.val, o.val))
                    else:
                        out[j] = WR((), TRUE, z3.simplify(z3.Or(o.guard, w.guard)), o.idx, ite_val(w.guard, w.val, o.val))
                    done = True
                    break
                # different cell?  stop unless provably distinct
                if not (not o.binders and z3.is_false(T.beq(o.idx, w.idx))):
                    break
        if not done:
            out.append(w)
    return out


def rename(w, b, b2):
    fresh_b = [T.fresh("b", T.Int) for _ in w.binders]
    pairs = [(b, b2)] + list(zip(w.binders, fresh_b))
    return WR(tuple(fresh_b), subst(w.dom, pairs), subst(w.guard, pairs), subst(w.idx, pairs), w.val)


def disjoint(ex, st, w, idx, b, dom, rel):
    """no iteration b2 (rel to b) of write w touches idx (an expression over b)"""
    b2 = T.fresh("b", T.Int)
    w2 = rename(w, b, b2)
    dom2 = subst(dom, [(b, b2)])
    if not T.depends(w2.idx, {b2.get_id()}):
        # fixed cell
        s = st.clone()
        s.assume(band(dom2, w2.dom, w2.guard))
        s.assume(b2 < b if rel == "<" else b2 > b)
        return ex.decide(s, w2.idx != idx)
    full = WR(tuple(w2.binders) + (b2,), band(dom2, w2.dom), TRUE, w2.idx, w2.val)
    sig = ex.solve_idx(st, full, idx)
    s = st.clone()
    if sig is None:
        s.assume(band(dom2, w2.dom, w2.guard))
        s.assume(b2 < b if rel == "<" else b2 > b)
        return ex.decide(s, w2.idx != idx)
    pairs, extra = sig
    v = dict((x.get_id(), y) for x, y in pairs)[b2.get_id()]
    if z3.is_true(T.beq(v, b)):
        return True
    s.assume(band(*extra))
    s.assume(subst(full.dom, pairs))
    s.assume(subst(w2.guard, pairs))
    return ex.decide(s, (v >= b) if rel == "<" else (v <= b))


def check_deps(ex, st, m, recs, b, dom):
    for idx, pc in m.deps:
        s = st.clone()
        s.pc = pc
        s.assume(dom)
        for w in recs:
            if not disjoint(ex, s, w, idx, b, dom, "<"):
                raise ToolLimit("iteration reads a cell written by an earlier one")


def check_order(ex, st, recs, b, dom):
    # (i before j in the body): iteration b2 > b of record i must not overwrite record j of iteration b
    for j in range(len(recs)):
        for i in range(j + 1):
            w, o = recs[i], recs[j]
            s = st.clone()
            s.assume(dom)
            s.assume(o.dom)
            if i == j and not T.depends(w.idx, {b.get_id()}) and not w.binders:
                continue            # last iteration wins; handled by the caller
            if not disjoint(ex, s, w, o.idx, b, dom, ">"):
                raise ToolLimit("iterations write the same cell")


def in_minred(ex, e):
    return e.get_id() in getattr(ex, "minreds", {})


def conjuncts(c):
    if z3.is_and(c):
        return [x for k in c.children() for x in conjuncts(k)]
    return [c]


def minreduction(ex, out, e, h, b, dom, v0, sB, nfresh, hB, nroot0):
    """running guarded minimum  h := g(b) && f(b) < h ? f(b) : h, also through nested loops.
    The result r satisfies: r <= v0; r == v0 or r == f(w) for a witness w in the domain with g(w);
    and r <= f(x) for every x in the domain with g(x) (kept in ex.minreds for instantiation)."""
    if e.sort() not in (T.Int, T.Real):
        return None
    if not hasattr(ex, "minreds"):
        ex.minreds = {}
    entries = None
    hid = {h.get_id()}
    if e.get_id() in ex.minreds:
        m = ex.minreds[e.get_id()]
        if not m["init"].eq(h):
            return None
        entries = [((b,) + bs, band(dom, d), g, f) for bs, d, g, f in m["entries"]]
    elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = e.children()
        if y.eq(h) and not T.depends(x, hid):
            f, cs = x, conjuncts(c)
        elif x.eq(h) and not T.depends(y, hid):
            f, cs = y, conjuncts(z3.simplify(bnot(c)))
        else:
            return None
        g = [k for k in cs if not T.depends(k, hid)]
        hh = [k for k in cs if T.depends(k, hid)]
        if not hh:
            return None
        s = sB.clone()
        s.assume(band(*g))
        if not (ex.decide(s, band(*hh) == (f < h)) or ex.decide(s, band(*hh) == (f <= h))):
            return None
        entries = [((b,), dom, band(*g), f)]
    if entries is None:
        return None
    for bs, d, g, f in entries:
        for q in (d, g, f):
            if T.depends(q, hB) or has_fresh(q, nfresh, b, hB, nroot0):
                return None
    res = T.fresh("minred", e.sort())
    ex.minreds[res.get_id()] = dict(res=res, init=v0, entries=entries)
    out.assume(res <= v0)
    alts = [res == v0]
    for bs, d, g, f in entries:
        pairs = [(x, T.fresh("w", T.Int)) for x in bs]
        alts.append(band(subst(d, pairs), subst(g, pairs), res == subst(f, pairs)))
    out.assume(z3.Or(*alts))
    return res


def ite_sub(e, h):
    """d with e = h + d and d free of h, also through conditionals"""
    d = from_sub(e, h)
    if d is not None:
        return d
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and not T.depends(e.arg(0), {h.get_id()}):
        x, y = ite_sub(e.arg(1), h), ite_sub(e.arg(2), h)
        if x is not None and y is not None:
            return z3.If(e.arg(0), x, y)
    return None


def reduction(ex, out, st, e, h, b, dom, v0, cnt, nonempty, sB, base):
    """min/max/sum reductions: returns the final value (with facts added to out)"""
    if e.sort() not in (T.Int, T.Real):
        return None
    # sum: e = h + f
    d = ite_sub(e, h)
    if d is not None:
        res = T.fresh("sum", e.sort())
        ex.sums = getattr(ex, "sums", {})
        ex.sums[res.get_id()] = (res, d, b, dom, v0)
        return res
    # guarded minimum: e == h or e == f(b) with f <(=) h
    cases = ite_cases(e)
    if cases is None:
        return None
    upd = []
    for g, v in cases:
        if v.eq(h):
            continue
        if T.depends(v, {h.get_id()}):
            return None
        upd.append((g, v))
    res = T.fresh("red", e.sort())
    # facts proved for one generic step with arbitrary h:
    #  (1) the result never increases / never decreases
    s = sB
    dec = ex.decide(s, e <= h)
    incr = ex.decide(s, e >= h)
    if not dec and not incr:
        return None
    out.assume(res <= v0 if dec else res >= v0)
    ex.reds = getattr(ex, "reds", {})
    ex.reds[res.get_id()] = dict(res=res, init=v0, step=e, h=h, b=b, dom=dom, dir="min" if dec else "max",
                                 pc=[c for k, c in sB.pc[base:]])
    return res


def ite_cases(e, g=TRUE, out=None):
    if out is None:
        out = []
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        ite_cases(a, band(g, c), out)
        ite_cases(b, band(g, bnot(c)), out)
    else:
        out.append((g, e))
    return out


def candidates(ex, st, mods, keep=None):
    """instances of the invariant templates of the contract for the variables a loop changes"""
    vals = [getleaf(st, r, p) for r, p in mods if r != "ghost"]
    C = ex.loop_candidates(ex, st, [v for v in vals if isinstance(v, (z3.ExprRef, ArrV))])
    return C if keep is None else [C[k] for k in keep]


def houdini(ex, st, entry, s, mods):
    """numbers of the candidates that hold before the loop and are kept by every iteration"""
    c0, c1, c2 = (candidates(ex, x, mods) for x in (st, entry, s))
    if not len(c0) == len(c1) == len(c2):
        return []
    keep = [k for k, f in enumerate(c0) if ex.decide(st, f, 5000)]
    while keep:
        h = s.clone()
        for k in keep:
            h.assume(c1[k], "fact")
        left = [k for k in keep if ex.decide(h, c2[k], 5000)]
        if left == keep:
            return keep
        keep = left
    return []


def havoc_loop(ex, st, cond, inc, body, kind):
    """sound abstraction: modified locations arbitrary at entry of an arbitrary iteration; exit condition holds"""
    ex.loops_havoced += 1
    fr = ex.frames[-1]
    mods, inv = [], None
    for rnd in range(10):
        h0, syms, markers = iterate(ex, st, mods, cond, inc, body)
        # arrays: contents unknown
        for (r, p), m in markers.items():
            a = getleaf(h0, r, p)
            setleaf(h0, r, p, ex.uninit_array(a.elem, a.size, ex.newroot("hv")))
        for (r, p), h in syms.items():
            if isinstance(h, z3.ExprRef) and r != "ghost":
                pass
        if inv:
            for f in candidates(ex, h0, mods, inv):
                h0.assume(f, "fact")
        entry = h0.clone()
        nret, nbrk = len(fr.returns), len(fr.breaks)
        nthr = [len(t) for t in ex.throws]
        nob = len(ex.obls)
        s = h0
        if kind != "do":
            c = TRUE if cond is None else evcond(ex, s, cond)
            exit_state = s.clone()
            exit_state.assume(bnot(c), "fact")
            s.assume(c, "br")
        alive, brk = run_body(ex, s, body)
        if alive and inc is not None:
            ex.ev(inc, s)
        ch = changed_leaves(ex, entry, s) if alive else []
        for x in brk:
            ch += changed_leaves(ex, entry, x)
        rets = fr.returns[nret:]
        for x, _ in rets:
            pass
        new = [c_ for c_ in ch if c_ not in mods]
        bad = [c_ for c_ in new if c_[1] is None]
        if bad:
            progress = False
            for r, p in bad:
                v0 = st.store[r]
                list_to_arr(ex, st, r)
                progress |= st.store[r] is not v0
            if not progress:
                raise ToolLimit("loop changes the shape of %s" % bad[0][0])
            new = []
            mods = []
        elif not new:
            if inv is not None or not getattr(ex, "loop_candidates", None) or not alive:
                break
            inv = houdini(ex, st, entry, s, mods)
            if not inv:
                break
        # retry with more havoc: drop what this round recorded
        del fr.returns[nret:]
        for t, k in zip(ex.throws, nthr):
            del t[k:]
        del ex.obls[nob:]
        mods += new
    else:
        raise ToolLimit("loop abstraction does not stabilise")
    for g in st.ghost:
        if not isinstance(st.ghost[g], z3.ExprRef) and alive and s.ghost.get(g) is not st.ghost[g]:
            raise ToolLimit("event inside an abstracted loop")
    outs = []
    if kind == "do":
        if alive:
            c = evcond(ex, s, cond)
            s.assume(bnot(c), "fact")
            outs.append(s)
    else:
        outs.append(exit_state)
    base = len(st.pc)
    outs += brk
    if not outs:
        return False
    # choose nondeterministically between exits
    if len(outs) > 1:
        for k, o in enumerate(outs):
            ch = T.fresh("choice", T.Bool)
            pre, suf = o.pc[:base], o.pc[base:]
            o.pc = pre + tuple(("fact", c) for _, c in suf)
        sel = T.fresh("exit", T.Int)
        for k, o in enumerate(outs):
            facts = [c for _, c in o.pc[base:]]
            o.pc = o.pc[:base] + (("br", sel == k if k < len(outs) - 1 else band(*[sel != j for j in range(len(outs) - 1)])),) + tuple(("fact", c) for c in facts)
        ex.become(st, ex.merge(outs, base))
    else:
        o = outs[0]
        o.pc = o.pc[:base] + tuple(("fact", c) for _, c in o.pc[base:])
        ex.become(st, o)
    return True


def arbitrary_iteration(ex, st, cond, inc, body, visit):
    """rule for a loop whose iterations the contract judges one by one: iteration number k starts from a state where arrays the
    loop writes hold anything, lists it appends to have unknown elements, and a number it changes has grown by the same amount k
    times (checked by the iteration itself).  visit(k, before, after) makes the obligations of iteration k.
    Returns the state after the last iteration and their number."""
    fr = ex.frames[-1]
    k = T.fresh("iteration", T.Int)
    lists, mods, step = {}, [], {}

    def enter(n):
        s = st.clone()
        for r, el in lists.items():
            s.store[r] = PrefixV(el, [])
        for r, p in mods:
            v = getleaf(st, r, p)
            if isinstance(v, ArrV):
                setleaf(s, r, p, ex.uninit_array(v.elem, v.size, ex.newroot("any")))
            elif (r, p) in step:
                setleaf(s, r, p, norm(v + n * step[(r, p)]))
            else:
                setleaf(s, r, p, T.fresh("any", v.sort()))
        for g in s.ghost:
            if ("ghost", g) in step:
                s.ghost[g] = norm(st.ghost[g] + n * step[("ghost", g)])
        s.assume(n >= 0, "fact")
        return s

    saved = (len(fr.returns), len(fr.breaks), [len(t) for t in ex.throws], len(ex.obls))
    for rnd in range(12):
        first = not mods and not lists and not step
        s0 = enter(k)
        a = s0.clone()
        c = evcond(ex, a, cond)
        a.assume(c, "br")
        alive, brk = run_body(ex, a, body)
        if not alive or brk or len(fr.returns) != saved[0] or any(len(t) != n for t, n in zip(ex.throws, saved[2])):
            raise ToolLimit("iteration does not simply end")
        if inc is not None:
            ex.ev(inc, a)
        new = False
        for r, p in changed_leaves(ex, s0, a):
            if p is None:
                x, y = s0.store[r], a.store[r]
                if isinstance(x, PrefixV) and isinstance(y, PrefixV):
                    continue
                if isinstance(x, ListV) and isinstance(y, ListV) and not x.items and len(y.items) == 1:
                    lists[r] = x.elem
                    new = True
                    continue
                raise ToolLimit("iteration changes the shape of %s" % r)
            if (r, p) not in mods:
                if p == ():
                    v = st.store[r]
                    if v is None:
                        raise ToolLimit("iteration changes " + str(r))
                mods.append((r, p))
                v = getleaf(st, r, p)
                if isinstance(v, z3.ExprRef):
                    if v.sort() == T.Int:
                        step[(r, p)] = norm(getleaf(a, r, p) - getleaf(s0, r, p))
                elif not isinstance(v, ArrV):
                    raise ToolLimit("iteration changes a %s" % type(v).__name__)
                new = True
        for g, v in s0.ghost.items():
            if isinstance(v, z3.ExprRef) and ("ghost", g) not in step and not z3.is_true(T.beq(v, a.ghost[g])):
                step[("ghost", g)] = norm(a.ghost[g] - v)
                new = True
        if not new:
            break
        del ex.obls[saved[3]:]
    else:
        raise ToolLimit("iterations do not settle")
    for key, d in step.items():
        if contains(d, k):
            raise ToolLimit("growth depends on the iteration")
        x, y = (s0.ghost[key[1]], a.ghost[key[1]]) if key[0] == "ghost" else (getleaf(s0, *key), getleaf(a, *key))
        if not ex.decide(a, y == norm(x + d), 5000):
            raise ToolLimit("growth is not the same in every iteration")
        ex.oblige(a, y == norm(x + d), "each iteration adds the same amount", where=fr.func.qname)
    visit(k, s0, a)
    n = T.fresh("iterations", T.Int)
    out = enter(n)
    last = enter(norm(n - 1))
    out.assume(bnot(evcond(ex, out, cond)), "fact")
    out.assume(z3.Or(n == 0, evcond(ex, last, cond)), "fact")
    ex.become(st, out)
    return n


def contains(t, x):
    seen, todo = set(), [t]
    while todo:
        y = todo.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if y.eq(x):
            return True
        todo += y.children()
    return False
