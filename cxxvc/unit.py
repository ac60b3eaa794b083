"""Proof units: one unit = one function of /repo (or a lemma over contracts) checked against its contract.

A unit runs in its own process: symbolic execution of the function's current AST, then every
obligation is discharged.  The outcome of a unit is plain data (see `run_units`)."""
import multiprocessing as mp, os, random, signal, sys, time, traceback
import z3
from . import terms as T
from .execu import Exec, Arg, Obl
from .values import *
from .frontend import FrontendError
from .solve import discharge
from . import numeval


class Unit:
    def __init__(self, name, fn, func=None, replay=None, tmo=240, budgets=(4000, 8000, 15000)):
        self.name, self.fn, self.func, self.replay, self.tmo, self.budgets = name, fn, func, replay, tmo, budgets


class Ctx:
    def __init__(self, prog, unit, tier):
        self.P, self.unit, self.tier = prog, unit, tier
        self.execs = []
        self.covers = []
        self.deadline = time.time() + unit.tmo * 0.7

    def exec(self, contracts=None, **kw):
        ex = Exec(self.P, contracts or {}, **kw)
        ex.deadline = self.deadline
        self.execs.append(ex)
        return ex

    def cover(self, ex, st, name, extra=()):
        self.covers.append((name, list(ex.facts) + list(st.bools()) + list(extra)))

    def fn(self, qname, n=None, types=None):
        fs = self.P.find(qname, n, types)
        if not fs:
            raise ToolLimit("no function %s/%s in /repo" % (qname, n))
        if len(fs) > 1:
            raise ToolLimit("ambiguous %s/%s" % (qname, n))
        return fs[0]


def envtext(env):
    out = {}
    for k, v in (env or {}).items():
        if isinstance(k, tuple):
            k = "%s(%s)" % (k[0], ",".join(numtext(a) for a in k[1]))
        out[str(k)] = numtext(v)
    return out


def numtext(v):
    if isinstance(v, bool) or isinstance(v, int) or isinstance(v, str):
        return str(v)
    try:
        return repr(float(v))
    except Exception:
        return str(v)


def modelenv(m):
    """values of a (not confirmed) solver model, for replay against the real code only"""
    out = {}
    try:
        for d in m.decls():
            if d.arity() == 0:
                out[d.name()] = zval(m[d])
            else:
                fi = m[d]
                for k in range(fi.num_entries()):
                    e = fi.entry(k)
                    out["%s(%s)" % (d.name(), ",".join(zval(e.arg_value(i)) for i in range(e.num_args())))] = zval(e.value())
                out[d.name() + "(else)"] = zval(fi.else_value())
    except Exception:
        pass
    return out


def zval(v):
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_rational_value(v) and not z3.is_int_value(v):
        return repr(v.numerator_as_long() / v.denominator_as_long())
    return str(v)[:200]


def _child(prog, unit, tier, conn, seed):
    try:
        os.setpgrp()
        res = {"unit": unit.name, "status": "ok", "obls": [], "reason": ""}
        T.reset() if hasattr(T, "reset") else None
        c = Ctx(prog, unit, tier)
        t0 = time.time()
        try:
            unit.fn(c)
        except ToolLimit as e:
            res["status"], res["reason"] = "undecided", "tool limit: %s" % str(e)[:400]
        except FrontendError as e:
            res["status"], res["reason"] = "undecided", "front end: %s" % str(e)[:400]
        except RecursionError as e:
            res["status"], res["reason"] = "undecided", "tool limit: recursion"
        except z3.Z3Exception as e:
            res["status"], res["reason"] = "undecided", "tool limit: z3 %s" % str(e)[:300]
        except Exception as e:
            res["status"] = "undecided"
            res["reason"] = "tool limit: internal %s: %s\n%s" % (type(e).__name__, str(e)[:300], traceback.format_exc(limit=-4))
        res["t_exec"] = time.time() - t0
        res["inlined"] = sorted({q for ex in c.execs for q in ex.inlined})
        res["contracts"] = sorted({q for ex in c.execs for q in ex.used_contracts})
        res["models"] = sorted({q for ex in c.execs for q in ex.models_used})
        res["notes"] = sorted({str(q) for ex in c.execs for q in ex.notes})
        res["loops"] = sum(ex.loops_summarized for ex in c.execs)
        res["havoced"] = sum(ex.loops_havoced for ex in c.execs)
        res["ndecide"] = sum(ex.ndecide for ex in c.execs)
        res["t_decide"] = sum(ex.t_decide for ex in c.execs)
        # vacuity guards
        res["covers"] = []
        for nm, hy in c.covers:
            s = z3.Solver()
            s.set("timeout", 3000)
            for h in hy:
                s.add(h)
            r = str(s.check())
            if r == "unknown":
                if numeval.satisfiable(hy, seed=seed):
                    r = "sat"
            res["covers"].append((nm, r))
        conn.send(dict(res, partial=True))
        exact = res["havoced"] == 0
        for ex in c.execs:
            for o in ex.obls:
                b = getattr(o, "budgets", None) or unit.budgets
                discharge(o, *b)
                d = {"name": o.name, "kind": o.kind, "where": o.where, "status": o.status, "backend": o.backend,
                     "t": round(o.t, 3), "detail": o.detail, "confirmed": False, "env": None, "exact": exact}
                if o.status != "proved":
                    ok, env = (False, None)
                    if getattr(o, "bv", False):
                        ok = o.model is not None and z3.is_false(o.model.eval(o.goal, model_completion=True)) and \
                            all(z3.is_true(o.model.eval(h, model_completion=True)) for h in o.hyps)
                        d["confirmed"] = bool(ok)
                        d["status"] = "refuted" if ok else d["status"]
                        d["env"] = modelenv(o.model) if ok else None
                        res["obls"].append(d)
                        conn.send(dict(res, partial=True))
                        continue
                    if o.model is not None:
                        ok, env = numeval.confirm(o.hyps, o.goal, o.model)
                    if not ok:
                        ok, env = numeval.search(o.hyps, o.goal, seed=seed, budget=6.0)
                    d["confirmed"] = bool(ok)
                    if ok:
                        d["status"] = "refuted"
                        d["env"] = envtext(env)
                    elif o.model is not None:
                        d["model"] = str(o.model)[:3000]
                        d["menv"] = modelenv(o.model)
                res["obls"].append(d)
                conn.send(dict(res, partial=True))
        conn.send(dict(res, partial=False))
    except BaseException as e:
        try:
            conn.send({"unit": unit.name, "status": "undecided", "reason": "internal %s: %s" % (type(e).__name__, str(e)[:300]),
                       "obls": [], "partial": False})
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def run_units(units, tier, seed, jobs=8, verbose=False):
    """units: [(prog or exception, Unit)] -> list of results"""
    ctx = mp.get_context("fork")
    pend = list(enumerate(units))
    run = {}
    out = {}
    while pend or run:
        while pend and len(run) < jobs:
            i, (prog, u) = pend.pop(0)
            if isinstance(prog, Exception):
                out[i] = {"unit": u.name, "status": "undecided", "reason": "front end: %s" % str(prog)[:600], "obls": []}
                continue
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(prog, u, tier, b, seed))
            p.start()
            b.close()
            run[i] = [p, a, u, time.time(), None]
        time.sleep(0.02)
        for i in list(run):
            p, a, u, t0, last = run[i]
            done = False
            try:
                while a.poll(0):
                    m = a.recv()
                    run[i][4] = last = m
                    if not m.get("partial"):
                        done = True
            except EOFError:
                done = True
            tmo = u.tmo * (3 if tier == "thorough" else 1)
            if not done and time.time() - t0 > tmo:
                try:
                    os.kill(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                done = True
                last = dict(last or {"unit": u.name, "obls": []})
                last["status"] = "undecided"
                last["reason"] = (last.get("reason", "") + " deadline of %ds reached" % tmo).strip()
            if done:
                p.join(5)
                r = dict(last or {"unit": u.name, "obls": [], "status": "undecided", "reason": "died"})
                if r.get("partial") and r["status"] == "ok":
                    r["status"], r["reason"] = "undecided", "unit process died"
                r["wall"] = round(time.time() - t0, 2)
                out[i] = r
                a.close()
                del run[i]
                if verbose:
                    summarize(r)
    return [out[i] for i in sorted(out)]


def summarize(r):
    n = len(r["obls"])
    ok = sum(o["status"] == "proved" for o in r["obls"])
    print("  [%s] %s: %d/%d obligations, %.1fs %s" % (r["unit"], r["status"], ok, n, r.get("wall", 0), r.get("reason", "")[:1500]))
    for o in r["obls"]:
        if o["status"] != "proved":
            print("     - %s: %s confirmed=%s %s" % (o["name"], o["status"], o["confirmed"], o["detail"]))
            if o.get("env"):
                print("        ", str(o["env"])[:600])
    for nm, c in r.get("covers", []):
        if c != "sat":
            print("     cover %s: %s" % (nm, c))
    if r.get("notes") or r.get("havoced"):
        print("     notes", str(r.get("notes"))[:300], "havoced", r.get("havoced"))
    sys.stdout.flush()
