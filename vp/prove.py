"""Discharging one obligation: verification conditions from the IR, then a chain
of back ends (own simplifier, z3, proved internal equalities, SAT)."""
import time
import clock
import terms as t
import solve
import sweep as sw
import symex
import feas
from llir import Unsupported

WIDE = 24


def absmul(roots):
    """wide products and quotients as uninterpreted functions (sound for unsat)"""
    sub = {}
    n = 0
    for x in t.topo(roots):
        y = x
        if x.args and any(a.id in sub for a in x.args):
            y = solve.rebuild(x, tuple(sub.get(a.id, a) for a in x.args))
        if y.op in ("mul", "udiv", "urem", "sdiv", "srem") and y.w >= WIDE and not any(t.isc(a) for a in y.args):
            args = y.args
            if y.op == "mul":
                args = tuple(sorted(args, key=lambda a: a.id))
            # operands are often zero extended: keep the congruence on the narrow part
            y = t.uf("$%s%d" % (y.op, y.w), y.w, args)
            n += 1
        if y is not x:
            sub[x.id] = y
    return [sub.get(r.id, r) for r in roots], n


def good(m, cons):
    """does the model really satisfy the constraints (no uninterpreted parts)?"""
    try:
        return all(t.evaluate(c, m) == 1 for c in cons)
    except Exception:
        return False


def flat(apps):
    """applications in the order in which they can be evaluated"""
    l = [(v, name, list(args)) for name, vs in apps.items() for args, v in vs]
    byname = {v.val: (v, name, args) for v, name, args in l}
    out, done = [], set()

    def visit(k):
        if k in done:
            return
        done.add(k)
        for x in t.topo(byname[k][2]):
            if x.op == "var" and x.val in byname:
                visit(x.val)
        out.append(byname[k])
    for k in byname:
        visit(k)
    return out


def one(cons, deadline, stats):
    """satisfiability of a conjunction"""
    def left():
        return deadline - clock.now()
    if any(t.isc(c) and c.val == 0 for c in cons):
        return "unsat", None, "simplifier"
    hard = any(x.op in ("mul", "udiv", "urem", "sdiv", "srem") and x.w >= WIDE for x in t.topo(cons))
    if hard:
        a, n = absmul(cons)
        if n:
            r, m, b = solve.check(a, max(0.1, min(12.0, left())))
            if r == "unsat":
                return r, None, "z3 (products uninterpreted)"
    r, m, b = solve.check(cons, max(0.1, min(0.7 if hard else 3.0, left())))
    if r != "unknown":
        return r, m, b
    if left() < 0.2:
        return "unknown", None, "timeout"
    # internal equalities
    base, extra, apps = solve.ackermann(absmul(cons)[0] if hard else cons)
    hyp = list(base[:-1]) + extra
    _, g, merged = sw.sweep(hyp, [base[-1]], min(15.0, left()), apps=flat(apps))
    stats["merged"] = stats.get("merged", 0) + merged
    sc = hyp + g
    if any(t.isc(c) and c.val == 0 for c in sc):
        return "unsat", None, "sweep"
    if merged and left() > 0.2:
        r, m, b = solve.check(sc, max(0.1, min(3.0, left())))
        if r == "unsat":
            return "unsat", None, "sweep+" + b
        if r == "sat" and not hard and not apps:
            return r, m, "sweep+" + b
    if left() < 1:
        return "unknown", None, "timeout"
    if hard:
        r, m, b = solve.check(sc, 0.1, max(1, min(10.0, left() / 2)))
        if r == "unsat":
            return "unsat", None, "sweep+" + b
    if left() < 1:
        return "unknown", None, "timeout"
    r, m, b = solve.check(cons if hard or apps else sc, 0.1, max(1, left()))
    return r, m, b


def splitvar(x):
    while x.op in ("sext", "zext"):
        x = x.args[0]
    return x if x.op == "var" else None


def decide(cons, splits, deadline, stats):
    if any(t.isc(c) and c.val == 0 for c in cons):
        return "unsat", None, "simplifier"
    r = "unknown"
    if not splits:
        return one(cons, deadline, stats)
    x, lo, hi = splits[0]
    v = splitvar(x)
    if v is None:
        return decide(cons, splits[1:], deadline, stats)
    backs = set()
    for c in range(lo, hi + 1):
        k = t.const(c & t.ones(v.w), v.w)
        ds = solve.subst(cons, {v.id: k})
        r, m, b = decide(ds, splits[1:], deadline, stats)
        if r != "unsat":
            if m is not None:
                m = dict(m)
                m[v.val] = k.val
            return r, m, b
        backs.add(b)
    lo_, hi_ = t.const(lo & t.ones(x.w), x.w), t.const(hi & t.ones(x.w), x.w)
    for rest in (t.slt(x, lo_), t.slt(hi_, x)):
        r, m, b = decide([rest] + list(cons), splits[1:], deadline, stats)
        if r != "unsat":
            return r, m, b
        backs.add(b)
    return "unsat", None, "split:" + "/".join(sorted(backs))


def obligation(module, name, redirect, seconds, loophook=None, stopat=None):
    """returns dict: status proved|refuted|open|unsupported, asserts: [...], used"""
    t0 = clock.now()
    deadline = t0 + seconds
    if stopat:
        deadline = min(deadline, t0 + max(0, stopat - time.time()))
    t.reset()
    res = {"name": name, "asserts": [], "used": [], "entered": [], "status": "open", "time": 0}
    stats = {}
    try:
        ex = symex.Exec(module, redirect, lambda g, a: solve.check([g] + list(a), 2)[0] != "unsat", loophook=loophook,
                        oracle=feas.Oracle())
        args = ex.run_obligation(name)
    except (Unsupported, NotImplementedError, KeyError, RecursionError, ValueError, AttributeError, TypeError,
            IndexError) as e:
        res["status"] = "unsupported"
        res["why"] = "%s: %s" % (type(e).__name__, e)
        res["time"] = clock.now() - t0
        return res
    res["used"] = sorted(ex.used)
    res["entered"] = sorted(ex.entered)
    res["tables"] = sorted(ex.tables)
    res["fpops"] = sorted(ex.fpops)
    res["cutloops"] = ex.cutloops
    res["exec"] = clock.now() - t0
    res["ubvars"] = 0
    worst = "proved"
    rank = {"proved": 0, "open": 1, "refuted": 2}
    for n, g, c, label, kind in ex.asserts:
        ts = clock.now()
        cons = list(ex.assumes[:n]) + [g, t.bnot(c)]
        r, m, b = decide(cons, ex.splits, deadline, stats)
        st = {"unsat": "proved", "sat": "refuted", "unknown": "open"}[r]
        d = {"label": label, "kind": kind, "status": st, "backend": b, "time": round(clock.now() - ts, 3)}
        if m is not None and st == "refuted":
            d["args"] = [m.get("arg%d" % i, 0) for i in range(len(args))]
            d["ub"] = any(k.startswith("ub!") or k.startswith("undef!") for k in m)
        if rank[st] > rank[worst]:
            worst = st
        res["asserts"].append(d)
        if st != "proved" and clock.now() > deadline:
            pass
    # vacuity: the assumptions can hold, and so can the cover points
    if worst == "proved":
        orc = ex.oracle
        r = "sat"
        # a sample that meets every assumption is a witness
        if not any(all(orc.ev(c, k) == 1 for c in ex.assumes) for k in range(len(orc.samples))):
            r, m, b = solve.check(list(ex.assumes), max(1.0, min(5.0, deadline - clock.now())), 10)
        res["vacuous"] = r == "unsat"
        if r == "unsat":
            worst = "open"
            res["why"] = "assumptions contradict each other"
        for n, c, label in ex.covers:
            if any(orc.ev(c, k) == 1 and all(orc.ev(x, k) == 1 for x in ex.assumes[:n]) for k in range(len(orc.samples))):
                continue
            r, m, b = solve.check(list(ex.assumes[:n]) + [c], 5.0, 10)
            if r == "unsat":
                worst = "open"
                res["why"] = "cover point not reachable: " + label
    res["status"] = worst
    res["time"] = round(clock.now() - t0, 3)
    res["merged"] = stats.get("merged", 0)
    return res
