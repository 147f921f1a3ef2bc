"""Loops with a symbolic number of iterations, cut with an invariant.

The specification gives the meaning of an accumulator after k steps (loop_set, loop_is), the unfolding of that meaning
(loop_step) and the range of k (loop_in).  Every other variable the loop changes either advances by a constant per
iteration or is forgotten.  The invariant is asserted on entry and after an arbitrary iteration; being bounded by
loop_in the number of iterations is finite."""
import solve
import symex
import terms as t
from llir import Unsupported

TRUE = t.true


class Give(Exception):
    pass


def objptr(o):
    return symex.Ptr([(t.true(), o, t.const(0, 64))])


def callbool(ex, name, args, st):
    v, ns = ex.call(ex.m.func(name), args, st)
    if ns is None:
        raise Give("no result of " + name)
    st.mem = ns.mem
    return v if v.w == 1 else t.bnot(t.eq(v, t.const(0, v.w)))


def callvoid(ex, name, args, st):
    v, ns = ex.call(ex.m.func(name), args, st)
    if ns is None:
        raise Give("no result of " + name)
    st.mem = ns.mem


def assume(ex, c, st):
    c = t.implies(st.guard(), c)
    ex.assumes.append(c)
    if ex.oracle is not None and not t.isc(c):
        ex.oracle.assume(c)


def differ(a, b):
    """byte positions at which two cell lists differ"""
    r = set()
    for i, (x, y) in enumerate(zip(a, b)):
        if x is y:
            continue
        if x is not None and y is not None and x[0] is y[0] and x[1] == y[1]:
            continue
        r.add(i)
    return r


def groups(cells, pos):
    """maximal aligned stored values covering the positions: [(offset, width in bytes)]"""
    out = []
    i = 0
    pos = sorted(pos)
    done = set()
    for p in pos:
        if p in done:
            continue
        c = cells[p]
        if c is None or isinstance(c[0], symex.Ptr):
            out.append((p, 1))
            done.add(p)
            continue
        n = c[0].w // 8
        s = p - c[1]
        if s >= 0 and s + n <= len(cells) and all(cells[s + k] is not None and cells[s + k][0] is c[0] and
                                                  cells[s + k][1] == k for k in range(n)):
            out.append((s, n))
            done.update(range(s, s + n))
        else:
            out.append((p, 1))
            done.add(p)
    return out


def hook(ex, f, h, order, st):
    if "loop_set" not in ex.m.funcs or "_upto" in ex.obname or f.name.startswith("_ZN2vp"):
        return None
    na = len(ex.asserts)
    mark = ex.nobj

    def body(s):
        lp = {"head": h, "back": [], "exits": []}
        rets = []
        ex.region_from(f, order, h, symex.St(s.conj, dict(s.env), dict(s.mem)), lp, rets)
        back = ex.enter(f, h, lp["back"]) if lp["back"] else None
        return lp, rets, back
    lp, rets, back = body(st)
    del ex.asserts[na:]
    if back is None or not (lp["exits"] or rets):
        return None  # decided without an invariant
    phis = [i for i in f.blocks[h] if i.op == "phi"]
    usize = ex.call(ex.m.func("loop_size"), [], symex.St((), {}, {}))[0].val
    j = ex.fresh(64, "iter")

    def times(s, w, k):
        return t.mul(t.const(s & t.ones(w), w), t.extract(k, w - 1, 0) if w < 64 else k)

    def step(a, b):
        d = t.sub(b, a)
        return t.sval(d) if t.isc(d) else None
    one = t.const(1, 64)
    j1 = t.add(j, one)
    # what changes: phis, accumulators, bytes
    lin = {}      # phi -> step
    forget = set()
    for p in phis:
        a, b = st.env[p.res], back.env[p.res]
        if a is b:
            continue
        s = step(a, b) if isinstance(a, t.T) and isinstance(b, t.T) and a.w <= 64 else None
        if s is None:
            if not isinstance(a, t.T):
                raise Unsupported("pointer changed by a loop in " + f.name)
            forget.add(p.res)
        else:
            lin[p.res] = s
    accs = {}     # object -> first k
    mlin = {}     # (object, offset, bytes) -> step
    mforget = {}  # object -> positions

    def consider(base, other):
        """classify bytes that changed from base to other"""
        new = False
        for o, c in base.mem.items():
            d = other.mem.get(o)
            if c is None or d is None or d is c or o > mark or o in accs:
                continue
            ch = differ(c, d) - mforget.get(o, set())
            for (oo, off, n) in mlin:
                if oo == o:
                    ch -= set(range(off, off + n))
            if not ch:
                continue
            new = True
            if len(c) == usize and all(st.mem[o][q] is not None for q in (0, 4)):
                p = objptr(o)
                for k0 in (1, 0):
                    s = symex.St(st.conj, dict(st.env), dict(st.mem))
                    n0 = len(ex.asserts)
                    try:
                        c0 = callbool(ex, "loop_is", [p, t.const(k0, 64)], s)
                    except Give:
                        continue
                    del ex.asserts[n0:]
                    if solve.check([st.guard(), t.bnot(c0)] + list(ex.assumes), 10, 20)[0] == "unsat":
                        accs[o] = k0
                        break
                if o in accs:
                    continue
            for off, n in groups(st.mem[o], ch):
                a = st.mem[o][off]
                if a is not None and not isinstance(a[0], symex.Ptr) and n in (1, 2, 4, 8):
                    x = ex.loadcells(list(st.mem[o]), off, ("i", n * 8))
                    try:
                        y = ex.loadcells(list(back.mem[o]), off, ("i", n * 8))
                        s = step(x, y)
                    except Unsupported:
                        s = None
                    if s is not None:
                        mlin[(o, off, n)] = s
                        continue
                mforget.setdefault(o, set()).update(range(off, off + n))
        return new
    consider(st, back)
    if not accs:
        return None
    k0 = set(accs.values())
    if len(k0) != 1:
        raise Unsupported("accumulators out of step")
    k0 = t.const(k0.pop(), 64)

    for rnd in range(6):
        g = symex.St(st.conj, dict(st.env), dict(st.mem))
        for p in phis:
            if p.res in lin:
                a = st.env[p.res]
                g.env[p.res] = t.add(a, times(lin[p.res], a.w, j))
            elif p.res in forget:
                g.env[p.res] = ex.fresh(st.env[p.res].w, "loop")
        for o, ps in mforget.items():
            cells = list(g.mem[o])
            for q in ps:
                cells[q] = (ex.fresh(8, "loop"), 0)
            g.mem[o] = cells
        for (o, off, n), s in mlin.items():
            cells = list(g.mem[o])
            a = ex.loadcells(cells, off, ("i", n * 8))
            ex.storecells(cells, off, ("i", n * 8), t.add(a, times(s, n * 8, j)))
            g.mem[o] = cells
        n0 = len(ex.asserts)
        k = t.add(k0, j)
        for o in accs:
            callvoid(ex, "loop_set", [objptr(o), k], g)
        assume(ex, callbool(ex, "loop_in", [k], g), g)
        callvoid(ex, "loop_step", [k], g)
        lp, rets, back = body(g)
        if not (back is not None and consider(g, back)):
            break
        del ex.asserts[n0:]
    else:
        raise Unsupported("what a loop in %s changes" % f.name)
    # entry
    e = symex.St(st.conj, dict(st.env), dict(st.mem))
    for o in accs:
        c = callbool(ex, "loop_is", [objptr(o), k0], e)
        ex.asserts.append((len(ex.assumes), st.guard(), c, "accumulator before the loop", "inv"))
    c = callbool(ex, "loop_in", [k0], e)
    ex.asserts.append((len(ex.assumes), st.guard(), c, "number of steps before the loop", "inv"))
    # an arbitrary iteration
    if back is not None:
        b = symex.St(back.conj, dict(back.env), dict(back.mem))
        k1 = t.add(k, one)

        def claim(c, what):
            ex.asserts.append((len(ex.assumes), back.guard(), c, what, "inv"))
        for o in accs:
            claim(callbool(ex, "loop_is", [objptr(o), k1], b), "accumulator after one more step")
        claim(callbool(ex, "loop_in", [k1], b), "number of steps")
        for p in phis:
            if p.res in lin:
                a = st.env[p.res]
                claim(t.eq(back.env[p.res], t.add(a, times(lin[p.res], a.w, j1))), "variable advances by %d" % lin[p.res])
            elif p.res not in forget and back.env[p.res] is not st.env[p.res]:
                claim(t.eq(back.env[p.res], st.env[p.res]), "variable kept")
        for (o, off, n), s in mlin.items():
            a = ex.loadcells(list(st.mem[o]), off, ("i", n * 8))
            x = ex.loadcells(list(back.mem[o]), off, ("i", n * 8))
            claim(t.eq(x, t.add(a, times(s, n * 8, j1))), "variable advances by %d" % s)
    # from here on: the iteration in which the loop is left
    g = t.false()
    for s in [x[2] for x in lp["exits"]] + rets:
        g = t.bor(g, s.guard())
    assume(ex, g, st)
    ex.cutloops += 1
    return lp["exits"], rets
