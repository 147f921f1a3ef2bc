"""Proving internal equalities first.  Terms that agree on sample inputs are
candidate equalities; each is proved by the solver (under the assumptions) and
merged, so that two different ways to compute the same quantity become one
before the real goal is tried.  Sound: only proved equalities are used."""
import random
import clock
import terms as t
import solve
import ufint


def fill(env, apps):
    """values of the variables that stand for uninterpreted applications"""
    for v, name, args in apps:
        env[v.val] = ufint.value(name, evalall(args, env, only=True), v.w)
    return env


def samples(cons, names, n, rng, budget=2.0, apps=()):
    """assignments that satisfy cons"""
    out = []
    t0 = clock.now()
    tries = 0
    roots = list(cons)
    while len(out) < n and clock.now() - t0 < budget and tries < 40 * n:
        tries += 1
        env = {}
        base = rng.getrandbits(64)
        for nm, w in names.items():
            k = rng.randrange(6)
            v = rng.getrandbits(w)
            if k == 1:
                b = rng.randrange(1, w + 1)
                v = v & ((1 << b) - 1)
                if v >> (b - 1):
                    v -= 1 << b
            elif k == 2:
                v = rng.randrange(-4, 5)
            elif k == 3:
                v = base + rng.randrange(-2, 3)
            elif k == 4:
                v = (v << rng.randrange(w)) | (rng.getrandbits(1) << (w - 1))
            elif k == 5 and w > 6:
                b = rng.randrange(1, min(w, 9))
                v = rng.getrandbits(b) - (1 << (b - 1))
            env[nm] = v & t.ones(w)
        if apps:
            fill(env, apps)
        if all(x == 1 for x in evalall(roots, env, only=True)):
            out.append(env)
    return out


def evalall(roots, env, only=False):
    memo = {}
    order = t.topo(roots)
    for x in order:
        memo[x.id] = t.eval1(x, [memo[a.id] for a in x.args], env)
    return [memo[r.id] for r in roots] if only else (order, memo)


def sweep(assumes, goal, seconds, rng=None, qtime=1.0, apps=()):
    """returns (assumes', goal', merged) with proved equalities merged; goal is a
    list of terms.  Uninterpreted functions must have been removed."""
    rng = rng or random.Random(1)
    t0 = clock.now()
    roots = list(assumes) + list(goal)
    names = {x.val: x.w for x in t.topo(roots) if x.op == "var"}
    envs = samples(assumes, names, 24, rng, 2.0, apps)
    while len(envs) < 6 and clock.now() - t0 < seconds / 3:
        extra = []
        if names:
            nm = rng.choice(sorted(names))
            w = names[nm]
            extra = [t.eq(t.extract(t.var(nm, w), 0, 0), t.const(rng.getrandbits(1), 1))]
        r, m, _ = solve.check(list(assumes) + extra, 2)
        if r == "sat":
            envs.append({k: m.get(k, 0) for k in names})
        elif not extra:
            break
        else:
            r, m, _ = solve.check(list(assumes), 2)
            if r == "sat":
                envs.append({k: m.get(k, 0) for k in names})
            else:
                break
    if not envs:
        return assumes, goal, 0
    order = t.topo(roots)
    sig = {}
    for e in envs:
        _, memo = evalall(roots, e)
        for x in order:
            sig.setdefault(x.id, []).append(memo[x.id])
    reps = {}
    sub = {}
    merged = 0
    fails = 0
    for x in order:
        if x.op in ("const", "var"):
            if x.op == "var":
                reps.setdefault((x.w, tuple(sig[x.id])), []).append((x, x))
            continue
        if x.args and any(a.id in sub for a in x.args):
            y = solve.rebuild(x, tuple(sub.get(a.id, a) for a in x.args))
        else:
            y = x
        if clock.now() - t0 > seconds:
            if y is not x:
                sub[x.id] = y
            continue
        done = False
        if not t.isc(y):
            vals = sig[x.id]
            tried = 0
            if all(v == vals[0] for v in vals):
                c = t.const(vals[0], x.w)
                r, m, _ = solve.check(list(assumes) + [t.bnot(t.eq(y, c))], qtime)
                if r == "unsat":
                    y = c
                    merged += 1
                    done = True
                elif r == "sat":
                    addvec(roots, order, sig, reps, m, names)
                tried += 1
            if not done:
                for ox, oy in list(reps.get((x.w, tuple(sig[x.id])), ()))[:3]:
                    if oy is y or tuple(sig[ox.id]) != tuple(sig[x.id]):
                        continue
                    tried += 1
                    if tried > 3:
                        break
                    r, m, _ = solve.check(list(assumes) + [t.bnot(t.eq(oy, y))], qtime)
                    if r == "unsat":
                        y = oy
                        merged += 1
                        done = True
                        break
                    if r == "sat":
                        addvec(roots, order, sig, reps, m, names)
            if not done:
                reps.setdefault((x.w, tuple(sig[x.id])), []).append((x, y))
        if y is not x:
            sub[x.id] = y
    g = [sub.get(r.id, r) for r in goal]
    return assumes, g, merged


def addvec(roots, order, sig, reps, m, names):
    """a counterexample separates more classes"""
    if len(next(iter(sig.values()))) > 60:
        return
    env = {k: (m or {}).get(k, 0) for k in names}
    _, memo = evalall(roots, env)
    for x in order:
        sig[x.id].append(memo[x.id])
    old = [p for l in reps.values() for p in l]
    reps.clear()
    for x, y in old:
        reps.setdefault((x.w, tuple(sig[x.id])), []).append((x, y))
