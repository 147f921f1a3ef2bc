"""Which branches can be taken: sample inputs first, then the solver (short)."""
import random
import clock
import terms as t
import solve
import ufint


def nowide(q):
    """wide products and quotients arbitrary"""
    sub = {}
    for x in t.topo(q):
        if x.op in ("mul", "udiv", "urem", "sdiv", "srem") and x.w >= 24 and not any(t.isc(a) and x.op == "mul" for a in x.args):
            sub[x.id] = t.var("wide!%d" % x.id, x.w)
    return solve.subst(q, sub) if sub else q


class Oracle(object):
    def __init__(self, n=150, budget=2.5, seed=7):
        self.rng = random.Random(seed)
        self.samples = [({}, {}) for _ in range(n)]   # (variable values, memo)
        self.style = [self.rng.randrange(5) for _ in range(n)]
        self.extra = []
        self.assumes = []
        self.budget = budget
        self.calls = 0
        self.spent = 0.0
        self.memo = {}

    def varval(self, env, x, k):
        v = env.get(x.val)
        if v is None:
            r = self.rng
            w = x.w
            s = r.randrange(6)
            v = r.getrandbits(w)
            if s == 1:
                b = r.randrange(1, w + 1)
                v = (v & ((1 << b) - 1)) - (1 << (b - 1))
            elif s == 2:
                v = r.randrange(-4, 5)
            elif s == 3:
                v = v << r.randrange(w)
            elif s == 4 and w > 6:
                v = r.getrandbits(7) - 64
            env[x.val] = v = v & t.ones(w)
        return v

    def ev(self, root, k):
        env, memo = self.samples[k]
        r = memo.get(root.id)
        if r is not None:
            return r
        st = [root]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            todo = [a for a in x.args if a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            if x.op == "var":
                memo[x.id] = self.varval(env, x, k)
            elif x.op == "uf":
                memo[x.id] = ufint.value(x.val, [memo[a.id] for a in x.args], x.w)
            else:
                memo[x.id] = t.eval1(x, [memo[a.id] for a in x.args], env)
        return memo[root.id]

    def assume(self, c):
        self.assumes.append(c)
        self.memo = {}
        good = [s for k, s in enumerate(self.samples) if self.ev(c, k) == 1]
        if not good:
            t0 = clock.now()
            r, m, b = solve.check(self.assumes, 1.0)
            self.spent += clock.now() - t0
            if r == "sat":
                good = [(dict(m), {})]
        self.samples = good

    def possible(self, conj, c):
        """can all of conj and c hold?"""
        for k in range(len(self.samples)):
            if self.ev(c, k) == 1 and all(self.ev(x, k) == 1 for x in conj):
                return True
        key = (tuple(x.id for x in conj), c.id)
        if key in self.memo:
            return self.memo[key]
        if self.spent > self.budget:
            return True
        q = self.assumes + list(conj) + [c]
        if len(t.topo(q)) > 1500:
            return True
        t0 = clock.now()
        if self.cut(conj, c):
            self.spent += clock.now() - t0
            self.memo[key] = False
            return False
        q = nowide(q)
        if any(t.isc(x) and x.val == 0 for x in q):
            self.memo[key] = False
            return False
        r, m, b = solve.check(q, 0.1)
        if any(x.op == "var" and x.val.startswith("wide!") for x in t.topo(q)):
            m = None
        self.spent += clock.now() - t0
        self.calls += 1
        if r == "sat" and m is not None and not any(n.startswith("uf!") for n in m):
            self.samples.append((dict(m), {}))
            if len(self.samples) > 200:
                self.samples.pop(0)
        ok = r != "unsat"
        self.memo[key] = ok
        return ok

    def cut(self, conj, c):
        """impossible already with the compared quantities arbitrary?"""
        sub = {}
        for x in conj:
            while x.op == "xor" and t.isc(x.args[1]):
                x = x.args[0]
            if x.op in ("slt", "ult", "eq"):
                for a in x.args:
                    if a.op in ("add", "sub", "mul", "ite") and a.id not in sub:
                        sub[a.id] = t.var("cut!%d" % a.id, a.w)
        if not sub:
            return False
        q = solve.subst(list(conj) + [c], sub)
        if any(t.isc(x) and x.val == 0 for x in q):
            return True
        if len(t.topo(q)) > 300:
            return False
        return solve.check(q, 0.1)[0] == "unsat"
