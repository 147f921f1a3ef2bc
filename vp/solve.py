"""Deciding a verification condition: own terms -> z3 (bit-vector), with a SAT
solver on the exported CNF as the second back end."""
import os
import subprocess
import tempfile
import clock
import terms as t
import z3

KISSAT = "/usr/local/bin/kissat"


class Z(object):
    def __init__(self, ctx=None):
        self.bv = {}
        self.bo = {}
        self.vars = {}

    def build(self, roots):
        for x in t.topo(roots):
            if x.w == 1:
                self._bool(x)
            else:
                self._bv(x)

    def asbv(self, x):
        r = self.bv.get(x.id)
        if r is None:
            b = self.bo[x.id]
            r = z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            self.bv[x.id] = r
        return r

    def asbool(self, x):
        r = self.bo.get(x.id)
        if r is None:
            r = self.bv[x.id] == 1
            self.bo[x.id] = r
        return r

    def _bool(self, x):
        if x.id in self.bo or x.id in self.bv:
            return
        o, a = x.op, x.args
        if o == "const":
            r = z3.BoolVal(bool(x.val))
        elif o == "var":
            r = z3.Bool(x.val)
            self.vars[x.val] = (r, 1)
        elif o == "and":
            r = z3.And(self.asbool(a[0]), self.asbool(a[1]))
        elif o == "or":
            r = z3.Or(self.asbool(a[0]), self.asbool(a[1]))
        elif o == "xor":
            if t.isc(a[1]):
                r = z3.Not(self.asbool(a[0]))
            else:
                r = z3.Xor(self.asbool(a[0]), self.asbool(a[1]))
        elif o == "ite":
            r = z3.If(self.asbool(a[0]), self.asbool(a[1]), self.asbool(a[2]))
        elif o == "eq":
            r = (self.asbool(a[0]) == self.asbool(a[1])) if a[0].w == 1 else (self.asbv(a[0]) == self.asbv(a[1]))
        elif o == "ult":
            r = z3.ULT(self.asbv(a[0]), self.asbv(a[1]))
        elif o == "slt":
            r = self.asbv(a[0]) < self.asbv(a[1])
        else:
            self._bv(x)
            return
        self.bo[x.id] = r

    def _bv(self, x):
        if x.id in self.bv:
            return
        o, w = x.op, x.w
        if o == "const":
            r = z3.BitVecVal(x.val, w)
        elif o == "var":
            r = z3.BitVec(x.val, w)
            self.vars[x.val] = (r, w)
        else:
            if o == "ite":
                r = z3.If(self.asbool(x.args[0]), self.asbv(x.args[1]), self.asbv(x.args[2]))
                self.bv[x.id] = r
                return
            a = [self.asbv(y) for y in x.args]
            if o == "and": r = a[0] & a[1]
            elif o == "or": r = a[0] | a[1]
            elif o == "xor": r = ~a[0] if t.isc(x.args[1]) and x.args[1].val == t.ones(w) else a[0] ^ a[1]
            elif o == "add": r = a[0] + a[1]
            elif o == "sub": r = a[0] - a[1]
            elif o == "neg": r = -a[0]
            elif o == "mul": r = a[0] * a[1]
            elif o == "udiv": r = z3.UDiv(a[0], a[1])
            elif o == "urem": r = z3.URem(a[0], a[1])
            elif o == "sdiv": r = a[0] / a[1]
            elif o == "srem": r = z3.SRem(a[0], a[1])
            elif o == "shl": r = a[0] << a[1]
            elif o == "lshr": r = z3.LShR(a[0], a[1])
            elif o == "ashr": r = a[0] >> a[1]
            elif o == "concat": r = z3.Concat(a[0], a[1])
            elif o == "extract": r = z3.Extract(x.val[0], x.val[1], a[0])
            elif o == "zext": r = z3.ZeroExt(w - x.args[0].w, a[0])
            elif o == "sext": r = z3.SignExt(w - x.args[0].w, a[0])
            elif o == "ctlz": r = self.clz(a[0], w)
            else:
                raise ValueError("z3: " + o)
        self.bv[x.id] = r

    def clz(self, a, w):
        """leading zeros by binary search; w for zero"""
        n = 1
        while n < w:
            n *= 2
        x = z3.Concat(a, z3.BitVecVal((1 << (n - w)) - 1, n - w)) if n > w else a
        bits = []
        k = n
        while k > 1:
            h = k // 2
            top = z3.Extract(k - 1, h, x)
            z = top == 0
            bits.append(z)
            x = z3.If(z, z3.Extract(h - 1, 0, x), top)
            k = h
        r = z3.BitVecVal(0, w)
        acc = None
        for i, z in enumerate(bits):
            b = z3.If(z, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            acc = b if acc is None else z3.Concat(acc, b)
        nb = len(bits)
        # all-zero input: count is n (only possible when n == w)
        r = z3.ZeroExt(w - nb, acc) if w > nb else acc
        if n == w:
            r = z3.If(a == 0, z3.BitVecVal(w, w), r)
        return r


def ackermann(roots):
    """replace uf applications by variables; returns new roots, constraints, map"""
    apps = {}
    sub = {}
    order = t.topo(roots)
    for x in order:
        if x.args and any(a.id in sub for a in x.args):
            na = tuple(sub.get(a.id, a) for a in x.args)
            y = rebuild(x, na)
        else:
            y = x
        if x.op == "uf":
            key = y.val
            for (args, v) in apps.setdefault(key, []):
                if args == y.args:
                    sub[x.id] = v
                    break
            else:
                v = t.var("uf!%s!%d" % (y.val, len(apps[key])), y.w)
                apps[key].append((y.args, v))
                sub[x.id] = v
        elif y is not x:
            sub[x.id] = y
    cons = []
    for key, l in apps.items():
        for i in range(len(l)):
            for j in range(i):
                e = t.true()
                for p, q in zip(l[i][0], l[j][0]):
                    e = t.band(e, t.eq(p, q))
                cons.append(t.implies(e, t.eq(l[i][1], l[j][1])))
    return [sub.get(r.id, r) for r in roots], cons, apps


def rebuild(x, a):
    o = x.op
    f = {"and": t.band, "or": t.bor, "xor": t.bxor, "add": t.add, "sub": t.sub, "neg": t.neg, "mul": t.mul,
         "udiv": t.udiv, "urem": t.urem, "sdiv": t.sdiv, "srem": t.srem, "shl": t.shl, "lshr": t.lshr,
         "ashr": t.ashr, "concat": t.concat, "eq": t.eq, "ult": t.ult, "slt": t.slt, "ite": t.ite,
         "ctlz": t.ctlz}.get(o)
    if f:
        return f(*a)
    if o == "extract":
        return t.extract(a[0], x.val[0], x.val[1])
    if o == "zext":
        return t.zext(a[0], x.w)
    if o == "sext":
        return t.sext(a[0], x.w)
    if o == "uf":
        return t.uf(x.val, x.w, a)
    raise ValueError(o)


def subst(roots, mp):
    """substitute terms by id"""
    sub = dict(mp)
    for x in t.topo(roots):
        if x.id in sub:
            continue
        if x.args and any(a.id in sub for a in x.args):
            y = rebuild(x, tuple(sub.get(a.id, a) for a in x.args))
            if y is not x:
                sub[x.id] = y
    return [sub.get(r.id, r) for r in roots]


def blast():
    return z3.Then("simplify", "propagate-values", "solve-eqs", "simplify", "bit-blast", "sat").solver()


def check(constraints, timeout=20.0, cnf_timeout=0, stats=None):
    """satisfiability of a conjunction of width-1 terms.
    Returns ('unsat', None, backend) / ('sat', model dict, backend) / ('unknown', None, why)"""
    cons = []
    for c in constraints:
        if t.isc(c):
            if c.val == 0:
                return "unsat", None, "simplifier"
            continue
        cons.append(c)
    if not cons:
        return "sat", {}, "simplifier"
    cons, extra, apps = ackermann(cons)
    cons = list(cons) + extra
    if any(t.isc(c) and c.val == 0 for c in cons):
        return "unsat", None, "simplifier"
    z = Z()
    z.build(cons)
    g = [z.asbool(c) for c in cons]
    t0 = clock.now()
    # the default solver is quick on easy ones, then bits and SAT, then the tactic for bit vectors
    for mk, part in ((z3.SimpleSolver, 0.25), (blast, 0.5), (lambda: z3.SolverFor("QF_BV"), 1.0)):
        left = timeout - (clock.now() - t0)
        if left <= 0:
            break
        s = mk()
        s.set("timeout", max(20, int(clock.wall(min(left, timeout * part)) * 1000)))
        s.add(*g)
        r = s.check()
        if r == z3.unsat:
            return "unsat", None, "z3"
        if r == z3.sat:
            return "sat", model(z, s.model(), apps), "z3"
        if timeout < 0.2:
            break
    if cnf_timeout > 0:
        r, m = kissat(g, cnf_timeout, z)
        if r == "unsat":
            return "unsat", None, "kissat"
        if r == "sat":
            return "sat", m, "kissat"
    return "unknown", None, "timeout"


def model(z, m, apps):
    d = {}
    for n, (v, w) in z.vars.items():
        x = m.eval(v, model_completion=True)
        if w == 1 and z3.is_bool(x):
            d[n] = int(z3.is_true(x))
        else:
            try:
                d[n] = x.as_long()
            except Exception:
                d[n] = int(z3.is_true(x))
    return d


def cnf(g, tactics):
    """CNF of the conjunction; None when trivially inconsistent"""
    goal = z3.Goal()
    goal.add(*g)
    sub = z3.Then(*tactics)(goal)
    if len(sub) != 1:
        raise z3.Z3Exception("subgoals")
    gg = sub[0]
    if gg.inconsistent():
        return None, None
    names = {}
    lines = []

    def lit(e):
        if z3.is_not(e):
            return -lit(e.arg(0))
        k = e.get_id()
        v = names.get(k)
        if v is None:
            v = (len(names) + 1, e)
            names[k] = v
        return v[0]
    for i in range(gg.size()):
        e = gg[i]
        if z3.is_or(e):
            lines.append(" ".join(str(lit(c)) for c in e.children()) + " 0")
        elif z3.is_true(e):
            continue
        elif z3.is_false(e):
            return None, None
        else:
            lines.append("%d 0" % lit(e))
    return lines, names


def sat(lines, nv, timeout):
    fd, fn = tempfile.mkstemp(suffix=".cnf", prefix="vpcnf")
    with os.fdopen(fd, "w") as f:
        f.write("p cnf %d %d\n" % (nv, len(lines)))
        f.write("\n".join(lines) + "\n")
    try:
        p = subprocess.run([KISSAT, "-q", "--time=%d" % max(1, int(clock.wall(timeout))), fn], capture_output=True, text=True)
    finally:
        os.unlink(fn)
    if p.returncode == 20:
        return "unsat", None
    if p.returncode == 10:
        val = {}
        for l in p.stdout.split("\n"):
            if l.startswith("v"):
                for x in l.split()[1:]:
                    x = int(x)
                    val[abs(x)] = x > 0
        return "sat", val
    return "unknown", None


def kissat(g, timeout, z=None):
    try:
        lines, names = cnf(g, ["simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "bit-blast",
                               "tseitin-cnf"])
    except z3.Z3Exception:
        return "unknown", None
    if lines is None:
        return "unsat", None
    r, v = sat(lines, len(names), timeout) if lines else ("sat", {})
    if r != "sat" or z is None:
        return r, None
    # again, with every bit of the inputs kept, for the model
    extra = []
    bits = {}
    for n, (x, w) in z.vars.items():
        for i in range(w):
            b = z3.Bool("bit!%s!%d" % (n, i))
            bits[b.get_id()] = (n, i)
            extra.append(b == (x if z3.is_bool(x) else z3.Extract(i, i, x) == 1))
    try:
        lines, names = cnf(list(g) + extra, ["simplify", "bit-blast", "tseitin-cnf"])
    except z3.Z3Exception:
        return "unknown", None
    if lines is None:
        return "unknown", None
    r, v = sat(lines, len(names), timeout)
    if r != "sat":
        return "unknown", None
    d = {n: 0 for n in z.vars}
    for k, (num, e) in names.items():
        if k in bits and v.get(num):
            n, i = bits[k]
            d[n] |= 1 << i
    return "sat", d
