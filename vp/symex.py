"""Symbolic execution of LLVM IR into verification conditions.

All paths of an obligation function are followed at once: states are merged
where paths join, callees are entered (or replaced by their contract when one
is registered), loops are unrolled while their condition is satisfiable.  The
result is a list of assertions (guard, condition, label) over bit-vector
terms, for all inputs."""
import terms as t
from llir import Unsupported


class Ptr(object):
    """alternatives [(guard, object id, offset term)]; object None is null"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts


class St(object):
    """conj: tuple of guard conjuncts; env: ssa values; mem: object id -> cells"""
    __slots__ = ("conj", "env", "mem")

    def __init__(self, conj, env, mem):
        self.conj = conj
        self.env = env
        self.mem = mem

    def guard(self):
        g = t.true()
        for c in self.conj:
            g = t.band(g, c)
        return g


def tconj(cs):
    g = t.true()
    for c in cs:
        g = t.band(g, c)
    return g


PRED = {"eq": lambda a, b: t.eq(a, b), "ne": lambda a, b: t.bnot(t.eq(a, b)),
        "ult": t.ult, "ule": t.ule, "ugt": lambda a, b: t.ult(b, a), "uge": lambda a, b: t.ule(b, a),
        "slt": t.slt, "sle": t.sle, "sgt": lambda a, b: t.slt(b, a), "sge": lambda a, b: t.sle(b, a)}

FPW = {"float": (32, 8, 23), "double": (64, 11, 52), "half": (16, 5, 10)}


def tw(ty):
    if ty[0] == "i":
        return ty[1]
    if ty in FPW:
        return FPW[ty][0]
    raise Unsupported("width of %r" % (ty,))


class Limit(Exception):
    pass


class Exec(object):
    MAXITER = 140

    def __init__(self, module, redirect=None, feasible=None, uf_funcs=None, loophook=None, oracle=None):
        self.m = module
        self.redirect = redirect or {}
        self.used = set()
        self.entered = set()
        self.feasible = feasible
        self.loophook = loophook
        self.oracle = oracle
        self.asserts = []   # (assumption prefix length, guard, cond, label, kind)
        self.assumes = []
        self.covers = []
        self.nd = 0
        self.factmemo = {}
        self.nondets = []
        self.nobj = 0
        self.objs = {}      # id -> (size, name)
        self.globobj = {}
        self.steps = 0
        self.depth = 0
        self.bounded = []
        self.splits = []
        self.fpops = set()
        self.tables = set()
        self.obname = ""
        self.cutloops = 0

    # ------------------------------------------------------------ fresh
    def fresh(self, w, kind):
        self.nd += 1
        v = t.var("%s!%d" % (kind, self.nd), w)
        if kind == "nd":
            self.nondets.append(v)
        return v

    def undef(self, ty):
        if ty == "ptr":
            return Ptr([(t.true(), None, t.const(0, 64))])
        if ty[0] == "s":
            return [self.undef(x) for x in ty[1]]
        if ty[0] == "a":
            return [self.undef(ty[2]) for _ in range(ty[1])]
        return self.fresh(tw(ty), "undef")

    # ------------------------------------------------------------ memory
    def newobj(self, size, name):
        self.nobj += 1
        self.objs[self.nobj] = (size, name)
        return self.nobj

    def globptr(self, name, st):
        o = self.globobj.get(name)
        if o is None:
            g = self.m.glob(name)
            if g is None:
                if name in self.m.funcs or name in self.m.decls:
                    raise Unsupported("function pointer " + name)
                raise Unsupported("global " + name)
            ty, init, const = g
            size = self.m.size(ty)[0]
            o = self.newobj(size, "@" + name)
            self.globobj[name] = o
            self.objs[o] = (size, "@" + name, ty, init, const)
        if o not in st.mem:
            ob = self.objs[o]
            if ob[3] is None or self.big(ob[2]):
                st.mem[o] = None      # table, read through uf / constants
            else:
                cells = [None] * ob[0]
                self.initcells(cells, 0, ob[2], ob[3], st)
                st.mem[o] = cells
        return Ptr([(t.true(), o, t.const(0, 64))])

    def big(self, ty):
        return ty[0] == "a" and ty[1] > 4096

    def initcells(self, cells, off, ty, v, st):
        if v[0] == "zero":
            for i in range(self.m.size(ty)[0]):
                cells[off + i] = (t.const(0, 8), 0)
        elif v[0] == "str":
            for i, b in enumerate(v[1]):
                cells[off + i] = (t.const(b, 8), 0)
        elif v[0] == "agg":
            if ty[0] == "a":
                s = self.m.size(ty[2])[0]
                for i, (tt, x) in enumerate(v[1]):
                    self.initcells(cells, off + i * s, tt, x, st)
            else:
                for i, (tt, x) in enumerate(v[1]):
                    o, ft = self.m.field(ty, i)
                    self.initcells(cells, off + o, ft, x, st)
        elif v[0] == "undef":
            pass
        else:
            self.storecells(cells, off, ty, self.val(ty, v, st))

    def storecells(self, cells, off, ty, v):
        if isinstance(v, list):
            if ty[0] == "s":
                for i, x in enumerate(v):
                    o, ft = self.m.field(ty, i)
                    self.storecells(cells, off + o, ft, x)
            else:
                s = self.m.size(ty[2])[0]
                for i, x in enumerate(v):
                    self.storecells(cells, off + i * s, ty[2], x)
            return
        if isinstance(v, Ptr):
            n = 8
        else:
            n = (v.w + 7) // 8
            if v.w % 8:
                v = t.zext(v, n * 8)
        if off < 0 or off + n > len(cells):
            raise Unsupported("store out of bounds")
        for i in range(n):
            cells[off + i] = (v, i)

    def loadcells(self, cells, off, ty):
        if ty == "ptr":
            c = cells[off]
            if c is None:
                return self.undef(ty)
            if isinstance(c[0], Ptr) and c[1] == 0:
                return c[0]
            raise Unsupported("load of mixed pointer bytes")
        if ty[0] == "s":
            r = []
            for i in range(len(ty[1])):
                o, ft = self.m.field(ty, i)
                r.append(self.loadcells(cells, off + o, ft))
            return r
        if ty[0] == "a":
            s = self.m.size(ty[2])[0]
            return [self.loadcells(cells, off + i * s, ty[2]) for i in range(ty[1])]
        w = tw(ty)
        n = (w + 7) // 8
        if off < 0 or off + n > len(cells):
            raise Unsupported("load out of bounds")
        c0 = cells[off]
        if c0 is not None and not isinstance(c0[0], Ptr) and c0[1] == 0 and c0[0].w == n * 8 and \
                all(cells[off + i] is not None and cells[off + i][0] is c0[0] and cells[off + i][1] == i
                    for i in range(n)):
            r = c0[0]
        else:
            r = None
            for i in range(n):
                c = cells[off + i]
                if c is None:
                    b = self.fresh(8, "undef")
                    cells[off + i] = (b, 0)
                elif isinstance(c[0], Ptr):
                    raise Unsupported("integer load of pointer")
                else:
                    b = t.extract(c[0], c[1] * 8 + 7, c[1] * 8)
                r = b if r is None else t.concat(b, r)
        if r.w != w:
            r = t.extract(r, w - 1, 0)
        return r

    def alts(self, p, st, size, what):
        """resolved alternatives of a pointer for an access of size bytes"""
        out = []
        for g, o, off in p.alts:
            if t.isc(g) and not g.val:
                continue
            out.append((g, o, off))
        return out

    def load(self, p, ty, st):
        res = None
        n = self.m.size(ty)[0]
        for g, o, off in reversed(self.alts(p, st, n, "load")):
            if o is None:
                self.asserts.append((len(self.assumes), t.band(st.guard(), g), t.false(),
                                     "null pointer dereference", "mem"))
                v = self.undef(ty)
            else:
                cells = st.mem.get(o)
                if cells is None:
                    v = self.tableload(o, off, ty, st, g)
                elif t.isc(off):
                    v = self.loadcells(cells, t.sval(off), ty)
                else:
                    v = self.symload(o, cells, off, ty, st, g)
            res = v if res is None else self.merge(g, v, res)
        if res is None:
            raise Unsupported("load through no pointer")
        return res

    def symload(self, o, cells, off, ty, st, g):
        n = self.m.size(ty)[0]
        size = len(cells)
        ok = t.ule(off, t.const(size - n, 64))
        self.asserts.append((len(self.assumes), t.band(st.guard(), g), ok, "index inside " + self.objs[o][1], "mem"))
        # stride: largest power of two known to divide the offset
        z = t.tz(off)
        step = 1 << min(z, 12)
        vals = [self.loadcells(cells, i, ty) for i in range(0, size - n + 1, step)]
        if not all(isinstance(v, t.T) for v in vals):
            raise Unsupported("symbolic load of aggregates")
        idx = t.extract(off, 63, z) if z else off
        nb = max(1, (len(vals) - 1).bit_length())
        dflt = vals[-1]
        vals = vals + [dflt] * ((1 << nb) - len(vals))

        def mux(lo, k):
            if k == 0:
                return vals[lo]
            b = t.extract(idx, k - 1, k - 1)
            return t.ite(b, mux(lo + (1 << (k - 1)), k - 1), mux(lo, k - 1))
        return mux(0, nb)

    def tableload(self, o, off, ty, st, g):
        ob = self.objs[o]
        self.tables.add(ob[1])
        n = self.m.size(ty)[0]
        if ob[0]:
            ok = t.ule(off, t.const(ob[0] - n, 64))
            self.asserts.append((len(self.assumes), t.band(st.guard(), g), ok, "index inside " + ob[1], "mem"))
        return t.uf("tab:%s:%d" % (ob[1], n), tw(ty), [off])

    def store(self, p, ty, v, st):
        al = self.alts(p, st, 0, "store")
        for g, o, off in al:
            if o is None:
                self.asserts.append((len(self.assumes), t.band(st.guard(), g), t.false(),
                                     "null pointer dereference", "mem"))
                continue
            cells = st.mem.get(o)
            if cells is None:
                raise Unsupported("store to table")
            if not t.isc(off):
                raise Unsupported("store at symbolic offset")
            cells = list(cells)
            if len(al) > 1:
                old = self.loadcells(cells, t.sval(off), ty)
                self.storecells(cells, t.sval(off), ty, self.merge(g, v, old))
            else:
                self.storecells(cells, t.sval(off), ty, v)
            st.mem[o] = cells

    def memcpy(self, d, s, n, st):
        if not t.isc(n):
            raise Unsupported("memcpy of symbolic size")
        n = n.val
        if n == 0:
            return
        sa = self.alts(s, st, n, "memcpy")
        da = self.alts(d, st, n, "memcpy")
        if len(da) != 1 or not t.isc(da[0][2]) or da[0][1] is None:
            raise Unsupported("memcpy destination")
        src = None
        for g, o, off in reversed(sa):
            if o is None or not t.isc(off) or st.mem.get(o) is None:
                raise Unsupported("memcpy source")
            k = t.sval(off)
            c = list(st.mem[o][k:k + n])
            src = c if src is None else self.mergecells(g, c, src)
        o = da[0][1]
        k = t.sval(da[0][2])
        cells = list(st.mem[o])
        if k < 0 or k + n > len(cells) or len(src) != n:
            raise Unsupported("memcpy out of bounds")
        cells[k:k + n] = src
        st.mem[o] = cells

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b):
        """c ? a : b"""
        if a is b:
            return a
        if isinstance(a, list):
            return [self.merge(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, Ptr):
            if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] == b.alts[0][1]:
                return Ptr([(t.true(), a.alts[0][1], t.ite(c, a.alts[0][2], b.alts[0][2]))])
            al = [(t.band(c, g), o, f) for g, o, f in a.alts] + [(t.band(t.bnot(c), g), o, f) for g, o, f in b.alts]
            m = {}
            out = []
            for g, o, f in al:
                k = (o, f.id)
                if k in m:
                    out[m[k]] = (t.bor(out[m[k]][0], g), o, f)
                else:
                    m[k] = len(out)
                    out.append((g, o, f))
            return Ptr(out)
        return t.ite(c, a, b)

    def mergecells(self, c, a, b):
        n = len(a)
        out = [None] * n
        i = 0
        while i < n:
            x, y = a[i], b[i]
            if x is y or (x is not None and y is not None and x[0] is y[0] and x[1] == y[1]):
                out[i] = x
                i += 1
                continue
            if x is None or y is None:
                # one side uninitialised: keep its value unconstrained
                z = x if x is not None else y
                k = self.run(a if x is not None else b, i)
                if isinstance(z[0], Ptr):
                    out[i:i + k] = [z0 for z0 in (a if x is not None else b)[i:i + k]]
                    i += k
                    continue
                o = b if x is not None else a
                if k and all(o[i + j] is None for j in range(k)):
                    w = z[0].w
                else:
                    k, w = 1, 8
                v = z[0] if k > 1 or w == z[0].w else t.extract(z[0], z[1] * 8 + 7, z[1] * 8)
                f = self.fresh(v.w, "undef")
                r = t.ite(c, v, f) if x is not None else t.ite(c, f, v)
                for j in range(max(k, 1)):
                    out[i + j] = (r, j)
                i += max(k, 1)
                continue
            k = self.run(a, i)
            k2 = self.run(b, i)
            if k != k2 and max(k, k2) > 1:
                # a word on one side, its bytes on the other
                n2 = max(k, k2)
                o = b if k > k2 else a
                z = (a if k > k2 else b)[i][0]
                if not isinstance(z, Ptr) and z.w == n2 * 8 and \
                        all(q is not None and not isinstance(q[0], Ptr) for q in o[i:i + n2]):
                    v = None
                    for q in o[i:i + n2]:
                        y2 = t.extract(q[0], q[1] * 8 + 7, q[1] * 8)
                        v = y2 if v is None else t.concat(y2, v)
                    r = t.ite(c, z, v) if k > k2 else t.ite(c, v, z)
                    for j in range(n2):
                        out[i + j] = (r, j)
                    i += n2
                    continue
            if k and k == k2 and isinstance(x[0], Ptr) == isinstance(y[0], Ptr):
                r = self.merge(c, x[0], y[0])
                for j in range(k):
                    out[i + j] = (r, j)
                i += k
                continue
            if isinstance(x[0], Ptr) or isinstance(y[0], Ptr):
                raise Unsupported("merge of pointer bytes")
            r = t.ite(c, t.extract(x[0], x[1] * 8 + 7, x[1] * 8), t.extract(y[0], y[1] * 8 + 7, y[1] * 8))
            out[i] = (r, 0)
            i += 1
        return out

    @staticmethod
    def run(cells, i):
        """length of the whole word starting at i, or 0"""
        c = cells[i]
        if c is None or c[1] != 0:
            return 0
        k = 8 if isinstance(c[0], Ptr) else c[0].w // 8
        if i + k > len(cells):
            return 0
        for j in range(k):
            d = cells[i + j]
            if d is None or d[0] is not c[0] or d[1] != j:
                return 0
        return k

    def mergestates(self, sts, live=None):
        sts = [s for s in sts if not any(t.isc(c) and c.val == 0 for c in s.conj)]
        if not sts:
            return None
        sts = list(sts)
        while len(sts) > 1:
            # prefer a complementary pair with the longest guards
            best = None
            for i in range(len(sts)):
                for j in range(i + 1, len(sts)):
                    a, b = sts[i].conj, sts[j].conj
                    n = 0
                    while n < len(a) and n < len(b) and a[n] is b[n]:
                        n += 1
                    comp = len(a) == n + 1 and len(b) == n + 1 and t.bnot(a[n]) is b[n]
                    k = (comp, n)
                    if best is None or k > best[0]:
                        best = (k, i, j, n)
            _, i, j, n = best
            a, b = sts[i], sts[j]
            ca, cb = tconj(a.conj[n:]), tconj(b.conj[n:])
            if t.isc(ca) and ca.val:
                ca = t.bnot(cb)
            if best[0][0]:
                conj = a.conj[:n]
            else:
                o = t.bor(ca, cb)
                conj = a.conj[:n] + (() if t.isc(o) and o.val else (o,))
            # select on the shorter condition
            if len(b.conj) < len(a.conj):
                a, b, c = b, a, cb
            else:
                c = ca
            env = dict(a.env)
            for k, v in b.env.items():
                u = env.get(k)
                if u is None:
                    env[k] = v
                elif u is not v:
                    env[k] = self.merge(c, u, v)
            mem = {}
            for k, v in a.mem.items():
                u = b.mem.get(k, 0)
                if u == 0 or u is v:
                    mem[k] = v
                else:
                    mem[k] = self.mergecells(c, v, u)
            for k, v in b.mem.items():
                if k not in mem:
                    mem[k] = v
            s = St(conj, env, mem)
            sts = [x for q, x in enumerate(sts) if q not in (i, j)] + [s]
        return sts[0]

    # ------------------------------------------------------------ values
    def facts(self, conj):
        key = tuple(c.id for c in conj)
        f = self.factmemo.get(key)
        if f is None:
            if len(conj) > 1:
                f = dict(self.facts(conj[:-1]))
            else:
                f = {}
            cl = f.setdefault("cl", [])
            f["cl"] = cl = list(cl)
            todo = [(conj[-1], 1)]
            while todo:
                c, v = todo.pop()
                if c.id in f:
                    continue
                f[c.id] = v
                if c.op == "xor" and t.isc(c.args[1]):
                    todo.append((c.args[0], 1 - v))
                elif c.op == "and" and v:
                    todo.extend((a, 1) for a in c.args)
                elif c.op == "or" and not v:
                    todo.extend((a, 0) for a in c.args)
                elif c.op in ("and", "or"):
                    cl.append((c, v))
                if not todo:
                    # unit propagation and the resolution of x&y, x&~y
                    for c, v in cl:
                        a, b = c.args
                        tv = 1 if c.op == "and" else 0  # neutral value of an operand
                        for p, q in ((a, b), (b, a)):
                            if self.known(p, f) == tv and self.known(q, f) is None:
                                todo.append((q, v))
                            nq = t.bnot(q)
                            for d, dv in cl:
                                if d.op == c.op and dv == v and d is not c and p in d.args and nq in d.args and p.id not in f:
                                    todo.append((p, v))
            self.factmemo[key] = f
        return f

    def known(self, c, f, depth=4):
        r = f.get(c.id)
        if r is not None or depth == 0:
            return r
        if t.isc(c):
            return c.val
        if c.op == "xor" and t.isc(c.args[1]):
            r = self.known(c.args[0], f, depth - 1)
            return None if r is None else 1 - r
        if c.op in ("and", "or"):
            z = 0 if c.op == "and" else 1
            rs = [self.known(a, f, depth - 1) for a in c.args]
            if z in rs:
                return z
            if all(r == 1 - z for r in rs):
                return 1 - z
        return None

    def onpath(self, x, conj, depth=3):
        """x simplified with what the path condition decides"""
        if depth == 0 or x.op not in ("ite", "sext", "zext", "extract", "and", "or", "xor", "eq"):
            return x
        if x.op != "ite":
            if x.op in ("and", "or", "xor", "eq"):
                if x.w != 1 or x.op == "eq":
                    return x
                f = self.facts(conj)
                r = self.known(x, f)
                if r is not None:
                    return t.const(r, 1)
                if x.op != "xor":
                    z = 1 if x.op == "and" else 0
                    for p, q in (x.args, x.args[::-1]):
                        if self.known(p, f) == z:
                            return self.onpath(q, conj, depth - 1)
                return x
            a = self.onpath(x.args[0], conj, depth - 1)
            if a is x.args[0]:
                return x
            if x.op == "sext":
                return t.sext(a, x.w)
            if x.op == "zext":
                return t.zext(a, x.w)
            hi, lo = x.val
            return t.extract(a, hi, lo)
        f = self.facts(conj)
        n = 0
        while x.op == "ite" and n < 40:
            r = self.known(x.args[0], f)
            if r is None:
                break
            x = x.args[1] if r else x.args[2]
            n += 1
        return x

    def val(self, ty, v, st):
        k = v[0]
        if k == "l":
            x = st.env[v[1]]
            if isinstance(x, t.T) and st.conj and x.args:
                return self.onpath(x, st.conj)
            return x
        if k == "c":
            return t.const(v[1], tw(ty))
        if k == "g":
            return self.globptr(v[1], st)
        if k == "null":
            return Ptr([(t.true(), None, t.const(0, 64))])
        if k == "undef":
            return self.undef(ty)
        if k == "zero":
            return self.zero(ty)
        if k == "agg":
            return [self.val(tt, x, st) for tt, x in v[1]]
        if k == "ce_gep":
            base = self.val(v[2][0][0], v[2][0][1], st)
            return self.gep(base, v[1], [(a, b) for a, b, c in v[2][1:]], st)
        raise Unsupported("constant " + k)

    def zero(self, ty):
        if ty == "ptr":
            return Ptr([(t.true(), None, t.const(0, 64))])
        if ty[0] == "s":
            return [self.zero(x) for x in ty[1]]
        if ty[0] == "a":
            return [self.zero(ty[2]) for _ in range(ty[1])]
        return t.const(0, tw(ty))

    def gep(self, base, ty, idx, st):
        off = t.const(0, 64)
        cur = ty
        for k, (it, iv) in enumerate(idx):
            v = self.val(it, iv, st)
            v = t.sext(v, 64) if v.w < 64 else v
            if k == 0:
                off = t.add(off, t.mul(v, t.const(self.m.size(cur)[0], 64)))
            elif cur[0] == "s":
                o, cur = self.m.field(cur, v.val)
                off = t.add(off, t.const(o, 64))
            elif cur[0] in ("a", "v"):
                cur = cur[2]
                off = t.add(off, t.mul(v, t.const(self.m.size(cur)[0], 64)))
            else:
                raise Unsupported("gep")
        return Ptr([(g, o, t.add(f, off)) for g, o, f in base.alts])

    # ------------------------------------------------------------ run
    def run_obligation(self, name):
        f = self.m.func(name)
        if f is None:
            raise Unsupported("no function " + name)
        self.obname = name
        args = []
        for i, (ty, nm, a) in enumerate(f.args):
            args.append(t.var("arg%d" % i, tw(ty)))
        st = St((), {}, {})
        self.call(f, args, st)
        return args

    def call(self, f, args, st):
        """execute f on args from st; returns (value, state)"""
        if self.depth > 60:
            raise Unsupported("call depth (recursion)")
        self.depth += 1
        self.entered.add(f.name)
        mark = self.nobj
        env = {}
        for (ty, nm, a), v in zip(f.args, args):
            if "byval" in a:
                n = self.m.size(a["byval"][0])[0]
                o = self.newobj(n, "byval")
                st.mem[o] = [None] * n
                p = Ptr([(t.true(), o, t.const(0, 64))])
                self.memcpy(p, v, t.const(n, 64), st)
                v = p
            env[nm] = v
        s0 = St(st.conj, env, dict(st.mem))
        rets = self.region(f, f.rpo, f.entry, {f.entry: [(None, s0)]}, None)
        self.depth -= 1
        if not rets:
            return None, None
        ns = self.mergestates(rets)
        if ns is None:
            return None, None
        v = ns.env.get("$ret")
        # the callee's locals are gone
        gl = set(self.globobj.values())
        mem = {k: c for k, c in ns.mem.items() if k <= mark or k in gl}
        return v, St(st.conj, st.env, mem)

    def region(self, f, blocks, entry, inc, loop):
        """Run the blocks (in order, loops collapsed) starting from the incoming
        states inc: block -> [(pred, state)].  Returns the list of return states;
        edges leaving the region are added to loop['exits'] / loop['back']."""
        rets = []
        inset = set(blocks)
        for b in blocks:
            l = inc.pop(b, None)
            if not l:
                continue
            if b in f.loops and (loop is None or loop["head"] != b):
                self.runloop(f, b, l, inc, rets, inset, loop)
                continue
            st = self.enter(f, b, l)
            if st is None:
                continue
            for tgt, s in self.block(f, b, st, rets):
                self.edge(f, b, tgt, s, inc, inset, loop)
        return rets

    def edge(self, f, b, tgt, s, inc, inset, loop):
        if any(t.isc(c) and c.val == 0 for c in s.conj):
            return
        if loop is not None and tgt == loop["head"]:
            loop["back"].append((b, s))
        elif tgt in inset:
            inc.setdefault(tgt, []).append((b, s))
        else:
            loop["exits"].append((b, tgt, s))

    def enter(self, f, b, l):
        """evaluate phis per incoming edge, then merge"""
        phis = []
        for i in f.blocks[b]:
            if i.op != "phi":
                break
            phis.append(i)
        sts = []
        for p, s in l:
            if phis and p is not None:
                vals = []
                for i in phis:
                    for v, lab in i.a:
                        if lab == p:
                            vals.append((i.res, self.val(i.t, v, s)))
                            break
                    else:
                        raise Unsupported("phi")
                env = dict(s.env)
                env.update(vals)
                s = St(s.conj, env, s.mem)
            sts.append(s)
        return self.mergestates(sts)

    def runloop(self, f, h, l, inc, rets, inset, outer):
        body = f.loops[h]
        order = [b for b in f.rpo if b in body]
        st = self.enter(f, h, l)
        if st is None:
            return
        if self.loophook:
            r = self.loophook(self, f, h, order, st)
            if r is not None:
                exits, lrets = r
                rets.extend(lrets)
                for b, tgt, s in exits:
                    self.edge(f, b, tgt, s, inc, inset, outer)
                return
        base = st.conj
        it = 0
        allexits = {}
        while st is not None:
            it += 1
            if it > self.MAXITER:
                self.asserts.append((len(self.assumes), st.guard(), t.false(),
                                     "loop in %s needs more than %d iterations" % (f.name, self.MAXITER), "unwind"))
                break
            lp = {"head": h, "back": [], "exits": []}
            # the header's phis are already evaluated in st
            r = self.region_from(f, order, h, st, lp, rets)
            for b, tgt, s in lp["exits"]:
                allexits.setdefault((b, tgt), []).append(s)
            st = self.enter(f, h, lp["back"]) if lp["back"] else None
            if st is not None and (it == 1 or it % 4 == 0):
                g = st.guard()
                if not t.isc(g) and self.feasible and not self.feasible(g, self.assumes):
                    st = None
        for (b, tgt), sts in allexits.items():
            # merge later iterations first: each keeps its own guard
            s = sts[-1]
            for x in reversed(sts[:-1]):
                s = self.mergestates([x, s])
            self.edge(f, b, tgt, s, inc, inset, outer)

    def region_from(self, f, order, h, st, lp, rets):
        inc = {}
        inset = set(order) - {h}
        for tgt, s in self.block(f, h, st, rets):
            self.edge(f, h, tgt, s, inc, inset, lp)
        rets.extend(self.region(f, [b for b in order if b != h], h, inc, lp))

    # ------------------------------------------------------------ blocks
    def block(self, f, b, st, rets):
        """returns [(target, state)]"""
        st = St(st.conj, dict(st.env), dict(st.mem))
        for i in f.blocks[b]:
            op = i.op
            if op == "phi":
                continue
            self.steps += 1
            if self.steps > 400000:
                raise Unsupported("too many steps")
            if op == "br":
                if i.a is None:
                    return [(i.b, st)]
                c = self.val(("i", 1), i.a, st)
                if t.isc(c):
                    return [(i.b if c.val else i.c, st)]
                for k in st.conj:
                    if k is c:
                        return [(i.b, st)]
                    if k is t.bnot(c):
                        return [(i.c, st)]
                if i.b == i.c:
                    return [(i.b, st)]
                if self.oracle is not None:
                    if not self.oracle.possible(st.conj, c):
                        return [(i.c, st)]
                    if not self.oracle.possible(st.conj, t.bnot(c)):
                        return [(i.b, st)]
                return [(i.b, St(st.conj + (c,), st.env, st.mem)),
                        (i.c, St(st.conj + (t.bnot(c),), dict(st.env), dict(st.mem)))]
            if op == "switch":
                v = self.val(i.t, i.a, st)
                w = tw(i.t)
                # group cases by target, keeping order
                groups = []
                for k, lab in i.c:
                    e = t.eq(v, t.const(k, w))
                    for q in groups:
                        if q[0] == lab:
                            q[1].append(e)
                            break
                    else:
                        groups.append([lab, [e]])
                out = []
                conj = st.conj
                for lab, es in groups:
                    e = t.false()
                    for x in es:
                        e = t.bor(e, x)
                    if t.isc(e) and e.val == 0:
                        continue
                    if self.oracle is not None and not t.isc(e):
                        if not self.oracle.possible(conj, e):
                            continue
                        if not self.oracle.possible(conj, t.bnot(e)):
                            e = t.true()
                    if t.isc(e):
                        out.append((lab, St(conj, dict(st.env), dict(st.mem))))
                        conj = None
                        break
                    out.append((lab, St(conj + (e,), dict(st.env), dict(st.mem))))
                    conj = conj + (t.bnot(e),)
                if conj is not None:
                    out.append((i.b, St(conj, st.env, st.mem)))
                # a default that equals a case target: two edges, merge states there
                d = {}
                res = []
                for lab, s in out:
                    d.setdefault(lab, []).append(s)
                for lab, ss in d.items():
                    m = self.mergestates(ss)
                    if m is not None:
                        res.append((lab, m))
                return res
            if op == "ret":
                if i.a is not None:
                    st.env["$ret"] = self.val(i.t, i.a, st)
                rets.append(St(st.conj, {"$ret": st.env["$ret"]} if i.a is not None else {}, st.mem))
                return []
            if op == "unreachable":
                return []
            r = self.ins(i, st, f)
            if r is DEAD:
                return []
            if i.res is not None:
                st.env[i.res] = r
        raise Unsupported("block without terminator")

    def ins(self, i, st, f):
        op = i.op
        if op in BIN:
            a = self.val(i.t, i.a, st)
            b = self.val(i.t, i.b, st)
            return self.binop(op, a, b, i.t, st)
        if op == "icmp":
            a = self.val(i.t, i.a, st)
            b = self.val(i.t, i.b, st)
            if isinstance(a, Ptr):
                return self.pcmp(i.x, a, b)
            return PRED[i.x](a, b)
        if op == "fcmp":
            return self.fcmp(i.x, self.val(i.t, i.a, st), self.val(i.t, i.b, st), i.t)
        if op == "select":
            c = self.val(("i", 1), i.c, st)
            return self.merge(c, self.val(i.t, i.a, st), self.val(i.t, i.b, st)) if not t.isc(c) else \
                self.val(i.t, i.a if c.val else i.b, st)
        if op == "trunc":
            return t.extract(self.val(i.b, i.a, st), tw(i.t) - 1, 0)
        if op == "zext":
            return t.zext(self.val(i.b, i.a, st), tw(i.t))
        if op == "sext":
            return t.sext(self.val(i.b, i.a, st), tw(i.t))
        if op in ("bitcast", "freeze"):
            if op == "freeze":
                return self.val(i.t, i.a, st)
            v = self.val(i.b, i.a, st)
            if i.t == "ptr" or i.b == "ptr":
                if i.t != i.b:
                    raise Unsupported("bitcast ptr")
            elif tw(i.t) != tw(i.b):
                raise Unsupported("bitcast")
            return v
        if op in ("fptrunc", "fpext", "sitofp", "uitofp", "fptosi", "fptoui"):
            return self.fpcast(op, self.val(i.b, i.a, st), i.b, i.t)
        if op == "fneg":
            a = self.val(i.t, i.a, st)
            return t.bxor(a, t.const(1 << (a.w - 1), a.w))
        if op == "alloca":
            n = self.m.size(i.t)[0] * i.a
            o = self.newobj(n, "alloca")
            st.mem[o] = [None] * n
            return Ptr([(t.true(), o, t.const(0, 64))])
        if op == "load":
            return self.load(self.val("ptr", i.a, st), i.t, st)
        if op == "store":
            self.store(self.val("ptr", i.b, st), i.t, self.val(i.t, i.a, st), st)
            return None
        if op == "getelementptr":
            base = self.val(i.a[0][0], i.a[0][1], st)
            return self.gep(base, i.t, i.a[1:], st)
        if op == "extractvalue":
            v = self.val(i.t, i.a, st)
            for k in i.b:
                v = v[k]
            return v
        if op == "insertvalue":
            v = self.val(i.t, i.a, st)
            x = self.val(i.b[0], i.b[1], st)

            def put(v, ix):
                v = list(v)
                v[ix[0]] = x if len(ix) == 1 else put(v[ix[0]], ix[1:])
                return v
            return put(v, i.c)
        if op == "call":
            return self.docall(i, st, f)
        raise Unsupported("instruction %s %s" % (op, i.x if op == "unsupported" else ""))

    def pcmp(self, pred, a, b):
        if len(a.alts) == 1 and len(b.alts) == 1:
            x, y = a.alts[0], b.alts[0]
            if x[1] == y[1]:
                return PRED[pred](x[2], y[2])
            if pred == "eq":
                return t.false()
            if pred == "ne":
                return t.true()
        raise Unsupported("pointer comparison")

    def can(self, bad, st):
        """can the condition hold here?"""
        if t.isc(bad):
            return bool(bad.val)
        if st is None or self.oracle is None:
            return True
        for k in st.conj:
            if k is t.bnot(bad):
                return False
        return self.oracle.possible(st.conj, bad)

    def binop(self, op, a, b, ty, st=None):
        if op == "add":
            return t.add(a, b)
        if op == "sub":
            return t.sub(a, b)
        if op == "mul":
            return t.mul(a, b)
        if op == "and":
            return t.band(a, b)
        if op == "or":
            return t.bor(a, b)
        if op == "xor":
            return t.bxor(a, b)
        if op in ("shl", "lshr", "ashr"):
            w = a.w
            r = {"shl": t.shl, "lshr": t.lshr, "ashr": t.ashr}[op](a, b)
            ok = t.ult(b, t.const(w, w))
            if t.isc(ok):
                return r if ok.val else self.fresh(w, "ub")
            if not self.can(t.bnot(ok), st):
                return r
            return t.ite(ok, r, self.fresh(w, "ub"))
        if op in ("udiv", "sdiv", "urem", "srem"):
            r = getattr(t, op)(a, b)
            z = t.eq(b, t.const(0, b.w))
            if not self.can(z, st):
                return r
            return t.ite(z, self.fresh(a.w, "ub"), r)
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            return self.fparith(op, a, b, {16: "half", 32: "float", 64: "double"}[a.w])
        raise Unsupported(op)

    # ---- floating point
    def fpparts(self, a, ty):
        w, e, m = FPW[ty]
        ex = t.extract(a, w - 2, m)
        fr = t.extract(a, m - 1, 0)
        allone = t.eq(ex, t.const(-1, e))
        nan = t.band(allone, t.bnot(t.eq(fr, t.const(0, m))))
        zero = t.eq(t.extract(a, w - 2, 0), t.const(0, w - 1))
        return nan, zero

    def fparith(self, op, a, b, ty):
        """IEEE operations: uninterpreted, but for scaling by powers of two, commutativity and NaN operands"""
        w, e, m = FPW[ty]
        bias = (1 << (e - 1)) - 1

        def power(x):  # exponent of a constant power of two (either sign), or None
            if t.isc(x) and x.val & ((1 << m) - 1) == 0 and 0 < (x.val >> m) & ((1 << e) - 1) < (1 << e) - 1:
                return ((x.val >> m) & ((1 << e) - 1)) - bias
            return None
        if op == "fsub":
            op, b = "fadd", t.bxor(b, t.const(1 << (w - 1), w))
        if op == "fdiv" and power(b) is not None and abs(power(b)) < bias:
            k = power(b)
            op, b = "fmul", t.const((b.val & (1 << (w - 1))) | ((bias - k) << m), w)
        if op == "fadd" and a is b:
            op, b = "fmul", t.const((bias + 1) << m, w)
        if op == "fmul" and power(a) is not None:
            a, b = b, a
        if op in ("fmul", "fadd") and not t.isc(b) and (t.isc(a) or a.id > b.id):
            a, b = b, a
        self.fpops.add(op)
        r = t.uf("%s%d" % (op, w), w, [a, b])
        n1, z1 = self.fpparts(a, ty)
        n2, z2 = self.fpparts(b, ty)
        nr, zr = self.fpparts(r, ty)
        self.assumes.append(t.bor(t.bnot(t.bor(n1, n2)), nr))
        k = power(b) if op == "fmul" else None
        if k is not None:
            ex = t.zext(t.extract(a, w - 2, m), e + 3)
            nx = t.add(ex, t.const(k, e + 3))
            top = t.const((1 << e) - 1, e + 3)
            one = t.const(1, e + 3)
            s = t.bxor(t.extract(a, w - 1, w - 1), t.const(b.val >> (w - 1), 1))
            fine = t.band(t.band(t.sle(one, ex), t.slt(ex, top)), t.band(t.sle(one, nx), t.slt(nx, top)))
            exact = t.concat(s, t.concat(t.extract(nx, e - 1, 0), t.extract(a, m - 1, 0)))
            same = t.bor(z1, t.band(t.eq(ex, top), t.bnot(n1)))
            r = t.ite(fine, exact, t.ite(same, t.concat(s, t.extract(a, w - 2, 0)), r))
        return r

    def fcmp(self, pred, a, b, ty):
        if pred == "false":
            return t.false()
        if pred == "true":
            return t.true()
        n1, z1 = self.fpparts(a, ty)
        n2, z2 = self.fpparts(b, ty)
        un = t.bor(n1, n2)
        if pred == "uno":
            return un
        if pred == "ord":
            return t.bnot(un)
        w = a.w
        bothz = t.band(z1, z2)

        def key(x):  # order-preserving signed key
            s = t.extract(x, w - 1, w - 1)
            mag = t.extract(x, w - 2, 0)
            return t.ite(s, t.neg(t.zext(mag, w)), t.zext(mag, w))
        ka, kb = key(a), key(b)
        p = pred[1:]
        r = {"eq": lambda: t.eq(ka, kb), "ne": lambda: t.bnot(t.eq(ka, kb)), "lt": lambda: t.slt(ka, kb),
             "le": lambda: t.sle(ka, kb), "gt": lambda: t.slt(kb, ka), "ge": lambda: t.sle(kb, ka)}[p]()
        if pred[0] == "o":
            return t.band(t.bnot(un), r)
        return t.bor(un, r)

    def fpcast(self, op, v, src, dst):
        if op == "fpext" and src == "float" and dst == "double":
            return self.fpext(v)
        if op == "sitofp" and dst == "double" and src[0] == "i" and src[1] <= 32:
            s = t.extract(v, src[1] - 1, src[1] - 1)
            x = t.sext(v, 53)
            mag = t.ite(s, t.neg(x), x)
            lz = t.ctlz(mag)
            ex = t.sub(t.const(1023 + 52, 11), t.extract(lz, 10, 0))
            return t.ite(t.eq(v, t.const(0, src[1])), t.const(0, 64),
                         t.concat(s, t.concat(ex, t.extract(t.shl(mag, lz), 51, 0))))
        self.fpops.add(op)
        return t.uf("%s_%s_%s" % (op, src if isinstance(src, str) else "i%d" % src[1],
                                  dst if isinstance(dst, str) else "i%d" % dst[1]), tw(dst), [v])

    def fpext(self, v):
        """exact float -> double (quiet NaN payload kept)"""
        s = t.extract(v, 31, 31)
        e = t.extract(v, 30, 23)
        f = t.extract(v, 22, 0)
        fz = t.eq(f, t.const(0, 23))
        f52 = t.concat(f, t.const(0, 29))
        normal = t.concat(t.add(t.zext(e, 11), t.const(1023 - 127, 11)), f52)
        special = t.concat(t.const(0x7ff, 11), t.concat(t.ite(fz, t.const(0, 1), t.const(1, 1)),
                                                         t.extract(f52, 50, 0)))
        k = t.extract(t.ctlz(t.zext(f, 52)), 10, 0)  # 29 + leading zeros in f
        lz = t.sub(k, t.const(29, 11))
        sh = t.add(t.zext(lz, 52), t.const(1, 52))
        subn = t.concat(t.sub(t.const(1023 - 127, 11), lz), t.shl(f52, sh))
        mag = t.ite(t.eq(e, t.const(255, 8)), special,
                    t.ite(t.eq(e, t.const(0, 8)), t.ite(fz, t.const(0, 63), subn), normal))
        return t.concat(s, mag)

    # ------------------------------------------------------------ calls
    def docall(self, i, st, f):
        if i.a[0] != "@":
            raise Unsupported("indirect call")
        name = i.a[1:].strip('"')
        if name.startswith("llvm."):
            return self.intrinsic(name, i, st)
        args = None
        if name.startswith("vp_"):
            return self.primitive(name, i, st)
        rn = self.redirect.get(name)
        if rn is not None:
            self.used.add(name)
            name = rn
        g = self.m.func(name)
        args = [self.val(ty, v, st) for ty, v, a in i.b]
        if g is None:
            return self.external(name, args, i, st)
        v, ns = self.call(g, args, st)
        if ns is None:
            return DEAD
        st.mem = ns.mem
        return v

    def external(self, name, args, i, st):
        if name in ("_ZSt9terminatev", "abort", "__assert_fail"):
            self.asserts.append((len(self.assumes), st.guard(), t.false(), "call of " + name, "abort"))
            return DEAD
        raise Unsupported("external function " + name)

    def cstr(self, p, st):
        g, o, off = p.alts[0]
        cells = st.mem[o]
        s = ""
        k = off.val
        while cells[k][0].val:
            s += chr(cells[k][0].val)
            k += 1
        return s

    def primitive(self, name, i, st):
        a = [self.val(ty, v, st) for ty, v, x in i.b]
        if name == "vp_assume":
            c = a[0] if a[0].w == 1 else t.bnot(t.eq(a[0], t.const(0, a[0].w)))
            c = t.implies(st.guard(), c)
            self.assumes.append(c)
            if self.oracle is not None and not t.isc(c):
                self.oracle.assume(c)
            return None
        if name == "vp_assert":
            c = a[0] if a[0].w == 1 else t.bnot(t.eq(a[0], t.const(0, a[0].w)))
            self.asserts.append((len(self.assumes), st.guard(), c, self.cstr(a[1], st), "assert"))
            return None
        if name == "vp_cover":
            c = a[0] if a[0].w == 1 else t.bnot(t.eq(a[0], t.const(0, a[0].w)))
            self.covers.append((len(self.assumes), t.band(st.guard(), c), self.cstr(a[1], st)))
            return None
        if name == "vp_split":
            self.splits.append((a[0], t.sval(a[1]), t.sval(a[2])))
            return None
        if name == "vp_isconst":
            return t.const(1 if t.isc(a[0]) else 0, tw(i.t))
        if name.startswith("vp_nondet"):
            return self.fresh(tw(i.t), "nd")
        if name.startswith("vp_uf"):
            return t.uf("u:" + self.cstr(a[0], st), tw(i.t), a[1:])
        raise Unsupported(name)

    def intrinsic(self, name, i, st):
        if name.startswith("llvm.lifetime") or name.startswith("llvm.dbg") or \
                name.startswith("llvm.experimental.noalias") or name.startswith("llvm.assume"):
            return None
        if name in ("llvm.trap", "llvm.ubsantrap", "llvm.debugtrap"):
            k = ""
            if name == "llvm.ubsantrap":
                k = ":%d" % self.val(("i", 8), i.b[0][1], st).val
            self.asserts.append((len(self.assumes), st.guard(), t.false(), "undefined behaviour" + k, "ub"))
            return DEAD
        a = [self.val(ty, v, st) for ty, v, x in i.b]
        base = name.split(".")[1]
        if base == "ctlz":
            r = t.ctlz(a[0])
            if a[1].val:
                z = t.eq(a[0], t.const(0, a[0].w))
                if self.can(z, st):
                    r = t.ite(z, self.fresh(a[0].w, "ub"), r)
            return r
        if base == "cttz":
            w = a[0].w
            r = t.const(w, w)
            for k in reversed(range(w)):
                r = t.ite(t.extract(a[0], k, k), t.const(k, w), r)
            if a[1].val:
                z = t.eq(a[0], t.const(0, w))
                if self.can(z, st):
                    r = t.ite(z, self.fresh(w, "ub"), r)
            return r
        if base == "ctpop":
            w = a[0].w
            r = t.const(0, w)
            for k in range(w):
                r = t.add(r, t.zext(t.extract(a[0], k, k), w))
            return r
        if base in ("memcpy", "memmove"):
            self.memcpy(a[0], a[1], a[2], st)
            return None
        if base == "memset":
            if not t.isc(a[2]):
                raise Unsupported("memset size")
            for k in range(a[2].val):
                p = Ptr([(g, o, t.add(f, t.const(k, 64))) for g, o, f in a[0].alts])
                self.store(p, ("i", 8), a[1], st)
            return None
        if base == "abs":
            return t.ite(t.slt(a[0], t.const(0, a[0].w)), t.neg(a[0]), a[0])
        if base == "smax":
            return t.ite(t.slt(a[0], a[1]), a[1], a[0])
        if base == "smin":
            return t.ite(t.slt(a[1], a[0]), a[1], a[0])
        if base == "umax":
            return t.ite(t.ult(a[0], a[1]), a[1], a[0])
        if base == "umin":
            return t.ite(t.ult(a[1], a[0]), a[1], a[0])
        if base == "expect":
            return a[0]
        if base == "fabs":
            return t.band(a[0], t.const((1 << (a[0].w - 1)) - 1, a[0].w))
        if base == "copysign":
            w = a[0].w
            return t.concat(t.extract(a[1], w - 1, w - 1), t.extract(a[0], w - 2, 0))
        if base == "fshl" or base == "fshr":
            if not t.isc(a[2]):
                raise Unsupported("symbolic rotate")
            w = a[0].w
            k = a[2].val % w
            c = t.concat(a[0], a[1])
            if base == "fshl":
                return t.extract(c, 2 * w - 1 - k, w - k)
            return t.extract(c, w - 1 + k, k)
        if base == "bswap":
            r = None
            for k in range(a[0].w // 8):
                b = t.extract(a[0], k * 8 + 7, k * 8)
                r = b if r is None else t.concat(r, b)
            return r
        if base == "is":
            return t.false()
        if base in ("sadd", "uadd", "ssub", "usub", "smul", "umul"):
            w = a[0].w
            n = {"add": w + 1, "sub": w + 1, "mul": 2 * w}[base[1:]]
            e = t.sext if base[0] == "s" else t.zext
            x, y = e(a[0], n), e(a[1], n)
            fn = {"add": t.add, "sub": t.sub, "mul": t.mul}[base[1:]]
            r = fn(x, y)
            lo = t.extract(r, w - 1, 0)
            return [lo, t.bnot(t.eq(e(lo, n), r))]
        if base == "x86" and "bextr" in name:
            w = a[0].w
            start = t.zext(t.extract(a[1], 7, 0), w)
            ln = t.zext(t.extract(a[1], 15, 8), w)
            v = t.lshr(a[0], start)
            m = t.sub(t.shl(t.const(1, w), ln), t.const(1, w))
            return t.band(v, m)
        if base == "fmuladd":
            ty = {16: "half", 32: "float", 64: "double"}[a[0].w]
            return self.fparith("fadd", self.fparith("fmul", a[0], a[1], ty), a[2], ty)
        if base in ("sqrt", "floor", "ceil", "trunc", "rint", "nearbyint", "round", "exp", "log", "pow", "maxnum",
                    "minnum"):
            self.fpops.add(base)
            return t.uf(base + str(a[0].w), a[0].w, a)
        raise Unsupported("intrinsic " + name)


class _Dead(object):
    pass


DEAD = _Dead()
BIN = set("add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem".split())
