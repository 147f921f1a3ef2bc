"""Hash-consed bit-vector terms with constant folding.

A term is an instance of T: op, width, args (terms), val (payload: constant
value, variable name, extract (hi,lo), uf name).  Booleans are width-1 terms.
"""


class T(object):
    __slots__ = ("op", "w", "args", "val", "id")

    def __repr__(self):
        if self.op == "const":
            return "0x%x:%d" % (self.val, self.w)
        if self.op == "var":
            return self.val
        return "(%s%s %s)" % (self.op, "" if self.val is None else ":" + str(self.val),
                              " ".join(map(repr, self.args)))


_tab = {}
_next = [0]


def reset():
    _tab.clear()
    _umax.clear()
    _tz.clear()
    _kb.clear()
    _next[0] = 0


def mk(op, w, args=(), val=None):
    key = (op, w, val) + tuple(a.id for a in args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.args = args
        t.val = val
        t.id = _next[0]
        _next[0] += 1
        _tab[key] = t
    return t


def const(v, w):
    return mk("const", w, (), v & ((1 << w) - 1))


def var(name, w):
    return mk("var", w, (), name)


def true():
    return const(1, 1)


def false():
    return const(0, 1)


def isc(t):
    return t.op == "const"


def sval(t):
    v = t.val
    return v - (1 << t.w) if v >> (t.w - 1) else v


def ones(w):
    return (1 << w) - 1


# ---------------------------------------------------------------- booleans
def bnot(a):
    return bxor(a, const(ones(a.w), a.w))


def band(a, b):
    if a is b:
        return a
    if isc(a) and isc(b):
        return const(a.val & b.val, a.w)
    if isc(a):
        a, b = b, a
    if isc(b):
        if b.val == 0:
            return b
        if b.val == ones(b.w):
            return a
        if a.op == "and" and isc(a.args[1]):
            return band(a.args[0], const(a.args[1].val & b.val, a.w))
        if a.w > 1:
            z, o1 = kb(a)
            if ones(a.w) & ~(b.val | z) == 0:
                return a
            if b.val & ~z == 0:
                return const(0, a.w)
            if b.val & ~o1 == 0:
                return b
        # contiguous masks: a field of a, in place
        if a.w > 1:
            l = (b.val & -b.val).bit_length() - 1
            k = b.val.bit_length()
            if b.val == ones(k) & ~ones(l):
                x = extract(a, k - 1, l)
                if l:
                    x = concat(x, const(0, l))
                return zext(x, a.w)
    if a.w == 1:
        if _isneg(a, b):
            return false()
        # and(a, and(a,x))
        if b.op == "and" and (b.args[0] is a or b.args[1] is a):
            return b
        if a.op == "and" and (a.args[0] is b or a.args[1] is b):
            return a
        # a & !(a & x) -> a & !x ; a & (!a | x)
        for x, y in ((a, b), (b, a)):
            if y.op == "xor" and isc(y.args[1]) and y.args[1].val == 1:
                z = y.args[0]
                if z.op == "and":
                    if z.args[0] is x:
                        return band(x, bnot(z.args[1]))
                    if z.args[1] is x:
                        return band(x, bnot(z.args[0]))
            if y.op == "or":
                if y.args[0] is x or y.args[1] is x:
                    return x
                if _isneg(y.args[0], x):
                    return band(x, y.args[1])
                if _isneg(y.args[1], x):
                    return band(x, y.args[0])
        for x, y in ((a, b), (b, a)):
            z = _under(y, x.args[0], 0) if x.op == "xor" and isc(x.args[1]) else _under(y, x, 1)
            if z is not y:
                return band(x, z)
    if not isc(b) and a.id > b.id:
        a, b = b, a
    return mk("and", a.w, (a, b))


def _under(t, c, v, depth=3):
    """t where the boolean c is known to be v"""
    if t is c:
        return const(v, 1)
    if depth == 0 or not t.args:
        return t
    if t.op == "ite" and t.args[0] is c:
        return _under(t.args[1] if v else t.args[2], c, v, depth - 1)
    if t.op == "eq":
        a, b = (_under(x, c, v, depth - 1) for x in t.args)
        return eq(a, b) if a is not t.args[0] or b is not t.args[1] else t
    if t.op == "xor" and t.w == 1 and isc(t.args[1]):
        a = _under(t.args[0], c, v, depth - 1)
        return bnot(a) if a is not t.args[0] else t
    if t.op == "and" and t.w == 1:
        a, b = (_under(x, c, v, depth - 1) for x in t.args)
        return band(a, b) if a is not t.args[0] or b is not t.args[1] else t
    if t.op == "or" and t.w == 1:
        a, b = (_under(x, c, v, depth - 1) for x in t.args)
        return bor(a, b) if a is not t.args[0] or b is not t.args[1] else t
    return t


def _isneg(a, b):
    return (b.op == "xor" and b.args[0] is a and isc(b.args[1]) and b.args[1].val == ones(b.w)) or \
           (a.op == "xor" and a.args[0] is b and isc(a.args[1]) and a.args[1].val == ones(a.w))


def bor(a, b):
    if a is b:
        return a
    if isc(a) and isc(b):
        return const(a.val | b.val, a.w)
    if isc(a):
        a, b = b, a
    if isc(b):
        if b.val == 0:
            return a
        if b.val == ones(b.w):
            return b
        if a.w > 1:
            z, o1 = kb(a)
            if b.val & ~o1 == 0:
                return a
    if a.w == 1:
        if _isneg(a, b):
            return true()
        for x, y in ((a, b), (b, a)):
            if y.op == "or" and (y.args[0] is x or y.args[1] is x):
                return y
            if y.op == "and":
                if y.args[0] is x or y.args[1] is x:
                    return x
                if _isneg(y.args[0], x):
                    return bor(x, y.args[1])
                if _isneg(y.args[1], x):
                    return bor(x, y.args[0])
        for x, y in ((a, b), (b, a)):
            z = _under(y, x.args[0], 1) if x.op == "xor" and isc(x.args[1]) else _under(y, x, 0)
            if z is not y:
                return bor(x, z)
        # (a & c) | (b & !c) with a&c, a&!c -> a
        if a.op == "and" and b.op == "and":
            for i in (0, 1):
                for j in (0, 1):
                    if a.args[i] is b.args[j] and _isneg(a.args[1 - i], b.args[1 - j]):
                        return a.args[i]
    if not isc(b) and a.id > b.id:
        a, b = b, a
    return mk("or", a.w, (a, b))


def bxor(a, b):
    if a is b:
        return const(0, a.w)
    if isc(a) and isc(b):
        return const(a.val ^ b.val, a.w)
    if isc(a):
        a, b = b, a
    if isc(b):
        if b.val == 0:
            return a
        if a.op == "xor" and isc(a.args[1]):
            return bxor(a.args[0], const(a.args[1].val ^ b.val, a.w))
        if a.op == "ite" and (isc(a.args[1]) or isc(a.args[2])) and a.w > 1:
            return ite(a.args[0], bxor(a.args[1], b), bxor(a.args[2], b))
    if not isc(b) and a.id > b.id:
        a, b = b, a
    return mk("xor", a.w, (a, b))


def implies(a, b):
    return bor(bnot(a), b)


def ite(c, a, b):
    assert c.w == 1 and a.w == b.w, (c.w, a.w, b.w)
    if isc(c):
        return a if c.val else b
    if a is b:
        return a
    if c.op == "xor" and isc(c.args[1]):  # not
        return ite(c.args[0], b, a)
    if a.w == 1:
        if isc(a):
            return bor(c, b) if a.val else band(bnot(c), b)
        if isc(b):
            return bor(bnot(c), a) if b.val else band(c, a)
        if a is c:
            return bor(c, b)
        if b is c:
            return band(c, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if b.op == "ite" and b.args[1] is a:  # ite(c,a,ite(d,a,x))
        return ite(bor(c, b.args[0]), a, b.args[2])
    if a.op == "ite" and a.args[2] is b:  # ite(c, ite(d,x,b), b)
        return ite(band(c, a.args[0]), a.args[1], b)
    return mk("ite", a.w, (c, a, b))


# ---------------------------------------------------------------- arithmetic
def add(a, b):
    if isc(a) and isc(b):
        return const(a.val + b.val, a.w)
    if isc(a):
        a, b = b, a
    if isc(b):
        if b.val == 0:
            return a
        if a.op == "add" and isc(a.args[1]):
            return add(a.args[0], const(a.args[1].val + b.val, a.w))
        if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]):
            return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    if b.op == "neg":
        return sub(a, b.args[0])
    if a.op == "neg":
        return sub(b, a.args[0])
    if not isc(b) and a.id > b.id:
        a, b = b, a
    return mk("add", a.w, (a, b))


def neg(a):
    if isc(a):
        return const(-a.val, a.w)
    if a.op == "neg":
        return a.args[0]
    if a.op == "sub":
        return sub(a.args[1], a.args[0])
    return mk("neg", a.w, (a,))


def sub(a, b):
    if a is b:
        return const(0, a.w)
    if isc(b):
        return add(a, const(-b.val, a.w))
    if isc(a) and a.val == 0:
        return neg(b)
    if b.op == "neg":
        return add(a, b.args[0])
    return mk("sub", a.w, (a, b))


_tz = {}


def tz(t):
    """a lower bound on the number of trailing zero bits of t"""
    r = _tz.get(t.id)
    if r is not None:
        return r
    o = t.op
    if o == "const":
        r = t.w if t.val == 0 else (t.val & -t.val).bit_length() - 1
    elif o == "shl":
        r = tz(t.args[0])
        if isc(t.args[1]):
            r = min(t.w, r + t.args[1].val)
    elif o == "concat":
        r = tz(t.args[1])
        if r == t.args[1].w:
            r += tz(t.args[0])
    elif o == "zext":
        r = tz(t.args[0])
        if r == t.args[0].w:
            r = t.w
    elif o == "sext":
        r = tz(t.args[0])
        if r == t.args[0].w:
            r = t.w
    elif o == "ite":
        r = min(tz(t.args[1]), tz(t.args[2]))
    elif o in ("or", "xor", "add", "sub"):
        r = min(tz(t.args[0]), tz(t.args[1]))
    elif o == "neg":
        r = tz(t.args[0])
    elif o == "and":
        r = max(tz(t.args[0]), tz(t.args[1]))
    elif o == "mul":
        r = min(t.w, tz(t.args[0]) + tz(t.args[1]))
    elif o == "extract":
        r = max(0, tz(t.args[0]) - t.val[1])
        r = min(r, t.w)
    elif o == "lshr" and isc(t.args[1]):
        r = max(0, tz(t.args[0]) - t.args[1].val)
    else:
        r = 0
    _tz[t.id] = r
    return r


def mul(a, b):
    if isc(a) and isc(b):
        return const(a.val * b.val, a.w)
    if isc(a):
        a, b = b, a
    w = a.w
    if isc(b):
        if b.val == 0:
            return b
        if b.val == 1:
            return a
        if b.val & (b.val - 1) == 0:
            return shl(a, const(b.val.bit_length() - 1, w))
    # strip known trailing zeros and leading zeros: canonical narrow product
    za, zb = tz(a), tz(b)
    if za + zb > 0:
        if za + zb >= w:
            return const(0, w)
        x = extract(a, w - 1, za)
        y = extract(b, w - 1, zb)
        n = w - za - zb
        x = zext(x, n) if x.w < n else extract(x, n - 1, 0)
        y = zext(y, n) if y.w < n else extract(y, n - 1, 0)
        return concat(mul(x, y), const(0, za + zb))
    la, lb = umax(a).bit_length(), umax(b).bit_length()
    if la + lb < w:
        n = max(la + lb, 1)
        return zext(mul(extract(a, n - 1, 0), extract(b, n - 1, 0)), w)
    if not isc(b) and a.id > b.id:
        a, b = b, a
    return mk("mul", w, (a, b))


def udiv(a, b):
    if isc(a) and isc(b) and b.val:
        return const(a.val // b.val, a.w)
    if isc(b) and b.val and b.val & (b.val - 1) == 0:
        return lshr(a, const(b.val.bit_length() - 1, a.w))
    return mk("udiv", a.w, (a, b))


def urem(a, b):
    if isc(a) and isc(b) and b.val:
        return const(a.val % b.val, a.w)
    if isc(b) and b.val and b.val & (b.val - 1) == 0:
        return band(a, const(b.val - 1, a.w))
    return mk("urem", a.w, (a, b))


def sdiv(a, b):
    if isc(a) and isc(b) and b.val:
        x, y = sval(a), sval(b)
        q = abs(x) // abs(y)
        return const(-q if (x < 0) != (y < 0) else q, a.w)
    return mk("sdiv", a.w, (a, b))


def srem(a, b):
    if isc(a) and isc(b) and b.val:
        x, y = sval(a), sval(b)
        r = abs(x) % abs(y)
        return const(-r if x < 0 else r, a.w)
    return mk("srem", a.w, (a, b))


# ---------------------------------------------------------------- shifts
def _const_leaf_ite(t):
    return t.op == "ite" and isc(t.args[1]) and isc(t.args[2])


def shl(a, b):
    w = a.w
    if isc(b):
        n = b.val
        if n == 0:
            return a
        if n >= w:
            return const(0, w)
        if isc(a):
            return const(a.val << n, w)
        return concat(extract(a, w - 1 - n, 0), const(0, n))
    if isc(a) and a.val == 0:
        return a
    if _const_leaf_ite(b):
        return ite(b.args[0], shl(a, b.args[1]), shl(a, b.args[2]))
    return mk("shl", w, (a, b))


def lshr(a, b):
    w = a.w
    if isc(b):
        n = b.val
        if n == 0:
            return a
        if n >= w:
            return const(0, w)
        if isc(a):
            return const(a.val >> n, w)
        return zext(extract(a, w - 1, n), w)
    if isc(a) and a.val == 0:
        return a
    if _const_leaf_ite(b):
        return ite(b.args[0], lshr(a, b.args[1]), lshr(a, b.args[2]))
    return mk("lshr", w, (a, b))


def ashr(a, b):
    w = a.w
    if isc(b):
        n = min(b.val, w - 1)
        if n == 0:
            return a
        if isc(a):
            return const(sval(a) >> n, w)
        return sext(extract(a, w - 1, n), w)
    if isc(a) and a.val == 0:
        return a
    if umax(a) < (1 << (w - 1)):
        return lshr(a, b)
    if _const_leaf_ite(b):
        return ite(b.args[0], ashr(a, b.args[1]), ashr(a, b.args[2]))
    return mk("ashr", w, (a, b))


# ---------------------------------------------------------------- structure
def concat(hi, lo):
    w = hi.w + lo.w
    if isc(hi) and isc(lo):
        return const((hi.val << lo.w) | lo.val, w)
    if isc(hi) and hi.val == 0:
        return zext(lo, w)
    if hi.op == "extract" and lo.op == "extract" and hi.args[0] is lo.args[0] and hi.val[1] == lo.val[0] + 1:
        return extract(hi.args[0], hi.val[0], lo.val[1])
    if hi.op == "zext":
        return zext(concat(hi.args[0], lo), w)
    # right-assoc merge of extracts: concat(x, concat(y,z)) with x,y adjacent
    if lo.op == "concat" and hi.op == "extract" and lo.args[0].op == "extract" and \
            hi.args[0] is lo.args[0].args[0] and hi.val[1] == lo.args[0].val[0] + 1:
        return concat(extract(hi.args[0], hi.val[0], lo.args[0].val[1]), lo.args[1])
    if lo.op == "concat" and isc(hi) and isc(lo.args[0]):
        return concat(concat(hi, lo.args[0]), lo.args[1])
    if hi.op == "concat":  # normalise to right-assoc
        return concat(hi.args[0], concat(hi.args[1], lo))
    # pieces of one choice
    if hi.op == "ite":
        if lo.op == "ite" and lo.args[0] is hi.args[0]:
            return ite(hi.args[0], concat(hi.args[1], lo.args[1]), concat(hi.args[2], lo.args[2]))
        if lo.op == "concat" and lo.args[0].op == "ite" and lo.args[0].args[0] is hi.args[0]:
            x = lo.args[0]
            return concat(ite(hi.args[0], concat(hi.args[1], x.args[1]), concat(hi.args[2], x.args[2])), lo.args[1])
    return mk("concat", w, (hi, lo))


def extract(a, hi, lo):
    n = hi - lo + 1
    assert 0 <= lo <= hi < a.w, (a.w, hi, lo)
    if n == a.w:
        return a
    o = a.op
    if o == "const":
        return const(a.val >> lo, n)
    if o == "extract":
        return extract(a.args[0], hi + a.val[1], lo + a.val[1])
    if o == "concat":
        l = a.args[1]
        if hi < l.w:
            return extract(l, hi, lo)
        if lo >= l.w:
            return extract(a.args[0], hi - l.w, lo - l.w)
        return concat(extract(a.args[0], hi - l.w, 0), extract(l, l.w - 1, lo))
    if o == "zext":
        x = a.args[0]
        if lo >= x.w:
            return const(0, n)
        if hi < x.w:
            return extract(x, hi, lo)
        return zext(extract(x, x.w - 1, lo), n)
    if o == "sext":
        x = a.args[0]
        if hi < x.w:
            return extract(x, hi, lo)
        if lo < x.w:
            return sext(extract(x, x.w - 1, lo), n)
        return sext(extract(x, x.w - 1, x.w - 1), n)
    if o == "ite" and (isc(a.args[1]) or isc(a.args[2])):
        return ite(a.args[0], extract(a.args[1], hi, lo), extract(a.args[2], hi, lo))
    if o in ("and", "or", "xor"):
        f = {"and": band, "or": bor, "xor": bxor}[o]
        return f(extract(a.args[0], hi, lo), extract(a.args[1], hi, lo))
    if lo == 0 and o in ("add", "sub", "mul", "neg"):
        f = {"add": add, "sub": sub, "mul": mul, "neg": neg}[o]
        return f(*[extract(x, hi, 0) for x in a.args])
    if o == "ite":
        return ite(a.args[0], extract(a.args[1], hi, lo), extract(a.args[2], hi, lo))
    return mk("extract", n, (a,), (hi, lo))


def zext(a, w):
    if a.w == w:
        return a
    assert w > a.w, (w, a.w)
    if isc(a):
        return const(a.val, w)
    if a.op == "zext":
        return zext(a.args[0], w)
    if a.op == "ite" and (isc(a.args[1]) or isc(a.args[2])):
        return ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w))
    return mk("zext", w, (a,))


def sext(a, w):
    if a.w == w:
        return a
    assert w > a.w
    if isc(a):
        return const(sval(a), w)
    if a.op == "sext":
        return sext(a.args[0], w)
    if a.op == "zext":
        return zext(a.args[0], w)
    if a.op == "ite" and (isc(a.args[1]) or isc(a.args[2])):
        return ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w))
    if umax(a) < (1 << (a.w - 1)):
        return zext(a, w)
    return mk("sext", w, (a,))


def trunc(a, w):
    return extract(a, w - 1, 0)


# ---------------------------------------------------------------- compare
_umax = {}


def umax(t, depth=0):
    """an upper bound of t as an unsigned number"""
    r = _umax.get(t.id)
    if r is not None:
        return r
    o = t.op
    m = ones(t.w) & ~kb(t)[0]
    if o == "const":
        r = t.val
    elif depth > 60:
        return m
    elif o == "zext":
        r = umax(t.args[0], depth + 1)
    elif o == "ite":
        r = max(umax(t.args[1], depth + 1), umax(t.args[2], depth + 1))
    elif o == "and":
        r = min(umax(t.args[0], depth + 1), umax(t.args[1], depth + 1))
    elif o in ("or", "xor"):
        r = ones(max(umax(t.args[0], depth + 1).bit_length(), umax(t.args[1], depth + 1).bit_length()))
    elif o == "add":
        r = min(m, umax(t.args[0], depth + 1) + umax(t.args[1], depth + 1))
    elif o == "lshr":
        r = umax(t.args[0], depth + 1)
        if isc(t.args[1]):
            r >>= t.args[1].val
    elif o == "concat":
        r = (umax(t.args[0], depth + 1) << t.args[1].w) | umax(t.args[1], depth + 1)
    elif o == "udiv" and isc(t.args[1]) and t.args[1].val:
        r = umax(t.args[0], depth + 1) // t.args[1].val
    elif o == "urem" and isc(t.args[1]) and t.args[1].val:
        r = t.args[1].val - 1
    elif o == "extract" and t.val[1] == 0:
        r = min(m, umax(t.args[0], depth + 1))
    elif o == "extract":
        r = min(m, umax(t.args[0], depth + 1) >> t.val[1])
    elif o == "mul":
        r = min(m, umax(t.args[0], depth + 1) * umax(t.args[1], depth + 1))
    else:
        r = m
    r = min(r, m)
    _umax[t.id] = r
    return r


_kb = {}


def kb(t, depth=0):
    """(bits known to be zero, bits known to be one)"""
    r = _kb.get(t.id)
    if r is not None:
        return r
    o = t.op
    m = ones(t.w)
    if o == "const":
        return (m & ~t.val, t.val)
    if o in ("var", "uf", "eq", "ult", "slt") or depth > 60:
        return (0, 0)
    A = t.args
    d = depth + 1
    z = o1 = 0
    if o == "and":
        (a, b), (c, e) = kb(A[0], d), kb(A[1], d)
        z, o1 = a | c, b & e
    elif o == "or":
        (a, b), (c, e) = kb(A[0], d), kb(A[1], d)
        z, o1 = a & c, b | e
    elif o == "xor":
        (a, b), (c, e) = kb(A[0], d), kb(A[1], d)
        z, o1 = (a & c) | (b & e), (a & e) | (b & c)
    elif o == "ite":
        (a, b), (c, e) = kb(A[1], d), kb(A[2], d)
        z, o1 = a & c, b & e
    elif o == "concat":
        (a, b), (c, e) = kb(A[0], d), kb(A[1], d)
        z, o1 = (a << A[1].w) | c, (b << A[1].w) | e
    elif o == "extract":
        a, b = kb(A[0], d)
        z, o1 = (a >> t.val[1]) & m, (b >> t.val[1]) & m
    elif o == "zext":
        a, b = kb(A[0], d)
        z, o1 = a | (m & ~ones(A[0].w)), b
    elif o == "sext":
        a, b = kb(A[0], d)
        hi = m & ~ones(A[0].w)
        s = A[0].w - 1
        z, o1 = a | (hi if a >> s & 1 else 0), b | (hi if b >> s & 1 else 0)
    elif o == "lshr":
        a, b = kb(A[0], d)
        lead = t.w - (m & ~a).bit_length()
        z = m & ~(m >> lead)
    elif o == "shl":
        z = ones(tz(A[0]))
    elif o in ("add", "sub"):
        n = min(tz(A[0]), tz(A[1]))
        z = ones(n)
        if o == "add":
            ma, mb = m & ~kb(A[0], d)[0], m & ~kb(A[1], d)[0]
            if ma + mb <= m:
                z |= m & ~ones((ma + mb).bit_length())
    elif o == "urem" and isc(A[1]) and A[1].val:
        z = m & ~ones((A[1].val - 1).bit_length())
    elif o == "ctlz":
        z = m & ~ones(t.w.bit_length())
    elif o == "mul":
        ma, mb = m & ~kb(A[0], d)[0], m & ~kb(A[1], d)[0]
        if ma * mb <= m:
            z = m & ~ones((ma * mb).bit_length())
    if depth < 30:
        _kb[t.id] = (z, o1)
    return (z, o1)


def srange(t):
    """signed bounds from known bits"""
    z, o = kb(t)
    s = 1 << (t.w - 1)
    m = ones(t.w)
    lo = o | (s if not z & s else 0)
    hi = m & ~z
    if not o & s:
        hi &= ~s
    f = lambda v: v - (1 << t.w) if v & s else v
    return f(lo), f(hi)


def eq(a, b):
    if a is b:
        return true()
    if isc(a) and isc(b):
        return const(int(a.val == b.val), 1)
    if isc(a):
        a, b = b, a
    if a.w == 1:
        if isc(b):
            return a if b.val else bnot(a)
        return bnot(bxor(a, b))
    (za, oa), (zb, ob) = kb(a), kb(b)
    if za & ob or zb & oa:
        return false()
    if isc(b):
        if b.val > umax(a):
            return false()
        if b.val and tz(a) > tz(b):
            return false()
        if a.op == "ite":
            x, y = a.args[1], a.args[2]
            if isc(x) or isc(y) or x.op == "ite" or y.op == "ite":
                if _itedepth(a, 12):
                    return ite(a.args[0], eq(x, b), eq(y, b))
        if a.op == "zext":
            x = a.args[0]
            return eq(x, const(b.val, x.w)) if b.val >> x.w == 0 else false()
        if a.op == "sext":
            x = a.args[0]
            if sext(const(b.val, x.w), a.w) is b:
                return eq(x, const(b.val, x.w))
            return false()
        if a.op == "add" and isc(a.args[1]):
            return eq(a.args[0], const(b.val - a.args[1].val, a.w))
        if a.op == "xor" and isc(a.args[1]):
            return eq(a.args[0], const(b.val ^ a.args[1].val, a.w))
        if a.op == "neg":
            return eq(a.args[0], const(-b.val, a.w))
        if a.op == "concat":
            l = a.args[1]
            return band(eq(a.args[0], const(b.val >> l.w, a.args[0].w)), eq(l, const(b.val, l.w)))
    elif a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w:
        return eq(a.args[0], b.args[0])
    elif a.op == "sext" and b.op == "sext" and a.args[0].w == b.args[0].w:
        return eq(a.args[0], b.args[0])
    elif a.op == "ite" and b.op == "ite":
        c, x, y = a.args
        d, u, v = b.args
        if c is d:
            if x is u:
                return bor(c, eq(y, v))
            if y is v:
                return bor(bnot(c), eq(x, u))
            return ite(c, eq(x, u), eq(y, v))
        if x is u and y is v:
            return bor(bnot(bxor(c, d)), eq(x, y))
    elif a.op == "neg" and b.op == "neg":
        return eq(a.args[0], b.args[0])
    if not isc(b) and a.id > b.id:
        a, b = b, a
    return mk("eq", 1, (a, b))


def _itedepth(t, n):
    """t is an ite tree of few leaves"""
    st = [t]
    c = 0
    while st:
        x = st.pop()
        c += 1
        if c > n:
            return False
        if x.op == "ite":
            st.append(x.args[1])
            st.append(x.args[2])
    return True


def ult(a, b):
    if a is b:
        return false()
    if isc(a) and isc(b):
        return const(int(a.val < b.val), 1)
    (za, oa), (zb, ob) = kb(a), kb(b)
    m = ones(a.w)
    if m & ~za < ob:
        return true()
    if oa >= m & ~zb:
        return false()
    if isc(b):
        if b.val == 0:
            return false()
        if umax(a) < b.val:
            return true()
        if _const_leaf_ite(a):
            return ite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
        if b.val == 1:
            return eq(a, const(0, a.w))
    if isc(a):
        if a.val >= umax(b):
            return false()
        if _const_leaf_ite(b):
            return ite(b.args[0], ult(a, b.args[1]), ult(a, b.args[2]))
        if a.val == 0:
            return bnot(eq(b, a))
    return mk("ult", 1, (a, b))


def ule(a, b):
    return bnot(ult(b, a))


def slt(a, b):
    if a is b:
        return false()
    if isc(a) and isc(b):
        return const(int(sval(a) < sval(b)), 1)
    h = 1 << (a.w - 1)
    if isc(b) and b.val == 0:
        # sign bit
        return extract(a, a.w - 1, a.w - 1)
    if isc(a) and a.val == ones(a.w):
        return bnot(extract(b, b.w - 1, b.w - 1))
    la, ha = srange(a)
    lb, hb = srange(b)
    if ha < lb:
        return true()
    if la >= hb:
        return false()
    if umax(a) < h and umax(b) < h:
        return ult(a, b)
    if la >= 0 and lb >= 0:
        return ult(a, b)
    if _const_leaf_ite(a) and isc(b):
        return ite(a.args[0], slt(a.args[1], b), slt(a.args[2], b))
    if _const_leaf_ite(b) and isc(a):
        return ite(b.args[0], slt(a, b.args[1]), slt(a, b.args[2]))
    if a.op == "sext" and b.op == "sext" and a.args[0].w == b.args[0].w:
        return slt(a.args[0], b.args[0])
    return mk("slt", 1, (a, b))


def sle(a, b):
    return bnot(slt(b, a))


def uf(name, w, args):
    return mk("uf", w, tuple(args), name)


def ctlz(a):
    """leading zero count (w for zero)"""
    w = a.w
    if isc(a):
        return const(w - a.val.bit_length(), w)
    if a.op == "zext":
        x = a.args[0]
        return add(zext(ctlz(x), w) if x.w >= 7 or (1 << x.w) > x.w else _clz_small(x, w), const(w - x.w, w))
    return mk("ctlz", w, (a,))


def _clz_small(x, w):
    r = const(x.w, w)
    for i in range(x.w):
        r = ite(extract(x, i, i), const(x.w - 1 - i, w), r)
    return r


def topo(roots):
    """all terms below roots, children first"""
    seen = set()
    out = []
    for r in roots:
        st = [(r, 0)]
        while st:
            t, i = st.pop()
            if i == 0:
                if t.id in seen:
                    continue
                seen.add(t.id)
            if i < len(t.args):
                st.append((t, i + 1))
                if t.args[i].id not in seen:
                    st.append((t.args[i], 0))
            else:
                out.append(t)
    return out


def evaluate(root, env, ufs=None):
    """concrete value of root; env: var name -> int"""
    val = {}
    for t in topo([root]):
        val[t.id] = eval1(t, [val[x.id] for x in t.args], env, ufs)
    return val[root.id]


def eval1(t, a, env, ufs=None):
    """value of one term, given its arguments' values"""
    o, w = t.op, t.w
    m = ones(w)
    if o == "const":
        v = t.val
    elif o == "var":
        v = env.get(t.val, 0) & m
    elif o == "uf":
        v = ufs[t.val](*a) & m if ufs and t.val in ufs else 0
    else:
        ws = [x.w for x in t.args]
        sg = lambda i: a[i] - (1 << ws[i]) if a[i] >> (ws[i] - 1) else a[i]
        if o == "and": v = a[0] & a[1]
        elif o == "or": v = a[0] | a[1]
        elif o == "xor": v = a[0] ^ a[1]
        elif o == "ite": v = a[1] if a[0] else a[2]
        elif o == "add": v = a[0] + a[1]
        elif o == "sub": v = a[0] - a[1]
        elif o == "neg": v = -a[0]
        elif o == "mul": v = a[0] * a[1]
        elif o == "udiv": v = a[0] // a[1] if a[1] else m
        elif o == "urem": v = a[0] % a[1] if a[1] else a[0]
        elif o == "sdiv":
            v = sdiv(t.args[0] if False else const(a[0], w), const(a[1], w)).val if a[1] else m
        elif o == "srem":
            v = srem(const(a[0], w), const(a[1], w)).val if a[1] else a[0]
        elif o == "shl": v = a[0] << a[1] if a[1] < w else 0
        elif o == "lshr": v = a[0] >> a[1] if a[1] < w else 0
        elif o == "ashr": v = sg(0) >> min(a[1], w - 1)
        elif o == "concat": v = (a[0] << ws[1]) | a[1]
        elif o == "extract": v = a[0] >> t.val[1]
        elif o == "zext": v = a[0]
        elif o == "sext": v = sg(0)
        elif o == "eq": v = int(a[0] == a[1])
        elif o == "ult": v = int(a[0] < a[1])
        elif o == "slt": v = int(sg(0) < sg(1))
        elif o == "ctlz": v = w - a[0].bit_length()
        else:
            raise ValueError(o)
    return v & m
