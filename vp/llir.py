"""A reader for the subset of textual LLVM IR (18, opaque pointers) that clang
produces for this code base.  Anything unknown raises Unsupported."""
import re
import struct


class Unsupported(Exception):
    pass


TOK = re.compile(r'''\s*(?:(;.*)|(%"[^"]*"|%[-\w.$]+|@"[^"]*"|@[-\w.$]+)|(c"(?:[^"])*")|("(?:[^"\\]|\\.)*")|(!\w*(?:\.\w+)*)|(\#\d+)|(0x[KLMHR]?[0-9A-Fa-f]+)|(-?\d+(?:\.\d+)?(?:e[+-]?\d+)?)|(\.\.\.)|([A-Za-z_$][\w.$]*)|([()\[\]{}<>,=*:|]))''')


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise Unsupported("token: " + s[i:i + 40])
        i = m.end()
        if m.group(1) is not None:
            break
        out.append(m.group(m.lastindex))
    return out


# types: ('i',n) 'ptr' 'float' 'double' 'half' 'void' ('a',n,T) ('s',[T],packed) ('v',n,T) 'label' 'metadata'
class Module(object):
    def __init__(self, text):
        self.named = {}
        self.globals = {}
        self.funcs = {}      # name -> (header tokens line, body lines)
        self.decls = {}
        self.parsed = {}
        self._layout = {}
        self._read(text)

    def _read(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        self._gl = {}
        while i < n:
            l = lines[i]
            if l.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                self.funcs[m.group(1).strip('"')] = (l, lines[i + 1:j])
                i = j
            elif l.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                self.decls[m.group(1).strip('"')] = l
            elif l.startswith("@"):
                m = re.match(r'@("[^"]*"|[-\w.$]+) = ', l)
                self._gl[m.group(1).strip('"')] = l
            elif l.startswith("%"):
                m = re.match(r'(%"[^"]*"|%[-\w.$]+) = type (.*)$', l)
                if m:
                    self._gl.setdefault("", {})
                    self.named[m.group(1)] = m.group(2)
            i += 1
        for k, l in list(self._gl.items()):
            m = isinstance(l, str) and re.match(r'@("[^"]*"|[-\w.$]+) = .*\balias\b.*, ptr @("[^"]*"|[-\w.$]+)$', l)
            if m and m.group(2).strip('"') in self.funcs:
                self.funcs[k] = self.funcs[m.group(2).strip('"')]
                del self._gl[k]

    # -------------------------------------------------- types
    def resolve(self, name):
        t = self.named.get(name)
        if t is None:
            raise Unsupported("type " + name)
        if isinstance(t, str):
            if t.strip() == "opaque":
                raise Unsupported("opaque type")
            p = P(self, tokenize(t))
            t = p.type()
            self.named[name] = t
        return t

    def size(self, t):
        """(size, align) in bytes"""
        k = repr(t)
        r = self._layout.get(k)
        if r:
            return r
        if t == "ptr" or t == "double":
            r = (8, 8)
        elif t == "float":
            r = (4, 4)
        elif t == "half":
            r = (2, 2)
        elif t[0] == "i":
            n = t[1]
            b = (n + 7) // 8
            a = 1
            while a < b:
                a *= 2
            a = min(a, 16)
            r = (((b + a - 1) // a) * a, a)
        elif t[0] == "a":
            s, a = self.size(t[2])
            r = (s * t[1], a)
        elif t[0] == "s":
            o = 0
            ma = 1
            for x in t[1]:
                s, a = self.size(x)
                if t[2]:
                    a = 1
                ma = max(ma, a)
                o = (o + a - 1) // a * a + s
            o = (o + ma - 1) // ma * ma
            r = (o, ma)
        else:
            raise Unsupported("size of %r" % (t,))
        self._layout[k] = r
        return r

    def field(self, t, i):
        o = 0
        for k, x in enumerate(t[1]):
            s, a = self.size(x)
            if t[2]:
                a = 1
            o = (o + a - 1) // a * a
            if k == i:
                return o, x
            o += s
        raise Unsupported("field")

    # -------------------------------------------------- functions
    def func(self, name):
        f = self.parsed.get(name)
        if f is None:
            if name not in self.funcs:
                return None
            f = Func(self, name, *self.funcs[name])
            self.parsed[name] = f
        return f

    def header(self, name):
        if name in self.parsed:
            return self.parsed[name]
        if name in self.funcs:
            return Func(self, name, self.funcs[name][0], None)
        return None

    def glob(self, name):
        g = self.globals.get(name)
        if g is not None:
            return g
        l = self._gl.get(name)
        if l is None:
            return None
        toks = tokenize(l)
        p = P(self, toks)
        p.i = 2  # name =
        ext = False
        const = False
        while True:
            x = p.peek()
            if x in ("global", "constant"):
                const = x == "constant"
                p.i += 1
                break
            if x == "external":
                ext = True
            if x == "(":  # addrspace(..)
                while p.next() != ")":
                    pass
                continue
            p.i += 1
        t = p.type()
        init = None
        if not ext and p.more() and p.peek() != ",":
            init = p.value(t)
        g = (t, init, const)
        self.globals[name] = g
        return g


ATTRS_ARG = set("""noundef zeroext signext inreg nocapture nonnull readonly readnone writeonly noalias returned
immarg nofree dead_on_unwind writable swiftself nest allocptr captures""".split())


class P(object):
    def __init__(self, m, toks):
        self.m = m
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def more(self):
        return self.i < len(self.t)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise Unsupported("expected %s at %s" % (x, " ".join(self.t[max(0, self.i - 5):self.i + 5])))

    def type(self):
        x = self.next()
        if x == "void" or x in ("float", "double", "half", "label", "metadata", "ptr", "x86_fp80", "fp128", "token"):
            if x == "ptr" and self.peek() == "addrspace":
                self.i += 4
            r = x
        elif re.match(r"i\d+$", x):
            r = ("i", int(x[1:]))
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            r = ("a", n, e)
        elif x == "{":
            fs = []
            if not self.eat("}"):
                while True:
                    fs.append(self.type())
                    if self.eat("}"):
                        break
                    self.expect(",")
            r = ("s", tuple(fs), False)
        elif x == "<":
            if self.peek() == "{":
                self.i += 1
                fs = []
                if not self.eat("}"):
                    while True:
                        fs.append(self.type())
                        if self.eat("}"):
                            break
                        self.expect(",")
                self.expect(">")
                r = ("s", tuple(fs), True)
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                r = ("v", n, e)
        elif x[0] == "%":
            r = self.m.resolve(x)
        else:
            raise Unsupported("type token " + x)
        return r

    def skip_attrs(self):
        a = {}
        while self.more():
            x = self.peek()
            if x in ATTRS_ARG:
                a[x] = True
                self.i += 1
            elif x in ("align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "memory", "range",
                       "nofpclass", "elementtype", "initializes", "captures"):
                self.i += 1
                if self.peek() == "(":
                    d = 0
                    st = self.i
                    while True:
                        y = self.next()
                        if y == "(":
                            d += 1
                        elif y == ")":
                            d -= 1
                            if d == 0:
                                break
                    if x in ("byval", "sret"):
                        q = P(self.m, self.t[st + 1:self.i - 1])
                        nm = q.peek()
                        a[x] = (q.type(), nm)
                else:
                    self.i += 1
            else:
                break
        return a

    def value(self, t):
        x = self.next()
        if x[0] == "%":
            return ("l", x)
        if x[0] == "@":
            return ("g", x[1:].strip('"'))
        if x == "true":
            return ("c", 1)
        if x == "false":
            return ("c", 0)
        if x == "null":
            return ("null",)
        if x in ("undef", "poison"):
            return ("undef",)
        if x == "zeroinitializer":
            return ("zero",)
        if x.startswith("c\""):
            s = x[2:-1]
            b = bytearray()
            i = 0
            while i < len(s):
                if s[i] == "\\":
                    b.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(s[i]))
                    i += 1
            return ("str", bytes(b))
        if x in ("[", "{", "<"):
            close = {"[": "]", "{": "}", "<": ">"}[x]
            if x == "<" and self.peek() == "{":
                self.i += 1
                close = "}"
            vs = []
            if not self.eat(close):
                while True:
                    tt = self.type()
                    vs.append((tt, self.value(tt)))
                    if self.eat(close):
                        break
                    self.expect(",")
            if x == "<" and close == "}":
                self.expect(">")
            return ("agg", vs)
        if x == "getelementptr":
            inb = False
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                self.i += 1
            self.expect("(")
            bt = self.type()
            self.expect(",")
            args = self.tvlist(")")
            return ("ce_gep", bt, args)
        if x in ("bitcast", "ptrtoint", "inttoptr", "trunc", "zext", "sext"):
            self.expect("(")
            tt = self.type()
            v = self.value(tt)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("ce_cast", x, tt, v, t2)
        if x == "sub" or x == "add":
            raise Unsupported("const expr " + x)
        if t == "float" or t == "double" or t == "half":
            if x.startswith("0xH"):
                return ("c", int(x[3:], 16))
            if x.startswith("0x"):
                d = struct.unpack("<d", struct.pack("<Q", int(x, 16)))[0]
            else:
                d = float(x)
            if t == "double":
                return ("c", struct.unpack("<Q", struct.pack("<d", d))[0])
            if t == "float":
                try:
                    return ("c", struct.unpack("<I", struct.pack("<f", d))[0])
                except OverflowError:
                    raise Unsupported("float const")
            raise Unsupported("half const")
        if re.match(r"-?\d+$", x):
            return ("c", int(x))
        raise Unsupported("value " + x)

    def tvlist(self, close):
        r = []
        if self.eat(close):
            return r
        while True:
            t = self.type()
            a = self.skip_attrs()
            if t == "metadata":
                d = 0
                while True:
                    y = self.peek()
                    if y == "(":
                        d += 1
                    if y == ")":
                        if d == 0:
                            break
                        d -= 1
                    if y == "," and d == 0:
                        break
                    self.i += 1
                r.append((t, ("undef",), a))
            else:
                r.append((t, self.value(t), a))
            if self.eat(close):
                return r
            self.expect(",")


class Ins(object):
    __slots__ = ("op", "res", "t", "a", "b", "c", "x", "line")

    def __init__(self, op, res=None, t=None, a=None, b=None, c=None, x=None):
        self.op = op
        self.res = res
        self.t = t
        self.a = a
        self.b = b
        self.c = c
        self.x = x


BINOPS = set("add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem".split())
CASTS = set("trunc zext sext bitcast ptrtoint inttoptr fptoui fptosi uitofp sitofp fptrunc fpext".split())
FLAGS = set("nuw nsw exact disjoint nneg inbounds nusw fast nnan ninf nsz arcp contract afn reassoc".split())


class Func(object):
    def __init__(self, m, name, header, body):
        self.name = name
        self.m = m
        toks = tokenize(header)
        k = None
        for i, x in enumerate(toks):
            if x[0] == "@":
                k = i
                break
        # return type: parse from the left
        p = P(m, toks)
        p.i = 1
        while True:
            x = p.peek()
            if x in ("void", "ptr", "float", "double", "half", "{", "[", "<") or re.match(r"i\d+$", x) or x[0] == "%":
                break
            if x in ("align", "dereferenceable", "range", "nofpclass"):
                p.skip_attrs()
            else:
                p.i += 1
        self.ret = p.type()
        p.i = k + 2
        self.args = []
        if not p.eat(")"):
            while True:
                if p.eat("..."):
                    self.args.append(("...", None, {}))
                    p.expect(")")
                    break
                t = p.type()
                a = p.skip_attrs()
                nm = p.next() if p.peek()[0] == "%" else None
                self.args.append((t, nm, a))
                if p.eat(")"):
                    break
                p.expect(",")
        self.blocks = {}
        self.order = []
        if body is not None:
            self._body(body)

    def signature(self):
        def f(t, a):
            s = repr(t)
            for k in ("byval", "sret"):
                if k in a:
                    s += ":%s:%r" % (k, a[k][0])
            return s
        return (repr(self.ret),) + tuple(f(t, a) for t, n, a in self.args)

    def _body(self, lines):
        m = self.m
        # join multi-line switch
        out = []
        i = 0
        while i < len(lines):
            l = lines[i]
            if re.match(r"\s+switch ", l) and "]" not in l.split("[")[-1]:
                while not lines[i].strip().startswith("]"):
                    i += 1
                    l += " " + lines[i]
            out.append(l)
            i += 1
        cur = None
        # the entry block label: numbered after args
        nums = [int(n[1:]) for t, n, a in self.args if n and re.match(r"%\d+$", n)]
        entry = "%" + str(max(nums) + 1 if nums else 0)
        for l in out:
            if not l.strip():
                continue
            mm = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if mm:
                cur = "%" + mm.group(1)
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            if l.strip().startswith(";"):
                continue
            if cur is None:
                cur = entry
                self.blocks[cur] = []
                self.order.append(cur)
            ins = self._ins(l)
            if ins is not None:
                ins.line = l.strip()
                self.blocks[cur].append(ins)
        self.entry = self.order[0]
        self._cfg()

    def _ins(self, l):
        m = self.m
        toks = tokenize(l)
        p = P(m, toks)
        res = None
        if toks[0][0] == "%" and toks[1] == "=":
            res = toks[0]
            p.i = 2
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op in BINOPS:
            fl = set()
            while p.peek() in FLAGS:
                fl.add(p.next())
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return Ins(op, res, t, a, b, x=fl)
        if op in CASTS:
            while p.peek() in FLAGS:
                p.i += 1
            t = p.type()
            a = p.value(t)
            p.expect("to")
            return Ins(op, res, p.type(), a, t)
        if op in ("icmp", "fcmp"):
            while p.peek() in FLAGS:
                p.i += 1
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return Ins(op, res, t, a, b, x=pred)
        if op == "fneg":
            while p.peek() in FLAGS:
                p.i += 1
            t = p.type()
            return Ins(op, res, t, p.value(t))
        if op == "freeze":
            t = p.type()
            return Ins(op, res, t, p.value(t))
        if op == "br":
            if p.eat("label"):
                return Ins(op, a=None, b=p.next())
            p.type()
            a = p.value(("i", 1))
            p.expect(",")
            p.expect("label")
            b = p.next()
            p.expect(",")
            p.expect("label")
            return Ins(op, a=a, b=b, c=p.next())
        if op == "switch":
            t = p.type()
            a = p.value(t)
            p.expect(",")
            p.expect("label")
            d = p.next()
            p.expect("[")
            cs = []
            while not p.eat("]"):
                tt = p.type()
                v = p.value(tt)
                p.expect(",")
                p.expect("label")
                cs.append((v[1], p.next()))
            return Ins(op, t=t, a=a, b=d, c=cs)
        if op == "ret":
            t = p.type()
            return Ins(op, t=t, a=None if t == "void" else p.value(t))
        if op == "unreachable":
            return Ins(op)
        if op == "phi":
            while p.peek() in FLAGS:
                p.i += 1
            t = p.type()
            inc = []
            while True:
                p.expect("[")
                v = p.value(t)
                p.expect(",")
                lab = p.next()
                p.expect("]")
                inc.append((v, lab))
                if not p.eat(","):
                    break
                if p.peek() and p.peek()[0] == "!":
                    break
            return Ins(op, res, t, inc)
        if op == "select":
            while p.peek() in FLAGS:
                p.i += 1
            ct = p.type()
            c = p.value(ct)
            p.expect(",")
            t = p.type()
            a = p.value(t)
            p.expect(",")
            p.type()
            b = p.value(t)
            if ct != ("i", 1):
                raise Unsupported("vector select")
            return Ins(op, res, t, a, b, c)
        if op == "alloca":
            t = p.type()
            n = 1
            if p.eat(","):
                if p.peek() != "align":
                    tt = p.type()
                    n = p.value(tt)
                    if n[0] != "c":
                        raise Unsupported("dynamic alloca")
                    n = n[1]
            return Ins(op, res, t, n)
        if op == "load":
            if p.eat("atomic"):
                raise Unsupported("atomic")
            p.eat("volatile")
            t = p.type()
            p.expect(",")
            p.type()
            return Ins(op, res, t, p.value("ptr"))
        if op == "store":
            p.eat("volatile")
            t = p.type()
            v = p.value(t)
            p.expect(",")
            p.type()
            return Ins(op, None, t, v, p.value("ptr"))
        if op == "getelementptr":
            inb = False
            while p.peek() in FLAGS:
                inb = inb or p.peek() == "inbounds"
                p.i += 1
            bt = p.type()
            p.expect(",")
            idx = []
            while True:
                t = p.type()
                idx.append((t, p.value(t)))
                if not p.eat(","):
                    break
                if p.peek() and p.peek()[0] == "!":
                    break
            return Ins(op, res, bt, idx, x=inb)
        if op == "extractvalue":
            t = p.type()
            a = p.value(t)
            ix = []
            while p.eat(","):
                if p.peek()[0] == "!":
                    break
                ix.append(int(p.next()))
            return Ins(op, res, t, a, ix)
        if op == "insertvalue":
            t = p.type()
            a = p.value(t)
            p.expect(",")
            t2 = p.type()
            b = p.value(t2)
            ix = []
            while p.eat(","):
                if p.peek()[0] == "!":
                    break
                ix.append(int(p.next()))
            return Ins(op, res, t, a, (t2, b), ix)
        if op == "call":
            while p.peek() in FLAGS or p.peek() in ("fastcc", "ccc", "coldcc"):
                p.i += 1
            p.skip_attrs()
            t = p.type()
            p.skip_attrs()
            if p.peek() == "(":  # varargs function type
                d = 0
                while True:
                    y = p.next()
                    if y == "(":
                        d += 1
                    elif y == ")":
                        d -= 1
                        if d == 0:
                            break
            if p.peek() == "asm":
                raise Unsupported("inline asm")
            f = p.next()
            p.expect("(")
            args = p.tvlist(")")
            return Ins(op, res, t, f, args)
        return Ins("unsupported", res, x=op)

    def _succ(self, b):
        i = self.blocks[b][-1]
        if i.op == "br":
            return [i.b] if i.a is None else ([i.b, i.c] if i.b != i.c else [i.b])
        if i.op == "switch":
            r = []
            for x in [i.b] + [l for v, l in i.c]:
                if x not in r:
                    r.append(x)
            return r
        return []

    def _cfg(self):
        self.succ = {b: self._succ(b) for b in self.order}
        # DFS: postorder, back edges
        post = []
        color = {}
        self.back = set()
        st = [(self.entry, 0)]
        color[self.entry] = 1
        while st:
            b, k = st[-1]
            s = self.succ[b]
            if k < len(s):
                st[-1] = (b, k + 1)
                y = s[k]
                c = color.get(y, 0)
                if c == 0:
                    color[y] = 1
                    st.append((y, 0))
                elif c == 1:
                    self.back.add((b, y))
            else:
                color[b] = 2
                post.append(b)
                st.pop()
        self.rpo = post[::-1]
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for y in self.succ[b]:
                self.pred[y].append(b)
        # natural loops
        self.loops = {}
        for (u, h) in self.back:
            body = self.loops.setdefault(h, {h})
            st = [u]
            while st:
                x = st.pop()
                if x not in body:
                    body.add(x)
                    st.extend(self.pred[x])
        for h, body in self.loops.items():
            for x in body:
                if x != h:
                    for q in self.pred[x]:
                        if q not in body:
                            raise Unsupported("irreducible loop")
