"""Randomised self-test of the term simplifier against direct evaluation."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import terms as t
random.seed(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
ops2 = ['band', 'bor', 'bxor', 'add', 'sub', 'mul', 'udiv', 'urem', 'shl', 'lshr', 'ashr', 'sdiv', 'srem']
raw = {'band': 'and', 'bor': 'or', 'bxor': 'xor'}


def rnd(d, w):
    r = random.random()
    if d == 0 or r < .1:
        if random.random() < .4:
            c = random.choice([0, 1, 2, (1 << w) - 1, 1 << (w - 1), random.getrandbits(w)]) & ((1 << w) - 1)
            return t.const(c, w), lambda env, c=c: c
        n = random.choice('abc') + str(w)
        return t.var(n, w), lambda env, n=n: env[n]
    k = random.choice(['bin'] * 5 + ['ite', 'zext', 'sext', 'ext', 'cat', 'neg', 'clz'])
    m = (1 << w) - 1
    if k == 'bin':
        o = random.choice(ops2)
        a, fa = rnd(d - 1, w)
        b, fb = rnd(d - 1, w)
        base = t.mk(raw.get(o, o), w, (t.var('x', w), t.var('y', w)))
        return getattr(t, o)(a, b), lambda env: t.evaluate(base, {'x': fa(env), 'y': fb(env)})
    if k == 'ite':
        a, fa = rnd(d - 1, w)
        b, fb = rnd(d - 1, w)
        w2 = random.choice([1, 4, 8])
        p, fp = rnd(d - 1, w2)
        q, fq = rnd(d - 1, w2)
        cmp = random.choice(['eq', 'ult', 'slt'])
        c = getattr(t, cmp)(p, q)
        base = t.mk(cmp, 1, (t.var('x', w2), t.var('y', w2)))
        return t.ite(c, a, b), lambda env: fa(env) if t.evaluate(base, {'x': fp(env), 'y': fq(env)}) else fb(env)
    if k == 'neg':
        a, fa = rnd(d - 1, w)
        return t.neg(a), lambda env: (-fa(env)) & m
    if k == 'clz':
        a, fa = rnd(d - 1, w)
        return t.ctlz(a), lambda env: (w - fa(env).bit_length()) & m
    if k in ('zext', 'sext'):
        w2 = random.randint(1, w)
        a, fa = rnd(d - 1, w2)
        if k == 'zext':
            return t.zext(a, w), fa
        return t.sext(a, w), lambda env: ((fa(env) - (1 << w2)) if fa(env) >> (w2 - 1) else fa(env)) & m
    if k == 'ext':
        w2 = random.randint(w, w + 5)
        lo = random.randint(0, w2 - w)
        a, fa = rnd(d - 1, w2)
        return t.extract(a, lo + w - 1, lo), lambda env: (fa(env) >> lo) & m
    if w < 2:
        return rnd(d - 1, w)
    l = random.randint(1, w - 1)
    a, fa = rnd(d - 1, w - l)
    b, fb = rnd(d - 1, l)
    return t.concat(a, b), lambda env: (fa(env) << l) | fb(env)


class E(dict):
    def __missing__(s, k):
        w = int(k[1:])
        v = random.choice([random.getrandbits(w), 0, (1 << w) - 1, 1, 1 << (w - 1)])
        s[k] = v
        return v


for i in range(20000):
    w = random.choice([1, 4, 8, 7])
    x, f = rnd(5, w)
    for _ in range(3):
        env = E()
        v = f(env)
        for q in t.topo([x]):
            if q.op == 'var':
                env[q.val]
        assert t.evaluate(x, env) == v, (x, env, v)
        assert v <= t.umax(x) and v % (1 << t.tz(x)) == 0, ('bounds', x, env, v)
    if i % 200 == 0:
        t.reset()
print("terms: ok")
