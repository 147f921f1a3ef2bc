"""Interpretations of uninterpreted functions for sample inputs (never for proofs)."""
import hashlib


def dec_low(mag, N, ES):
    n = N - 1
    x = mag & ((1 << n) - 1)
    bits = [(x >> (n - 1 - i)) & 1 for i in range(n)]
    k = 0
    while k < n and bits[k] == bits[0]:
        k += 1
    regime = k - 1 if bits[0] else -k
    y = 0 if k >= n else ((x << 64) >> n << (k + 1)) & ((1 << 64) - 1)
    y = 0 if k >= n else (((x << (64 - n)) << (k + 1)) & ((1 << 64) - 1))
    e = y >> (64 - ES) if ES else 0
    return regime, e, (y << ES) & ((1 << 64) - 1)


def enc_mag(exp, frac, N, ES, SP):
    mx = (1 << (N - 1)) - 1 - (1 if SP == 2 else 0)
    mxe = (N - (3 if SP == 2 else 2)) << ES
    if exp < -((N - 2) << ES):
        return 1
    if exp > mxe:
        return mx
    k, e = exp >> ES, exp & ((1 << ES) - 1)
    ef = (e << 64) | frac          # ES + 64 bits
    if k >= 0:
        reg, ln = ((1 << (k + 1)) - 1) << 1, k + 2
    else:
        reg, ln = 1, -k + 1
    b = (reg << (64 + ES)) | ef
    t = ln + 64 + ES
    m = b >> (t - (N - 1)) if t >= N - 1 else b << (N - 1 - t)
    return min(m, mx)


def s64(x):
    return x - (1 << 64) if x >> 63 else x


def value(name, args, w):
    m = (1 << w) - 1
    if name.startswith("u:abs/"):
        f, n, es, sp = name[6:].split("/")
        n, es, sp = int(n), int(es), int(sp)
        if f == "enc":
            return enc_mag(s64(args[0]), args[1], n, es, sp) & m
        return dec_low(args[0], n, es)[("reg", "exp", "frac").index(f)] & m
    if name.startswith("$"):
        if name.startswith("$mul"):
            return args[0] * args[1] & m
        if name.startswith("$udiv"):
            return args[0] // args[1] & m if args[1] else m
        if name.startswith("$urem"):
            return args[0] % args[1] & m if args[1] else args[0]
    h = int.from_bytes(hashlib.blake2b(repr((name, tuple(args))).encode(), digest_size=16).digest(), "little")
    return h & m
