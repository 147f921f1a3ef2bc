"""What is checked for each property: specification files and instances."""

TRUSTED = ["clang front end (C++ to LLVM IR, -disable-llvm-passes) and opt -passes=sroa",
           "vp/llir.py, vp/symex.py, vp/terms.py (IR semantics and verification-condition generation)",
           "z3 4.x QF_BV, kissat (unsat answers)",
           "spec/*.h as the meaning of the property"]
ASSUMPTIONS = ["posit types are covered instance by instance (the types listed); templates are not verified generically",
               "two's complement integers and arithmetic right shift of negative numbers (as clang and gcc define them)"]


def P(T, N, ES, FT, S):
    bits = {"int8_t": "i8", "int16_t": "i16", "int32_t": "i32", "int64_t": "i64", "uint8_t": "u8", "uint16_t": "u16",
            "uint32_t": "u32", "uint64_t": "u64"}
    key = "%s_%d_%d_%s_%s" % (bits[T], N, ES, bits[FT], ["nan", "inf", "naninf"][S])
    return key, {"VT": T, "VN": N, "VES": ES, "VFT": FT, "VSPEC": S}


I8, I16, I32, I64 = "int8_t", "int16_t", "int32_t", "int64_t"
U8, U16, U32, U64 = "uint8_t", "uint16_t", "uint32_t", "uint64_t"
SMALL = [P(I8, 8, 0, U8, 0), P(I8, 8, 0, U8, 1), P(I8, 8, 0, U8, 2), P(I8, 8, 2, U8, 2), P(I8, 6, 1, U16, 2),
         P(I8, 5, 2, U32, 1), P(I16, 8, 1, U8, 0), P(I16, 6, 0, U8, 1), P(I16, 10, 2, U16, 0)]
MID = [P(I16, 12, 2, U16, 2), P(I16, 16, 1, U32, 0), P(I16, 16, 0, U16, 1), P(I32, 6, 1, U32, 2)]
BIG = [P(I32, 32, 2, U64, 0), P(I32, 28, 5, U32, 2), P(I32, 32, 3, U32, 1), P(I64, 48, 2, U64, 0)]
# the other types the repository's headers, tests and examples instantiate (the third argument "true" is WithInf's old spelling)
USED = [P(I8, 8, 0, U16, 0), P(I8, 8, 0, U16, 1), P(I8, 8, 3, U16, 1), P(I8, 8, 2, U8, 0), P(I16, 16, 0, U32, 0),
        P(I16, 16, 2, U16, 0), P(I16, 6, 0, U8, 0), P(I32, 4, 0, U32, 0), P(I32, 6, 1, U32, 0), P(I32, 8, 3, U32, 1),
        P(I32, 8, 0, U64, 1), P(I32, 16, 1, U64, 1), P(I32, 32, 0, U64, 0), P(I32, 32, 1, U64, 0), P(I32, 32, 1, U64, 1),
        P(I32, 32, 3, U32, 0), P(I32, 28, 5, U32, 0), P(I64, 60, 1, U64, 1)]
ODD = [P(I8, 7, 1, U8, 0), P(I16, 9, 0, U16, 0), P(I16, 14, 1, U32, 1), P(I32, 31, 2, U64, 0), P(I64, 33, 0, U64, 0),
       P(I64, 61, 2, U64, 2)]
QUICK = SMALL + MID + BIG + USED + ODD
THOROUGH = QUICK + [P(I8, 8, 1, U16, 2), P(I32, 32, 0, U64, 2), P(I32, 24, 2, U32, 0), P(I64, 60, 3, U64, 1)]


def tus(src, cfgs, **kw):
    r = []
    for k, c in cfgs:
        d = {"key": k, "src": src, "cfg": c}
        d.update(kw)
        r.append(d)
    return r


def get(pid, tier):
    cfgs = QUICK if tier == "quick" else THOROUGH
    return globals()["get_" + pid](cfgs, tier)


def get_C09(cfgs, tier):
    return {"tus": tus("C09.cpp", cfgs, abs=20, likely=["unpack", "pack", "mul"])}


def get_C01(cfgs, tier):
    return {"tus": tus("C01.cpp", cfgs, inline=["unpack", "ulow"], likely=[])}


def get_C02(cfgs, tier):
    return {"tus": tus("C02.cpp", cfgs, inline=["pack"], likely=[])}


def get_C03(cfgs, tier):
    return {"tus": tus("C03.cpp", cfgs, likely=["unpack", "ulow", "pack", "mul", "div", "inv", "add"])}


FL = ["unpack", "pack", "unf32", "unf64", "tof32", "tof64", "unint", "toint"]


def get_C04(cfgs, tier):
    return {"tus": tus("C04.cpp", cfgs, likely=["pack", "unf32", "unf64"])}


def get_C05(cfgs, tier):
    return {"tus": tus("C05.cpp", cfgs, likely=["unpack", "pack", "unf32", "unf64", "tof32", "tof64"])}


def get_C06(cfgs, tier):
    return {"tus": tus("C06.cpp", cfgs, likely=["unpack", "pack", "unint", "toint"])}


def get_C07(cfgs, tier):
    return {"tus": tus("C07.cpp", cfgs, likely=[])}


def get_C08(cfgs, tier):
    return {"tus": tus("C08.cpp", cfgs, likely=[])}


def get_C10(cfgs, tier):
    return {"tus": tus("C10.cpp", cfgs, abs=20, likely=["unpack", "pack", "div"])}


def get_C11(cfgs, tier):
    return {"tus": tus("C11.cpp", cfgs, abs=20, likely=["unpack", "pack", "add"])}


def get_C12(cfgs, tier):
    return {"tus": tus("C12.cpp", cfgs, abs=20, likely=["unpack", "ulow", "pack", "div", "inv"])}


def get_C13(cfgs, tier):
    return {"tus": tus("C13.cpp", cfgs, abs=20, likely=["ulow", "pack"])}


def get_C14(cfgs, tier):
    return {"tus": tus("C14.cpp", cfgs, likely=[])}


def get_C15(cfgs, tier):
    return {"tus": tus("C15.cpp", cfgs, abs=20, likely=["unpack", "pack", "add", "mul", "div"])}


def get_C16(cfgs, tier):
    return {"tus": tus("C16.cpp", cfgs, abs=20, likely=["unpack", "pack", "add", "mul"])}


def get_C17(cfgs, tier):
    return {"tus": tus("C17.cpp", cfgs, abs=60, loops=True, likely=["unpack", "pack", "add", "mul"])}


def loophook(tu):
    if tu.get("loops"):
        import loops
        return loops.hook
    return None


def get_C18(cfgs, tier):
    return {"tus": tus("C18.cpp", cfgs, abs=20, likely=["unpack", "pack", "add"])}


def get_C28(cfgs, tier):
    r = []
    for t in ("u8", "u16", "u32", "u64"):
        c = {"VT": "uint%s_t" % t[1:], "VS": int(t != "u64")}
        if tier != "quick":
            c["VSTEP"] = 1 if t != "u64" else 2
        r.append({"key": t, "src": "C28.cpp", "cfg": c})
        r.append({"key": t + "_nobmi", "src": "C28.cpp", "cfg": c, "flags": ["-mno-bmi", "-mno-bmi2"]})
    return {"tus": r}


def UTS(pairs):
    s = {"int8_t": "i8", "int16_t": "i16", "int": "int", "int64_t": "i64"}
    return [("%s_%s" % (f.replace("uint", "u")[:-2], s[e]), {"VFT": f, "VET": e}) for f, e in pairs]


UALL = [(U8, "int"), (U16, "int"), (U32, "int"), (U64, "int"), (U16, I8), (U32, I16), (U64, I64)]


def get_C19(cfgs, tier):
    return {"tus": tus("C19.cpp", UTS(UALL if tier == "quick" else UALL + [(U8, I8), (U8, I16), (U64, I16), (U32, I8), (U32, I64)]), inline=["unf32", "unf64", "tof32", "tof64", "unint", "toint"], likely=[])}


def get_C21(cfgs, tier):
    r = []
    for k, c in UTS(UALL if tier == "quick" else UALL + [(U8, I8), (U8, I16), (U32, I8), (U64, I16), (U16, I64)]):
        for q in (8, 16, 32, 64):
            d = dict(c)
            d.update({"VQ": "int%d_t" % q, "VQB": q})
            r.append({"key": "%s_q%d" % (k, q), "src": "C21.cpp", "cfg": d, "likely": [],
                      "inline": ["unf32", "unf64", "tof32", "tof64", "unint", "toint"]})
    return {"tus": r}


def get_C20(cfgs, tier):
    r = tus("C20.cpp", UTS(UALL if tier == "quick" else UALL + [(U8, I8), (U8, I16), (U16, I16), (U32, I64)]), abs=20,
            inline=["absadd"], contract_obs=["mul", "div", "inv", "add"], likely=["mul", "div", "inv", "add", "clz"])
    for t in r:
        t["cfg"]["VW"] = int(t["cfg"]["VFT"][4:-2])
        t["cfg"]["VFACT"] = 16 if tier == "quick" else 32
    return {"tus": r}


def tables_setup(scratch, repo, prop):
    """the tables the current generators write, compiled; an error is reported by the translation unit that needs them"""
    import os
    import subprocess

    import shlex
    jobs, err = {}, {}
    for n in sorted({tu["tables"] for tu in prop["tus"]}):
        g = os.path.join(scratch, "gen_" + n)
        cmds = (["g++", "-O2", "-march=native", "-std=c++11", "-w", "-I" + repo + "/include", "%s/src/%s_gen.cpp" % (repo, n), "-o", g],
                ["timeout", "120", g, g + "_tbl.cpp"], ["g++", "-c", "-w", g + "_tbl.cpp", "-o", g + "_tbl.o"])
        jobs[n] = subprocess.Popen(["sh", "-c", " && ".join(" ".join(map(shlex.quote, c)) for c in cmds)], cwd=scratch,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    for n, p in jobs.items():
        e = p.communicate()[1]
        err[n] = "%s: %s" % (n, e[-1000:]) if p.returncode else None
    for tu in prop["tus"]:
        n = tu["tables"]
        if err[n]:
            tu["broken"] = "tables: " + err[n]
        tu["link"] = [os.path.join(scratch, "gen_%s_tbl.o" % n)]


def get_C22(cfgs, tier):
    r = []
    for n, cfg in ((8, P(I8, 8, 0, U8, 0)), (10, P(I16, 10, 2, U16, 0)), (12, P(I16, 12, 2, U16, 0))):
        d = dict(cfg[1])
        d.update({"PC": "posit%d" % n, "PNS": "posit%dns" % n, "PHDR": "posit%d.hpp" % n, "PSRC": "../src/posit%d.cpp" % n})
        if n < 12:
            d["PBIN"] = 1
        r.append({"key": "posit%d" % n, "src": "C22.cpp", "cfg": d, "tables": "posit%d" % n, "abs": 20,
                  "likely": ["unpack", "pack", "mul", "div", "add", "unf32", "unf64", "unint", "toint"]})
    return {"tus": r, "setup": tables_setup,
            "trusted": ["g++ (the tables' generators and the evaluation of their entries)"],
            "assumptions": ["the tables linked are those the generators of the current tree write (as the build makes them)"]}


def get_C29(cfgs, tier):
    return {"tus": [{"key": "binary8", "src": "C29.cpp", "cfg": {"VN": 8}, "tables": "binary8", "likely": ["unown", "toown", "unf32", "unf64", "unint"]}],
            "setup": tables_setup,
            "trusted": ["g++ (the tables' generator and the evaluation of their entries)"],
            "assumptions": ["the tables linked are those the generator of the current tree writes (as the build makes them)",
                            "IEEE float operations on the entries' operands are the processor's"]}


UBSET = "signed-integer-overflow,shift-exponent,integer-divide-by-zero,builtin,array-bounds,unreachable,return,float-cast-overflow,bool,enum"


def get_C23(cfgs, tier):
    return {"tus": tus("C23.cpp", cfgs, likely=[], replay=["ubsan"], flags=["-fsanitize=" + UBSET, "-fsanitize-trap=all"]),
            "assumptions": ["left shifts of negative numbers and out-of-range conversions between integers are as clang and gcc define them (not undefined behaviour here)",
                            "operands of unpacked sums, products and quotients have exponents away from the ends of the exponent type"]}


def get_C24(cfgs, tier):
    t = [(P(I8, 8, 0, U32, 0), "float"), (P(I8, 8, 0, U32, 1), "float"), (P(I8, 6, 1, U32, 2), "float"), (P(I16, 12, 2, U32, 2), "float"),
         (P(I16, 16, 1, U32, 0), "float"), (P(I16, 10, 2, U64, 0), "double"), (P(I32, 28, 5, U64, 2), "double"), (P(I32, 32, 2, U64, 0), "double"),
         (P(I32, 32, 3, U64, 1), "double")]
    if tier != "quick":
        t += [(P(I16, 14, 2, U32, 1), "float"), (P(I32, 20, 2, U32, 0), "float"), (P(I32, 32, 1, U64, 2), "double"), (P(I64, 48, 2, U64, 0), "double")]
    r = []
    for (k, c), f in t:
        c = dict(c)
        c["VFFT"] = f
        r.append({"key": k + "_" + f, "src": "C24.cpp", "cfg": c, "abs": 20, "likely": ["unpack", "pfpack", "unf32", "unf64", "tof32", "tof64", "unint", "toint"]})
    return {"tus": r, "assumptions": ["IEEE float and double operations are uninterpreted functions of their operands (NaN operands give NaN; scaling by a power of two is exact in the normal range)"]}


ES0 = [P(I8, 8, 0, U8, 0), P(I8, 8, 0, U8, 1), P(I8, 8, 0, U8, 2), P(I16, 6, 0, U8, 1), P(I16, 16, 0, U16, 1), P(I16, 9, 0, U16, 0), P(I32, 32, 0, U64, 2), P(I32, 20, 0, U32, 0), P(I64, 33, 0, U64, 0)]


def get_C25(cfgs, tier):
    have = {k for k, c in cfgs}
    return {"tus": tus("C25.cpp", cfgs + [x for x in ES0 if x[0] not in have], abs=20, likely=["unpack", "pack", "mul"])}


def get_C26(cfgs, tier):
    return {"tus": tus("C26.cpp", cfgs, abs=20, flags=["-DPOSITMUL"], likely=["unpack", "pack", "mul", "add", "tof32", "tof64", "toint"])}


def get_C27(cfgs, tier):
    lk = ["unown", "toown", "unf32", "unf64", "tof32", "tof64", "unint", "toint"]
    r = []
    for k, eb, fb, vt, ht, fft, den in (("b8", 5, 2, "microfloat", U8, "float", 1), ("b16alt", 8, 7, "halffloatalt", U16, "float", 1),
                                        ("b16", 5, 10, "halffloat", U16, "float", 1), ("b32", 8, 23, "float", U32, "float", 1),
                                        ("b64", 11, 52, "double", U64, "double", 1), ("bf16", 8, 7, "halffloatalt", U16, "float", 0)):
        r.append({"key": k, "src": "C27.cpp", "cfg": {"VEB": eb, "VFB": fb, "VVT": vt, "VHT": ht, "VFFT": fft, "VDEN": den}, "abs": 20, "likely": lk})
    r.append({"key": "half", "src": "C27h.cpp", "cfg": {}, "flags": ["-mno-f16c"], "abs": 20, "likely": ["unhalf", "tohalf"] + lk})
    return {"tus": r, "assumptions": ["IEEE float and double operations are uninterpreted functions of their operands (NaN operands give NaN; scaling by a power of two is exact in the normal range)",
                                      "with F16C the half-precision conversions are the processor's (not checked)"]}
