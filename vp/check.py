#!/usr/bin/env python3
"""Runs one property's check: compiles the specification with the library's
current source to IR, discharges every obligation, replays counterexamples
natively, writes the evidence file.

  check.py C09 [--tier quick|thorough]
"""
import json
import multiprocessing as mp
import os
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
import clock
import llir
import prove
import props

CLANG = ["clang++", "-std=c++14", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-ffp-contract=off",
         "-march=x86-64-v3", "-w"]
JOBS = int(os.environ.get("VP_JOBS", "8"))


class Abort(Exception):
    pass


def defs(cfg):
    return ["-D%s=%s" % kv for kv in cfg.items()]


def includes(scratch):
    return ["-I" + os.path.join(REPO, "include"), "-I" + SPEC] + (["-I" + scratch] if scratch else [])


def compile_ir(tu, scratch, extra=()):
    out = os.path.join(scratch, "ir_%s%s" % (tu["key"], "_x" if extra else ""))
    cmd = CLANG + includes(scratch) + defs(tu["cfg"]) + list(tu.get("flags", [])) + list(extra) + \
        ["-S", "-emit-llvm", os.path.join(SPEC, tu["src"]), "-o", out + ".0.ll"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        return None, p.stderr
    p = subprocess.run(["opt", "-S", "-passes=sroa", out + ".0.ll", "-o", out + ".ll"], capture_output=True, text=True)
    if p.returncode:
        return None, p.stderr
    with open(out + ".ll") as f:
        return f.read(), None


def calls_of(f):
    """names of the functions an obligation function calls directly"""
    r = []
    for b in f.blocks.values():
        for i in b:
            if i.op == "call" and isinstance(i.a, str) and i.a.startswith("@"):
                n = i.a[1:].strip('"')
                if not n.startswith("llvm."):
                    r.append(n)
    return r


def sig(f):
    """signature with by-value copies seen as the pointers they are"""
    return (repr(f.ret),) + tuple(repr(ty) for ty, n, a in f.args)


def bindings(m):
    """contract name -> (library symbol, contract symbol)"""
    r = {}
    for n in m.funcs:
        if not n.startswith("bind_"):
            continue
        x = n[5:]
        f, g = m.func(n), m.func("bindct_" + x)
        if f is None or g is None:
            continue
        a, b = set(calls_of(f)), set(calls_of(g))
        if len(a) != 1 or len(b) != 1:
            continue
        a, b = a.pop(), b.pop()
        fa, fb = m.func(a), m.func(b)
        if fa is None or fb is None or sig(fa) != sig(fb):
            continue
        r[x] = (a, b)
    return r


class Native(object):
    """native build of a translation unit's obligations"""

    def __init__(self, tu, scratch, kinds):
        self.tu, self.scratch, self.kinds = tu, scratch, kinds
        self.bins = {}

    def build(self, which):
        if which in self.bins:
            return self.bins[which]
        src = os.path.join(self.scratch, "n_%s.cpp" % self.tu["key"])
        with open(src, "w") as f:
            f.write('#include "%s"\n#include "native.h"\nvp_ob vp_table[] = {\n' % self.tu["src"])
            for n, k in self.kinds.items():
                f.write('{"%s","%s",(void(*)())%s},\n' % (n, k, n))
            f.write("{0,0,0}};\n")
        out = os.path.join(self.scratch, "n_%s_%s" % (self.tu["key"], which))
        base = includes(self.scratch) + defs(self.tu["cfg"]) + \
            [x for x in self.tu.get("flags", []) if "sanitize" not in x] + \
            ["-DVP_NATIVE", "-w", "-std=c++14", "-ffp-contract=off", src, "-o", out] + list(self.tu.get("link", []))
        cmd = {"gcc": ["g++", "-O2", "-march=native"] + base,
               "clang": ["clang++", "-O1", "-march=native"] + base,
               "ubsan": ["clang++", "-O1", "-fsanitize=" + props.UBSET, "-fno-sanitize-recover=all"] + base}[which]
        p = subprocess.run(cmd, capture_output=True, text=True)
        self.bins[which] = out if p.returncode == 0 else None
        if p.returncode:
            self.err = p.stderr
        return self.bins[which]

    def run(self, which, args, timeout):
        b = self.build(which)
        if not b:
            return None, "native build failed"
        try:
            p = subprocess.run([b] + args, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, "timeout"
        return p.returncode, (p.stdout + p.stderr)[-2000:]

    def replay(self, ob, args):
        """(which, output) when the obligation fails natively on args"""
        for which in self.tu.get("replay", ["gcc", "clang"]):
            rc, out = self.run(which, ["run", ob] + ["%x" % a for a in args], 20)
            if rc is not None and rc not in (0, 2, 9):
                return which, out
        return None

    def fuzz(self, ob, secs, seed, near=()):
        which = self.tu.get("replay", ["gcc"])[0]
        rc, out = self.run(which, ["fuzz", ob, str(secs), str(seed)] + ["%x" % a for a in near], secs * 4 + 60)
        return rc, out


# set once an obligation has failed with an input on the real code: after STOP_AFTER nothing further is attempted
STOP = mp.Value("b", 0, lock=False)
STOP_AFTER = mp.Value("d", 0.0, lock=False)


def guarded(fn, secs):
    """fn in a process of its own, ended when it overruns (solvers do not always keep their limits)"""
    pid, fd = child(fn, None)
    r = gather({0: (pid, fd)}, secs)[0]
    return r or {"status": "open", "why": "time limit", "asserts": [], "used": [], "entered": [], "time": secs}


def child(fn, sem, secs=None):
    """run fn in a forked process holding a job token; returns (pid, fd)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            if sem is not None:
                sem.acquire()
            clock.start()
            try:
                if secs is not None and STOP.value and time.time() > STOP_AFTER.value:
                    res = {"status": "open", "why": "not attempted: a violation had been found", "asserts": [], "used": [], "entered": [], "time": 0}
                else:
                    res = fn() if secs is None else guarded(fn, secs)
            except BaseException as e:
                import traceback
                res = {"status": "unsupported", "why": "engine: %r\n%s" % (e, traceback.format_exc()[-1500:]),
                       "asserts": [], "used": [], "entered": [], "time": 0}
            finally:
                if sem is not None:
                    sem.release()
            data = json.dumps(res).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def gather(jobs, limit):
    """jobs: {key: (pid, fd)} -> {key: result or None}"""
    buf = {fd: b"" for k, (pid, fd) in jobs.items()}
    key = {fd: k for k, (pid, fd) in jobs.items()}
    res = {}
    end = time.time() + limit
    live = set(buf)
    while live:
        left = end - time.time()
        if left <= 0:
            break
        rd, _, _ = select.select(list(live), [], [], min(left, 1.0))
        for fd in rd:
            d = os.read(fd, 1 << 16)
            if d:
                buf[fd] += d
            else:
                live.discard(fd)
                os.close(fd)
    for k, (pid, fd) in jobs.items():
        if fd in live:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            os.close(fd)
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
        try:
            res[k] = json.loads(buf[fd].decode())
        except ValueError:
            res[k] = None
    return res


def run_tu(tu, scratch, sem, deadline, seed):
    """everything about one translation unit; returns a result dict"""
    res = {"key": tu["key"], "cfg": tu["cfg"], "src": tu["src"], "obs": [], "contracts": {}, "violations": [],
           "open": [], "notes": []}
    if tu.get("broken"):
        res["error"] = "error: " + tu["broken"]
        return res
    with sem:
        t0 = time.time()
        text, err = compile_ir(tu, scratch)
        if text is None:
            first = err
            text, err = compile_ir(tu, scratch, ["-DVP_NOCONTRACTS"])
            if text is None:
                res["error"] = first[:20000]
                return res
            res["notes"].append("contracts could not be bound to the current source: everything inlined")
        m = llir.Module(text)
        for n in list(m.funcs):
            if n.startswith("ob_") or n.startswith("bind"):
                m.func(n)
        binds = bindings(m)
        res["compile"] = round(time.time() - t0, 2)
    allobs = [n for n in m.funcs if n.startswith("ob_")]
    own = tu.get("contract_obs", ())
    standin = {n.replace("_upto__", "__"): n for n in allobs if "_upto__" in n}  # bounded, when the general one is not accepted
    top = [n for n in allobs if not n.startswith("ob_ct_") and "_upto__" not in n]
    want = tu.get("obs")
    if want:
        top = [n for n in top if any(re.match(w + "(__|$)", n) for w in want)]
    kinds = {}
    for n in allobs:
        k = n.split("__")[-1] if "__" in n else ""
        kinds[n] = k if len(k) == len(m.func(n).args) else "u" * len(m.func(n).args)
    nat = Native(tu, scratch, kinds)
    secs = tu.get("seconds", 90)
    hook = props.loophook(tu) if hasattr(props, "loophook") else None

    def redirect(skip, abstract=False):
        return {a: b for x, (a, b) in binds.items() if x not in skip and (abstract or not x.startswith("abs"))}

    def attempt(name, skip):
        """first with decoding and encoding uninterpreted, then with their definitions"""
        first = None
        if tu.get("abs") and not name.startswith("ob_ct_") and any(x.startswith("abs") and x not in skip for x in binds):
            first = prove.obligation(m, name, redirect(skip, True), min(secs, tu["abs"]), hook, deadline)
            if first["status"] == "proved":
                return first
        r = prove.obligation(m, name, redirect(skip), secs, hook, deadline)
        if first:
            r["time"] += first["time"]
        return r

    def contract_obs(x):
        return [n for n in allobs if n == "ob_ct_" + x or n.startswith("ob_ct_%s_" % x)]

    def launch(name, skip):
        return child(lambda: attempt(name, skip), sem, 2.5 * (secs + tu.get("abs", 0)) + 20)

    sym2ct = {a: x for x, (a, b) in binds.items()}
    noct = set(tu.get("inline", ()))
    jobs = {}
    ctneed = set(own)
    def ground(n):
        """an obligation over finitely many constants: evaluated for every one"""
        t1 = time.time()
        rc, o = nat.run("gcc", ["fuzz", n, "1", "1"], 300)
        ok = rc == 0 and o.startswith("OK exhaustive")
        r = {"status": "proved" if ok else "open", "used": [], "entered": [], "time": round(time.time() - t1, 2), "why": None if ok else (o or "")[-300:],
             "asserts": [{"label": "every entry", "status": "proved" if ok else "open", "backend": "exhaustive evaluation"}]}
        mm = re.search(r"FAILED [^:]*: (.*) args((?: [0-9a-f]+)*)", o or "")
        if mm:
            r["status"] = "refuted"
            r["asserts"] = [{"label": mm.group(1), "status": "refuted", "args": [int(z, 16) for z in mm.group(2).split()]}]
        return r

    grounds = [n for n in top if n.startswith("ob_ground_")]
    if grounds:
        nat.build("gcc")
    for n in top:
        jobs[(n, "c")] = child(lambda n=n: ground(n), sem) if n in grounds else launch(n, noct)
    # contracts are proved alongside: those any obligation can reach
    for x in binds:
        if x in ctneed or (x not in noct and (x in tu.get("likely", binds))):
            for n in contract_obs(x):
                jobs[(n, "c")] = launch(n, noct | {x})
                ctneed.add(x)
    out = gather(jobs, max(1, deadline - time.time() + 15))
    results = {}
    for (n, mode), r in out.items():
        results[n] = r or {"status": "open", "why": "time limit", "asserts": [], "used": [], "entered": [], "time": secs}
    # contracts actually relied on, transitively
    usedct = set(own)
    for n in top:
        usedct |= {sym2ct[s] for s in results[n]["used"] if s in sym2ct}
    change = True
    while change:
        change = False
        missing = {}
        for x in list(usedct):
            for n in contract_obs(x):
                if n not in results:
                    missing[n] = x
                else:
                    new = {sym2ct[s] for s in results[n]["used"] if s in sym2ct} - usedct
                    if new:
                        usedct |= new
                        change = True
        if missing:
            j = {(n, "c"): launch(n, noct | {x}) for n, x in missing.items()}
            for (n, mode), r in gather(j, max(1, deadline - time.time() + 15)).items():
                results[n] = r or {"status": "open", "why": "time limit", "asserts": [], "used": [], "entered": [],
                                   "time": secs}
            change = True
    badct = set()
    for x in usedct:
        cobs = contract_obs(x)
        ok = bool(cobs) and all(results[n]["status"] == "proved" for n in cobs)
        res["contracts"][x] = {"function": binds[x][0] if x in binds else None, "proved": ok,
                               "obligations": len(cobs)}
        res["contracts"][x]["slow"] = [(results[n]["time"], n) for n in cobs]
        if not ok:
            badct.add(x)

    def depends(r, bad):
        return any(sym2ct.get(s) in bad for s in r["used"])
    # obligations resting on a contract that does not hold are redone without it
    grow = True
    while grow:
        grow = False
        for x in list(usedct - badct):
            if any(depends(results[n], badct) for n in contract_obs(x)):
                badct.add(x)
                grow = True
    redo = [n for n in top if depends(results[n], badct) or
            (results[n]["status"] in ("refuted", "unsupported") and results[n]["used"])]
    final = {n: results[n] for n in top}
    for x in own:
        for n in contract_obs(x):
            final[n] = results[n]
    if redo:
        j = {}
        for n in redo:
            skip = noct | badct
            if results[n]["status"] in ("refuted", "unsupported") and not depends(results[n], badct):
                skip = noct | set(binds)
            j[(n, "i")] = launch(n, skip)
        for (n, mode), r in gather(j, max(1, deadline - time.time() + 15)).items():
            r2 = r or {"status": "open", "why": "time limit", "asserts": [], "used": [], "entered": [], "time": secs}
            r2["inlined"] = True
            # counterexamples of the first attempt are still tried
            r2["tries"] = [a for a in results[n]["asserts"] if a.get("args") is not None]
            final[n] = r2
    # contracts that fail on their own give candidate inputs too
    for n, r in final.items():
        ok = r["status"] == "proved"
        rec = {"name": n, "status": r["status"], "inlined": bool(r.get("inlined")), "used": [sym2ct.get(s, s) for s in r["used"]],
               "entered": r["entered"], "time": r["time"], "asserts": len(r["asserts"]),
               "discharged": sum(a["status"] == "proved" for a in r["asserts"]),
               "backends": {}, "why": r.get("why"), "tables": r.get("tables"), "fpops": r.get("fpops")}
        for a in r["asserts"]:
            if a["status"] == "proved":
                rec["backends"][a["backend"]] = rec["backends"].get(a["backend"], 0) + 1
        res["obs"].append(rec)
        if ok:
            continue
        with sem:
            found = None
            cands = [a for a in r["asserts"] if a.get("args") is not None] + list(r.get("tries", ()))
            for a in cands:
                hit = nat.replay(n, a["args"])
                if hit:
                    found = {"args": a["args"], "label": a["label"], "by": hit[0], "output": hit[1]}
                    break
            near = cands[0]["args"] if cands else ()
            late = STOP.value and time.time() > STOP_AFTER.value
            if not found and late:
                rec["bounded"] = "not attempted: a violation had been found"
            elif not found:
                fs = tu.get("fuzz", 6)
                rc, o = nat.fuzz(n, fs, seed, near)
                rec["bounded"] = o.strip()[-300:] if o else ""
                if rc == 1 and "FAILED" in o:
                    mm = re.search(r"args((?: [0-9a-f]+)*)", o)
                    args = [int(z, 16) for z in mm.group(1).split()] if mm else []
                    found = {"args": args, "label": o.split(":", 1)[1].split(" args")[0].strip(), "by": "bounded run",
                             "output": o}
                elif rc not in (0, 1, None):
                    rec["bounded"] = "native run ended with %s: %s" % (rc, o[-300:])
                    if "sanitize" in o or "runtime error" in o:
                        found = {"args": [], "label": "undefined behaviour", "by": "bounded run", "output": o}
            failing = [a for a in r["asserts"] if a["status"] != "proved"]
            if found:
                STOP.value = 1
                res["violations"].append({"ob": n, "found": found, "failing": failing})
            elif rec.get("bounded", "").startswith("OK exhaustive"):
                rec["bounded"] += " (every input of this instance; not counted as proved)"
            elif not late and n in standin and deadline - time.time() > 30 and attempt(standin[n], noct | badct)["status"] == "proved":
                rec["bounded"] = "unrolled obligation %s proved; %s" % (standin[n], rec.get("bounded"))
            else:
                res["open"].append({"ob": n, "status": r["status"], "why": r.get("why"), "failing": failing,
                                    "bounded": rec.get("bounded")})
    # functions of the library under contract / entered
    return res


def libfuncs(names):
    names = [n for n in names if not n.startswith(("ob_", "ct_", "bind", "vp_"))]
    if not names:
        return []
    p = subprocess.run(["llvm-cxxfilt"], input="\n".join(names), capture_output=True, text=True)
    return [x for x in p.stdout.split("\n") if x and not x.startswith("vp::")]


def shortname(d):
    d = re.sub(r"<[^<>]*>", "", d)
    for _ in range(6):
        d = re.sub(r"<[^<>]*>", "", d)
    return re.sub(r"\(.*", "", d).split(" ")[-1] if "operator" not in d else re.sub(r"\(.*?\)$", "", d)


def main():
    ap = sys.argv[1:]
    pid = ap[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in ap:
        tier = ap[ap.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    prop = props.get(pid, tier)
    limit = prop.get("limit", 600 if tier == "quick" else 840)
    deadline = t0 + limit
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    try:
        code = run(pid, prop, tier, seed, t0, deadline, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def known():
    """entries of the known-findings file that are still open"""
    r = []
    fn = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"known: property=(\S+) ob=(\S+) cfg=(\S+) label=\"([^\"]*)\" (.*)", l.strip())
            if m:
                r.append(m.groups())
    return r


def run(pid, prop, tier, seed, t0, deadline, scratch):
    if prop.get("setup"):
        prop["setup"](scratch, REPO, prop)
    sem = mp.BoundedSemaphore(JOBS)
    STOP_AFTER.value = t0 + 100
    jobs = {}
    for tu in prop["tus"]:
        jobs[tu["key"]] = child((lambda tu=tu: run_tu(tu, scratch, sem, deadline, seed)), None)
    out = gather(jobs, deadline - time.time() + 60)
    viol, opened, errors = [], [], []
    nob = ndis = nass = 0
    backends = {}
    entered, contracts = set(), {}
    bounded = []
    slow = []
    obs_list = []
    for tu in prop["tus"]:
        r = out[tu["key"]]
        if r is None:
            errors.append((tu["key"], "no result"))
            continue
        if r.get("status") == "unsupported":
            errors.append((tu["key"], r["why"]))
            continue
        if r.get("error"):
            errors.append((tu["key"], "\n".join([l for l in r["error"].split("\n") if "error" in l][:3]) or r["error"]))
            continue
        for o in r["obs"]:
            nob += 1
            ndis += o["status"] == "proved"
            nass += o["asserts"]
            for b, k in o["backends"].items():
                backends[b] = backends.get(b, 0) + k
            entered.update(o["entered"])
            slow.append((o["time"], tu["key"], o["name"]))
            obs_list.append("%s/%s: %s" % (tu["key"], o["name"], o["status"]))
            if o["status"] != "proved":
                bounded.append({"tu": tu["key"], "ob": o["name"], "status": o["status"], "why": o.get("why"),
                                "bounded": o.get("bounded")})
        for x, c in r["contracts"].items():
            d = contracts.setdefault(x, {"types": 0, "proved": 0})
            d["types"] += 1
            d["proved"] += c["proved"]
            for tm, n in c.get("slow", ()):
                slow.append((tm, tu["key"], n))
            if c["function"]:
                entered.add(c["function"])
        for v in r["violations"]:
            viol.append((tu, v))
        for o in r["open"]:
            opened.append((tu, o))
    for fn in prop.get("post", ()):
        for v in fn(scratch, REPO, seed):
            viol.append(v)
    slow.sort(reverse=True)
    kn = known()
    newv = []
    for tu, v in viol:
        lab = v["found"]["label"]
        hit = [k for k in kn if k[0] == pid and k[1] == v["ob"] and k[2] in (tu["key"], "*") and k[3] == lab]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0][4]))
        else:
            newv.append((tu, v))
    vdir = os.path.join(VERIF, "evidence", "replay")
    lines = []
    os.makedirs(vdir, exist_ok=True)
    for i, (tu, v) in enumerate(newv[:8]):
        fn = os.path.join(vdir, "%s_%d.txt" % (pid, i))
        write_replay(fn, pid, tu, v)
        lines.append("VIOLATION property=%s replay=%s" % (pid, fn))
    # obligations that are neither discharged nor refuted by an input, beyond those that were never discharged
    base = set(prop.get("bounded", ()))
    unexpected = [(tu, o) for tu, o in opened if (tu["key"], o["ob"]) not in base and ("*", o["ob"]) not in base]
    if not lines and (unexpected or errors):
        fn = os.path.join(vdir, "%s_undischarged.txt" % pid)
        with open(fn, "w") as f:
            f.write("property %s: obligations generated from the current source that the verifier does not accept\n" % pid)
            for tu, o in unexpected:
                f.write("%s/%s: %s %s\n  bounded run: %s\n  verifier: %s\n" % (tu["key"], o["ob"], o["status"], o["why"],
                        o["bounded"], json.dumps(o["failing"])[:1500]))
            for k, e in errors:
                f.write("%s: no obligations could be generated: %s\n" % (k, e[-1500:]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, fn))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop.get("level", "proof"),
          "coverage": {
              "obligations": nob, "discharged": ndis,
              "checker_cmd": "python3-vt vp/check.py %s --tier %s" % (pid, tier),
              "trusted_base": props.TRUSTED + prop.get("trusted", []),
              "assertions": nass, "types": [tu["key"] for tu in prop["tus"]],
              "functions_under_contract": {x: c for x, c in sorted(contracts.items())},
              "functions_verified": sorted(set(libfuncs(entered)))[:200],
              "discharged_by": backends,
              "not_discharged_bounded_instead": bounded,
              "solver_time_s": round(sum(s[0] for s in slow), 1),
              "slowest": ["%.1fs %s/%s" % s for s in slow[:5]],
              "obligation_list": obs_list,
          },
          "assumptions": props.ASSUMPTIONS + prop.get("assumptions", []),
          "violations": len(lines),
          "wall_s": round(time.time() - t0, 1)}
    if errors:
        ev["coverage"]["not_compiled"] = [{"tu": k, "error": e[-800:]} for k, e in errors]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print("%s: %d obligations, %d discharged, %d assertions, %.1f s" % (pid, nob, ndis, nass, time.time() - t0))
    for b in bounded:
        print("  not discharged: %s" % json.dumps(b)[:400])
    for k, e in errors:
        print("  not decided: %s: %s" % (k, e[-400:]))
    if "-v" in sys.argv:
        for s in slow[:12]:
            print("   %.1fs %s/%s" % s)
    if lines:
        return 1
    return 0


def write_replay(fn, pid, tu, v):
    f = v["found"]
    with open(fn, "w") as o:
        o.write("property %s\nfailed obligation %s (%s)\n" % (pid, v["ob"], f["label"]))
        o.write("instance %s: %s\n" % (tu["key"], json.dumps(tu["cfg"])))
        o.write("inputs (hex) %s\nfound by: %s\n" % (" ".join("%x" % a for a in f["args"]), f["by"]))
        o.write("output of the real code:\n%s\n" % f["output"])
        o.write("solver:\n%s\n" % json.dumps(v["failing"], indent=1)[:4000])
        o.write("replay: build /verif/spec/%s with %s and run: run %s %s (see vp/check.py, class Native)\n" %
                (tu["src"], " ".join(defs(tu["cfg"])), v["ob"], " ".join("%x" % a for a in f["args"])))


if __name__ == "__main__":
    main()
