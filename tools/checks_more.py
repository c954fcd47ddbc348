"""Checks decided by the machine specification (spec/Machine.tla and its
users) and by the other models."""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, time
import lib
import gen_lex as G
import gen_big as B
import machines as M
from checks_lex import BINS, MAXC, SPECKEYS, spec_view, lexing, model, proofs, re_search
from rx import *

def mixture(r, n, w=None, lazy=True, big=2):
    """lexers of every kind: (family name, case)"""
    kw = {"w": w} if w else {}
    fams = [("l01", {}), ("l03", {}), ("l03", {"free": True}), ("l04", {}), ("l05", {}), ("l06", {}), ("l08", {})]
    if lazy: fams += [("l07", {"companions": True})]
    if not w: fams += [("nested", {}), ("bytes_any", {})]
    out = []
    for f, k in fams:
        cs = getattr(G, f)(r, max(1, n // len(fams)), **k, **kw)
        for c in cs: c["fam"] = f
        out += cs
    if not w:
        for f, k, m in (("big_words", {"words": (120, 280)}, big), ("many_states", {"nst": (257, 280)}, big), ("big_repeats", {}, 3 * big)):
            for c in getattr(B, f)(r, m, **k): c["fam"] = f; out.append(c)
    if not w: B.big_ids(r, [c for c in out if not any(x["lazy"] for x in c["lex"]["rules"])])
    r.shuffle(out)
    return out

def record(ctx, cases, ops, binary, texts=0):
    """run the recording harness; [(case, observation)] of the built ones"""
    mc = []
    for c in cases:
        d = {k: c[k] for k in ("calls", "flags", "w") if k in c}
        d["ops"] = ops(c) if callable(ops) else ops
        if texts: d["in"] = c["in"] = c["in"][:texts]
        mc.append(d)
    obs = ctx.replay_cases(binary, mc)
    keep = ctx.crashes(mc, obs)
    out = []
    for j in keep:
        if obs[j]["e"]: ctx.violation("building a well-formed lexer failed: " + obs[j]["e"], {"case": cases[j]})
        else: out.append((cases[j], obs[j]))
    ctx.dist.update(json.dumps(c["calls"]) for c in cases)
    return out

def machine_eq(ctx, pairs, what):
    """pairs: (case, a, b, mode, label); TLC walks the products"""
    live = []
    for p in pairs:
        c, a, b, mode, label = p
        if len(a["dfa"]) != len(b["dfa"]):
            ctx.violation("%s: %s: %d start states, %d in the original" % (what, label, len(b["dfa"]), len(a["dfa"])), {"case": c}); continue
        live.append(p)
    n = len(live)
    for lo in range(0, len(live), 1200):
        part = live[lo:lo + 1200]
        for _ in range(3):
            if not part: break
            r = ctx.tlc("MachineEq", cases=[M.pair(a, b, 255 if mode == "bytes" else MAXC[c.get("w", "n")], mode) for c, a, b, mode, label in part])
            if not r["violated"]: break
            k = int(re_search(r"/\\ c = (\d+)", r["state"])) - 1
            c, a, b, mode, label = part[k]
            ctx.violation("%s: %s: invariant %s of MachineEq (%s)" % (what, label, r["violated"], mode), {"case": c, "a": a, "b": b, "state": r["state"]})
            del part[k]
    ctx.extra["machine_pairs_compared"] = ctx.extra.get("machine_pairs_compared", 0) + n

def flags(ctx, got, what):
    for c, o in got:
        bad = sorted(k for k, v in o["same"].items() if v != 1)
        if bad: ctx.violation("%s: %s" % (what, ", ".join(bad)), {"case": c, "observed": {k: o[k] for k in ("same",)}})
        if len(ctx.violations) > 5: return

def tokens(ctx, got, op):
    """token sequences of machine `op` against the lexer specification"""
    cs = [c for c, o in got if op in o["r"]]
    ob = [{"e": "", "r": o["r"][op]} for c, o in got if op in o["r"]]
    if cs:
        ctx.conform("LexTrace", cs, ob, view=spec_view)
        ctx.traces += sum(len(c["in"]) for c in cs)

def rounds(ctx, one, budget=600):
    k = 0
    while True:
        one(random.Random("%s/%d/%d" % (ctx.pid, ctx.seed, k)), k)
        k += 1
        if ctx.quick or ctx.violations or time.time() - ctx.t0 > budget: break

def L11(ctx):
    ctx.build_many({b: BINS[b] for b in ("mach", "machw")})
    def one(r, k):
        for b, n, w in (("mach", 1400, None), ("mach", 200, ["n8", "n32"]), ("machw", 400, ["w", "u", "h"])):
            cases = mixture(r, n, w)
            for c in cases: c.setdefault("w", "n")
            got = record(ctx, cases, ["base", "min", "minbuilt"], ctx.bin(b), texts=5)
            flags(ctx, got, "minimising twice, or building twice, is not the same as once")
            machine_eq(ctx, [(c, o["m"]["base"], o["m"]["min"], "smaller", "minimised") for c, o in got], "minimisation")
            tokens(ctx, got, "min")
            if got: 
                c, o = max(got[:60], key=lambda x: x[1]["m"]["base"]["size"] - x[1]["m"]["min"]["size"])
                ctx.sample({"calls": c["calls"], "states before and after": [o["m"]["base"]["size"], o["m"]["min"]["size"]]})
                ctx.extra["minimisations_that_merged_states"] = ctx.extra.get("minimisations_that_merged_states", 0) + sum(o["m"]["base"]["size"] > o["m"]["min"]["size"] for c, o in got)
            ctx.log("%s: %d machines" % (b, len(got)))
    rounds(ctx, one)

def L12(ctx):
    ctx.build_many({b: BINS[b] for b in ("mach", "machw")})
    S = ["save", "save_used", "save_min", "save_twice"]
    def one(r, k):
        for b, n, w in (("mach", 700, None), ("mach", 500, ["n8", "n32"]), ("machw", 500, ["w", "u", "h"])):
            cases = mixture(r, n, w)
            for c in cases: c.setdefault("w", "n")
            got = record(ctx, cases, lambda c: ["base", "min", "swap", r.choice(S), r.choice(S)], ctx.bin(b), texts=4)
            flags(ctx, got, "the loaded (or swapped) machine is not the one saved")
            ps = []
            for c, o in got:
                for s in S:
                    if s in o["m"]: ps.append((c, o["m"]["min" if s == "save_min" else "base"], o["m"][s], "same", s))
            machine_eq(ctx, ps, "loaded machine")
            for s in S: tokens(ctx, got, s)
            if got: ctx.sample({"calls": got[0][0]["calls"], "loaded": got[0][1]["same"]})
            ctx.log("%s: %d machines, %d loads" % (b, len(got), len(ps)))
    rounds(ctx, one)

def state_names(c):
    return ["INITIAL"] + [x[1] for x in c["calls"] if x[0] == "state"]

def L14(ctx):
    ctx.build_many({b: BINS[b] for b in ("mach", "machw")})
    CS = ["csm", "csmmin", "conv", "convmin", "minconv"]
    def one(r, k):
        for b, n, w in (("mach", 800, None), ("mach", 150, ["n8", "n32"]), ("machw", 450, ["w", "u", "h"])):
            cases = mixture(r, n, w)
            for c in cases: c.setdefault("w", "n")
            ops = ["base", "csm", "csmmin", "dump", "dumpn", "dumpcsm", "dumpmin", "dot", "dotcsm"] + CS[2:] + (["bytes"] if b == "machw" else [])
            got = record(ctx, cases, ops, ctx.bin(b))
            ps = []
            for c, o in got:
                m, W = o["m"], c["w"]
                base, mx = m["base"], MAXC[W]
                # a table machine over wide characters is converted byte by byte
                wide = b == "machw"; bx = 255 if wide else mx
                for x in CS:
                    if wide and "conv" in x: ps.append((c, m["bytes"], m[x], "bytes", x))
                    else: ps.append((c, base, m[x], "equiv", x))
                for x in ("csmmin", "convmin"):
                    if m[x]["size"] > m[{"csmmin": "csm", "convmin": "conv"}[x]]["size"]: ctx.violation("minimising the character machine added states", {"case": c})
                t = o["t"]; names = state_names(c)
                def reading(f, op, against, mode):
                    if op not in t: return
                    try: ps.append((c, m[against], f(), mode, op))
                    except (M.Bad, ValueError, IndexError, KeyError, TypeError) as e:
                        if len(ctx.violations) < 4: ctx.violation("%s does not describe a machine: %s" % (op, e), {"case": c, "text": t[op]})
                reading(lambda: M.read_dump(t["dump"], bx, W), "dump", "conv", "same")
                reading(lambda: M.read_dump(t["dumpn"], bx, W, names), "dumpn", "conv", "same")
                reading(lambda: M.read_dump(t["dumpcsm"], mx, W), "dumpcsm", "dumpcsm_of", "same")
                reading(lambda: M.read_dump(t["dumpmin"], mx, W), "dumpmin", "dumpmin_of", "same")
                reading(lambda: M.read_dot(t["dot"], bx, W, names), "dot", "conv", "graph")
                reading(lambda: M.read_dot(t["dotcsm"], mx, W, names), "dotcsm", "csm", "graph")
            machine_eq(ctx, ps, "character machine")
            if got: ctx.sample({"calls": got[0][0]["calls"], "dump": got[0][1]["t"].get("dump", "")[:800]})
            ctx.log("%s: %d machines, %d comparisons" % (b, len(got), len(ps)))
            if len(ctx.violations) > 4: return
    rounds(ctx, one)

def L13(ctx):
    """generated lexers, compiled and run, against the lexer specification"""
    ctx.build_many({"gen": ("gen.cpp", ["-O0"])})
    def one(r, k):
        cases = mixture(r, 620) + mixture(r, 130, ["w", "u", "h"], lazy=False) + mixture(r, 40, ["n8", "n32"], lazy=False)
        for c in cases: c.setdefault("w", "n"); c["in"] = c["in"][:8]
        files = 24
        fn = ctx.path("gen.cases")
        ctx._nd(fn, [{x: c[x] for x in ("calls", "flags", "w", "min", "in") if x in c} for c in cases])
        d = ctx.path("gen%d" % k); os.makedirs(d, exist_ok=True)
        p = subprocess.run([ctx.bin("gen"), fn, d + "/g", str(files)], capture_output=True, text=True, timeout=300)
        if p.returncode: ctx.violation("the C++ generator failed: exit %s" % p.returncode, {"stderr": p.stderr[-2000:]}); return
        def comp(j):
            c = subprocess.run(["g++", "-std=c++17", "-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I" + os.path.join(lib.REPO, "include"), "-I" + lib.HARN,
                                "%s/g%d.cpp" % (d, j), "-o", "%s/g%d" % (d, j)], capture_output=True, text=True)
            if c.returncode: return j, None, c.stderr
            try: x = subprocess.run(["%s/g%d" % (d, j)], capture_output=True, timeout=200, cwd=d)
            except subprocess.TimeoutExpired as e: return j, (e.stdout or b"").decode("utf8", "replace"), "timeout"
            return j, x.stdout.decode("utf8", "replace"), x.stderr.decode("utf8", "replace") if x.returncode else ""
        got = []
        with cf.ThreadPoolExecutor(lib.NCPU) as ex:
            for j, out, err in ex.map(comp, range(files)):
                mine = cases[j::files]
                if out is None:
                    first = [l for l in err.split("\n") if "error" in l][:2]
                    m = re.search(r"lexer(\d+)_", "\n".join(l for l in err.split("\n") if "error" in l or "In " in l))
                    ctx.violation("a generated lexer does not compile: %s" % " ".join(first), {"case": cases[int(m.group(1))] if m else None, "stderr": err[:3000]}); continue
                lines = [l for l in out.split("\n") if l]
                for c, l in zip(mine, lines):
                    try: got.append((c, json.loads(l)))
                    except ValueError: lines = lines[:mine.index(c)]; break
                if len(lines) < len(mine):
                    m = re.search(r"(runtime error: [^\n]*|ERROR: AddressSanitizer: [^\n]*)", err)
                    ctx.violation("a generated lexer crashed or hung: %s" % (m.group(1) if m else err[-200:]), {"case": mine[len(lines)], "stderr": err[:3000]})
        shutil.rmtree(d)
        cs, ob = [], []
        for c, o in got:
            for kind in ("r", "pointers", "index/list", "pointers/list"):
                if kind in o: cs.append(dict(c, fail="", kind=kind)); ob.append({"e": o["e"], "r": o[kind]})
        ctx.evals += len(got)
        if cs:
            ctx.conform("LexTrace", cs, ob, view=spec_view)
            ctx.traces += 4 * sum(len(c["in"]) for c, o in got)
        ctx.dist.update(json.dumps(c["calls"]) for c in cases)
        if got: ctx.sample({"calls": got[0][0]["calls"], "text": (got[0][0]["in"] + [[], []])[1], "generated lexer reported": (got[0][1]["r"] + [[], []])[1]})
        ctx.log("%d generated lexers in two table styles, two iterator kinds" % len(got))
    rounds(ctx, one)

CHECKS = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "L" and k[1:].isdigit()}

def L09(ctx):
    import gen_set as S
    ctx.build_many({b: BINS[b] for b in ("mach", "machw")})
    def one(r, k):
        for fam in ("posix", "names", "bytes", "random"):
            if k and fam != "random" and fam != "names": continue
            cases = S.generate(r, fam, ctx.quick)
            for b, ws in (("mach", ("n", "n8", "n32")), ("machw", ("w", "u", "h", "nu"))):
                cs = [c for c in cases if c["w"] in ws]
                if not cs: continue
                mc = [dict({x: c[x] for x in ("calls", "flags", "w")}, ops=["base"]) for c in cs]
                obs = ctx.replay_cases(ctx.bin(b), mc)
                keep = ctx.crashes(mc, obs)
                live = [(cs[j], obs[j]) for j in keep]
                ctx.dist.update(json.dumps(c["calls"]) for c in cs)
                chars = 0
                for _ in range(3):
                    vs = [S.view(c, o) for c, o in live]
                    chars = sum(len(v["reps"]) for v in vs)
                    x = ctx.tlc("CharSetTrace", cases=vs, env={"UNICODE": os.path.join(lib.VERIF, "data", "unicode.json")})
                    if not x["violated"]: break
                    j = int(re_search(r"/\\ c = (\d+)", x["state"])) - 1
                    w = re.search(r"/\\ wrong = (.*)", x["state"], re.S).group(1)
                    ctx.violation("character set: %s: <<character, expected rule, reported rule>> %s" % (json.dumps(live[j][0]["calls"]), w[:300].replace("\n", " ")),
                                  {"case": live[j][0], "error": live[j][1]["e"], "state": x["state"][:3000]})
                    del live[j]
                ctx.traces += len(live)
                ctx.extra["intervals_of_characters_decided"] = ctx.extra.get("intervals_of_characters_decided", 0) + chars
                if live: ctx.sample({"calls": live[-1][0]["calls"], "w": live[-1][0]["w"], "representatives": vs[-1]["reps"][:40], "reported": vs[-1]["obs"][:40]})
                ctx.log("%s/%s: %d machines, %d intervals" % (fam, b, len(live), chars))
    rounds(ctx, one)

CHECKS["L09"] = L09
