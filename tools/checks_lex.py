"""Checks decided by the lexer specification (spec/Lexer.tla, LexTrace.tla)."""
import json, random, re, time
import gen_lex as G
import gen_big as B
import machines as M
from rx import *

BINS = {
    "n": ("lex.cpp", ["-O1"]),
    "w": ("lex.cpp", ["-O0", "-DWIDE"]),
    "asan": ("lex.cpp", ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]),
}
BINS["mach"] = ("mach.cpp", ["-O1"])
BINS["machw"] = ("mach.cpp", ["-O0", "-DWIDE"])
MAXC = {"n": 255, "n8": 255, "n32": 255, "w": 0x10ffff, "u": 0x10ffff, "nu": 0x10ffff, "h": 0xffff}
SPECKEYS = ("lex", "in", "fail", "rev")

def spec_view(c): return {k: c[k] for k in SPECKEYS if k in c}

def known(ctx, probes, binary="n"):
    """probes: {text of the known-findings entry: case}.  Each is run against
    the real code; one that still fails is printed as known."""
    for text, case in probes.items():
        case = dict(case); case.setdefault("fail", "")
        obs = ctx.replay_cases(ctx.bin(binary), [case])
        if obs[0]["e"].startswith("CRASH"): bad = True
        else: bad = bool(ctx.tlc("LexTrace", cases=[spec_view(case)], obs=[{k: obs[0][k] for k in ("e", "r")}])["violated"])
        if bad: ctx.known_finding(text)
        else: ctx.log("known finding no longer reproduces:", text)

def run_cases(ctx, name, cases, binary):
    obs = ctx.replay_cases(binary, cases)
    keep = ctx.crashes(cases, obs)
    cs, ob = [cases[j] for j in keep], [{k: obs[j][k] for k in ("e", "r")} for j in keep]
    if cs:
        ctx.conform("LexTrace", cs, ob, view=spec_view)
        ctx.traces += sum(len(c["in"]) for c in cs)
    ctx.dist.update(json.dumps(c["calls"]) for c in cases)
    k = next((i for i, o in enumerate(ob) if o["r"] and len(o["r"]) > 1 and len(o["r"][1]) > 1), 0)
    if cs: ctx.sample({"family": name, "calls": cs[k]["calls"], "text": (cs[k]["in"] + [[], []])[1], "recorded": (ob[k]["r"] + [[], []])[1]})
    ctx.log("%s: %d cases, %d texts" % (name, len(cases), sum(len(c["in"]) for c in cases)))

def family(name): return getattr(G, name, None) or getattr(B, name)

def lexing(ctx, fams, bins=("n",), budget=600, probes=None, prove=None):
    """fams: (name, kwargs, number in a quick run, binary); prove: the binary
    recording machines, with how many machines of every family to prove"""
    ctx.build_many({b: BINS[b] for b in bins + ((prove[0],) if prove else ())})
    rnd = 0
    while True:
        for name, kw, n, b in fams:
            r = random.Random("%s/%s/%s/%d/%d" % (ctx.pid, name, sorted(kw.items()), ctx.seed, rnd))
            cases = family(name)(r, n if ctx.quick else 4 * n, **kw)
            if not any(x["lazy"] for c in cases[:1] for x in c["lex"]["rules"]): B.big_ids(r, cases)
            for c in cases:
                c.setdefault("w", "n")
                # 8-bit rule text for 32-bit machines: raw bytes above 127 have no defined meaning
                if c["w"] == "nu" and any(ord(x) > 126 for call in c["calls"] for a in call if isinstance(a, str) for x in a): c["w"] = "u"
            run_cases(ctx, name, cases, ctx.bin(b))
            if prove and name not in ("big_words", "many_states") and not any(r["lazy"] for c in cases[:50] for r in c["lex"]["rules"]):
                proofs(ctx, name, cases[:prove[1] if ctx.quick else 4 * prove[1]], ctx.bin(prove[0]))
            if len(ctx.violations) >= 6: return
        rnd += 1
        if ctx.quick or ctx.violations or time.time() - ctx.t0 > budget: break
    if probes: known(ctx, probes, bins[0])

def proofs(ctx, name, cases, binary):
    """The built machines against their rules, for texts of every length."""
    mc = [dict({k: c[k] for k in ("calls", "flags", "w") if k in c}, ops=["base"]) for c in cases]
    for lo in range(0, len(mc), 600):
        part = mc[lo:lo + 600]
        obs = ctx.replay_cases(binary, part)
        keep = ctx.crashes(part, obs)
        js, pc = [], []
        for j in keep:
            c = cases[lo + j]
            if obs[j]["e"]:
                ctx.violation("building a well-formed lexer failed: " + obs[j]["e"], {"case": c}); continue
            js.append(c); pc.append(M.proof(c["lex"], obs[j]["m"]["base"], MAXC[c.get("w", "n")], c.get("rev", 0)))
        for _ in range(3):
            if not pc: break
            r = ctx.tlc("MachineProof", cases=pc)
            if not r["violated"]: break
            k = int(re_search(r"/\\ c = (\d+)", r["state"])) - 1
            ctx.violation("MachineProof: invariant %s: the machine reports something else than its rules denote after some text" % r["violated"],
                          {"case": js[k], "machine": pc[k]["dfas"], "state": r["state"]})
            del js[k], pc[k]
    ctx.extra["machines_proved_against_rules"] = ctx.extra.get("machines_proved_against_rules", 0) + len(mc)
    ctx.log("%s: %d machines proved against their rules" % (name, len(mc)))

def re_search(p, s): return re.search(p, s).group(1)

def model(ctx, module, cfg=None, **kw):
    """Exhaustive check of the specification itself."""
    r = ctx.tlc(module, cfg=cfg, **kw)
    if r["violated"]: ctx.violation("%s: the specification itself violates %s" % (module, r["violated"]), {"state": r["state"]})
    ctx.log("model %s: %s distinct states" % (cfg or module, r.get("distinct")))

def L01(ctx):
    model(ctx, "LexerMC", cfg="LexerMC" if ctx.quick else "LexerMCdeep")
    lexing(ctx, [("l01", {}, 1500, "n"), ("l01_exhaustive", {}, 200, "n"), ("l04", {}, 250, "n"), ("long_texts", {}, 40, "n"), ("big_words", {}, 5, "n"), ("long_token", {}, 8, "n")], prove=("mach", 600))

def L02(ctx):
    model(ctx, "LexerMC", cfg="LexerMC" if ctx.quick else "LexerMCdeep")
    lexing(ctx, [("l06", {"maxlen": 30}, 400, "asan"), ("l01", {}, 250, "asan"), ("l03", {"free": True}, 300, "asan"), ("l05", {}, 300, "asan"),
                 ("l08", {}, 150, "asan"), ("nested", {}, 100, "asan"), ("long_texts", {}, 40, "asan"), ("bytes_any", {}, 150, "asan"), ("l07", {}, 100, "asan"),
                 ("big_words", {}, 3, "asan"), ("many_states", {}, 2, "asan"), ("deep", {}, 2, "asan"), ("long_token", {}, 6, "asan"), ("big_repeats", {}, 12, "asan")], bins=("asan",))

def L03(ctx):
    two = [["push", "a$", 1], ["push", "a\\n+", 2]]
    alt_ = [["push", "^a|b", 1]]
    A, B, N = chr_(97), chr_(98), chr_(10)
    probes = {
        "rules 'a$' (1) and 'a\\n+' (2) on \"a\\n\\n\": the builder drops the newline alternative after a $ added earlier, so that rule 2 never matches the longer text":
            G.case([G.rule(A, 1, eol=1), G.rule(cat(A, rep(N, 1, -1)), 2)], two, [[97, 10, 10]]),
        "rule '^a|b' on \"b\": the second alternative never matches at the beginning of a line":
            G.case([G.rule(A, 1, bol=1), G.rule(B, 1)], alt_, [[98]]),
    }
    lexing(ctx, [("l03", {}, 1000, "w"), ("l03", {"free": True}, 900, "w"), ("l03", {"w": ["w", "u", "h", "nu"]}, 500, "w"),
                 ("l03", {"free": True, "w": ["w", "u", "h"]}, 500, "w"), ("l04", {}, 150, "w"), ("long_token", {}, 8, "w")], bins=("w",), probes=probes, prove=("machw", 500))

def L04(ctx):
    lexing(ctx, [("l04", {}, 1200, "n"), ("l04", {"calls_api": True, "nst": (3, 5)}, 300, "n"), ("l05", {}, 150, "n"), ("many_states", {"stack": False}, 3, "n")], prove=("mach", 500))

def L05(ctx):
    model(ctx, "LexerMC", cfg="LexerMC" if ctx.quick else "LexerMCdeep")
    lexing(ctx, [("l05", {}, 900, "n"), ("nested", {}, 400, "n"), ("l05", {"calls_api": True, "maxlen": 40}, 200, "n"), ("many_states", {}, 3, "n"), ("deep", {}, 4, "n")], prove=("mach", 400))

def L06(ctx):
    model(ctx, "LexerMC", cfg="LexerMC" if ctx.quick else "LexerMCdeep")
    lexing(ctx, [("l06", {}, 1200, "n"), ("nested", {}, 400, "n"), ("l04", {}, 200, "n"), ("deep", {}, 4, "n"), ("many_states", {}, 2, "n"), ("long_token", {}, 12, "n")], prove=("mach", 500))

def L07(ctx):
    A, B, C = chr_(97), chr_(98), chr_(99)
    probes = {"rule 'b.{0,3}?c' on \"baacc\": a non-greedy repeat with an upper bound goes on to the next terminator":
              G.case([G.rule(cat(B, rep(dot(), 0, 3, 1), C), 1, lazy=1)], [["push", "b.{0,3}?c", 1]], [[98, 97, 97, 99, 99]])}
    lexing(ctx, [("l07", {}, 900, "n"), ("l07", {"companions": True}, 700, "n")], probes=probes)

def L08(ctx):
    lexing(ctx, [("l08", {}, 1300, "n"), ("l08_small", {}, 500, "n"), ("l01", {}, 200, "n"), ("big_repeats", {}, 60, "n")], prove=("mach", 800))

def L10(ctx):
    W = ["w", "u", "h", "nu"]
    lexing(ctx, [("l01", {"w": W}, 400, "w"), ("l03", {"free": True, "w": W}, 300, "w"), ("l06", {"w": W}, 400, "w"), ("l08", {"w": W}, 400, "w"),
                 ("l05", {"w": W}, 200, "w"), ("l07", {"w": W}, 200, "w"), ("wide_chars", {}, 300, "w"), ("big_words", {"w": ["w", "u", "h"], "words": (150, 200)}, 3, "w"),
                 ("big_words", {"w": ["w", "u"], "words": (100, 150), "al": list(range(0x3b1, 0x3c9)) + [0x1f600, 0x1f601]}, 2, "w"), ("long_token", {}, 3, "w")], bins=("w",), prove=("machw", 300))

def L21(ctx):
    lexing(ctx, [("l21", {}, 1500, "n")], prove=("mach", 800))

CHECKS = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "L" and k[1:].isdigit()}
