"""Checks of rules objects and of the concrete syntax, decided by
spec/Syntax.tla and spec/RulesObj.tla."""
import json, random, re
import lib
import gen_obj as O
import gen_syn as S
from checks_lex import re_search
from checks_more import rounds

ASAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]

def txt(s): return "".join(map(chr, s))

def syntax(ctx, binary, cases, label):
    """expressions as plain text; TLC reads them with module Syntax"""
    obs = ctx.replay_cases(ctx.bin(binary), cases)
    keep = ctx.crashes(cases, obs)
    live = []
    for j in keep:
        c, o = cases[j], obs[j]
        live.append((c, o, {"mac": [{"n": m[0], "t": m[1], "e": e} for m, e in zip(c["mac"], o["me"])], "f": c["f"], "t": c["t"], "e": o["e"], "b": o["b"], "in": c["in"], "r": o["r"]}))
    ctx.dist.update(bytes(c["t"]) for c in cases)
    ctx.traces += len(live)
    n = sum(not x[1]["e"] for x in live)
    ctx.extra["expressions_accepted"] = ctx.extra.get("expressions_accepted", 0) + n
    ctx.extra["expressions_refused"] = ctx.extra.get("expressions_refused", 0) + len(live) - n
    for _ in range(3):
        if not live: break
        r = ctx.tlc("SyntaxTrace", cases=[x[2] for x in live])
        if not r["violated"]: break
        k = int(re_search(r"/\\ c = (\d+)", r["state"])) - 1
        c, o, _x = live[k]
        why = re.search(r"bad = (.*)", r["state"], re.S).group(1)[:300].replace("\n", " ")
        ctx.violation("expression %r, flags %d, macros %s: %s (the library said: %s)" % (txt(c["t"]), c["f"], [(txt(a), txt(b)) for a, b in c["mac"]], why, o["msg"] or "nothing"), {"case": c, "observed": o, "state": r["state"]})
        del live[k]
    if live: ctx.sample({"text": txt(live[-1][0]["t"]), "refused": live[-1][1]["e"], "why": live[-1][1]["msg"]})
    ctx.log("%s: %d expressions, %d accepted" % (label, len(live), n))

def op(k): return k[0].split("_")[0]

def histories(ctx, binary, cases, label):
    """calls on one rules object; TLC walks module RulesObj along"""
    obs = ctx.replay_cases(ctx.bin(binary), cases)
    keep = ctx.crashes(cases, obs)
    live = []
    fails = ctx.extra.setdefault("calls_that_failed", {}); done = ctx.extra.setdefault("calls_that_succeeded", {})
    for j in keep:
        c, o = cases[j], obs[j]
        for k, x in zip(c["calls"], o["r"]): (fails if x["e"] else done)[op(k)] = (fails if x["e"] else done).get(op(k), 0) + 1
        live.append((dict(c, cap=c.get("cap", 0), calls=[[op(k)] + k[1:] for k in c["calls"]]), o, c))
    ctx.dist.update(json.dumps(c["calls"]) for c in cases)
    ctx.traces += len(live)
    for _ in range(3):
        if not live: break
        r = ctx.tlc("RulesTrace", cases=[x[0] for x in live], obs=[x[1] for x in live])
        if not r["violated"]: break
        k = int(re_search(r"/\\ c = (\d+)", r["state"])) - 1
        j = int(re_search(r"/\\ k = (\d+)", r["state"]))
        d, o, c = live[k]
        why = re.search(r'bad = (.*?)(\n/\\|$)', r["state"], re.S).group(1)[:400].replace("\n", " ")
        show = [[txt(a) if isinstance(a, list) and all(isinstance(z, int) for z in a) else a for a in x] for x in c["calls"][:j]]
        ctx.violation("invariant %s of RulesTrace after %s (%s, flags %d): %s" % (r["violated"], json.dumps(show[-4:]), c["w"], c["f"], why), {"case": c, "calls": show, "observed": o["r"][j - 1] if j else o["s0"], "state": r["state"]})
        del live[k]
    if live: ctx.sample({"calls": [[txt(a) if isinstance(a, list) and all(isinstance(z, int) for z in a) else a for a in x] for x in live[0][2]["calls"]][:12], "refused": [x["e"] for x in live[0][1]["r"]]})
    ctx.log("%s: %d histories" % (label, len(live)))

ALPHABETS = [("a|*?()^\"{}-1,[]", 3, 4), ("a[]^-\\:d", 4, 5), ("ab|()*", 5, 6), ("a{}12,?+", 4, 5), ("a^$|()", 5, 6), ("(?#i-s:)a", 4, 5), ("a\"\\|.", 5, 7), ("a\\x6cC01", 4, 5), ("a /*\n", 5, 6), ("[]{}-+a", 5, 6), ("{M}|^$a*", 4, 5)]
def exhaustive(r, ctx):
    out = []
    for al, q, t in ALPHABETS:
        mac = [[O.C("M"), O.C(r.choice(S.MACROS))]] if "M" in al else []
        f = 10 if "/*" in al else 2
        out += S.exhaustive(r, al, q if ctx.quick else t, f=f, mac=mac)
    return out

def L15(ctx):
    ctx.build_many({"syn": ("syntax.cpp", ["-O1"]), "syna": ("syntax.cpp", ASAN), "ro": ("rulesobj.cpp", ["-O1"]), "roa": ("rulesobj.cpp", ASAN)})
    def one(r, k):
        syntax(ctx, "syn", S.random_cases(r, 25000), "random")
        wide = [dict(c, w="u") for c in S.random_cases(r, 9000) if not any(O.NARROW.search(txt(t)) for t in [c["t"]] + [m[1] for m in c["mac"]])]
        syntax(ctx, "syn", wide, "random, wide")
        syntax(ctx, "syna", S.random_cases(r, 8000), "random, sanitized")
        if k == 0:
            ex = exhaustive(r, ctx)
            for lo in range(0, len(ex), 60000): syntax(ctx, "syn", ex[lo:lo + 60000], "exhaustive")
        W = ["n", "n", "n8", "u"]
        histories(ctx, "ro", [O.history(r, r.choice(W), odd=r.choice([0.12, 0.3, 0.5])) for _ in range(6000)], "with failing calls")
        histories(ctx, "roa", [O.history(r, r.choice(W), odd=0.35) for _ in range(1500)], "with failing calls, sanitized")
        histories(ctx, "ro", [O.suppressed(r, r.choice(W)) for _ in range(4000)], "rules hiding each other")
        histories(ctx, "roa", [O.capacity(r) for _ in range(60)] + [O.many_states(r)], "capacity")
    rounds(ctx, one)

def L16(ctx):
    ctx.build_many({"ro": ("rulesobj.cpp", ["-O1"]), "roa": ("rulesobj.cpp", ASAN)})
    def one(r, k):
        W = ["n", "n", "n8", "u"]
        histories(ctx, "ro", [O.machine_ready(r, r.choice(W)) for _ in range(6000)], "building")
        histories(ctx, "ro", [O.history(r, r.choice(W), odd=0.06) for _ in range(6000)], "any calls")
        histories(ctx, "ro", [O.history(r, r.choice(W), odd=0.04, n=(15, 40)) for _ in range(800)], "long")
        histories(ctx, "roa", [O.machine_ready(r, r.choice(W)) for _ in range(800)] + [O.many_states(r)], "sanitized")
        if k == 0:
            for j in (1, 2, 3): histories(ctx, "ro", O.exhaustive(j), "every sequence of %d calls of a menu" % j)
    rounds(ctx, one)

CHECKS = {"L15": L15, "L16": L16}
