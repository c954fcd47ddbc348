"""Checks of replace(), iterators, stream and file input and the UTF
iterators: spec/Replace.tla, Iterators.tla, Stream.tla, MemoryFile.tla, Utf.tla."""
import json, random, re
import gen_lex as G
from lib import Broken
from checks_lex import re_search, model, spec_view
from checks_more import rounds

ASAN = ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]

# ------------------------------------------------------------------ L17
def rep_cases(r, n, w):
    kw = {"w": [w]} if w != "n" else {}
    fams = [("l01", {}, 4), ("l03", {"free": True}, 2), ("l04", {"push": 0, "again": .25, "skip": .25}, 3), ("l06", {"push": 0, "again": .35, "skip": .25}, 4), ("l07", {"companions": True}, 1)]
    if w == "n": fams.append(("bytes_any", {}, 1))
    tot = sum(f[2] for f in fams)
    out = []
    for f, k, wt in fams:
        for c in getattr(G, f)(r, max(1, n * wt // tot), **k, **(kw if f != "bytes_any" else {})):
            if any(x["pop"] or x["push"] != -1 for x in c["lex"]["rules"]): continue
            c["in"] = c["in"][:5]
            if r.random() < .15 and c["in"]:
                t = list(r.choice(c["in"])); t.insert(r.randint(0, len(t)), 0); c["in"].append(t)
            ids = [x["id"] for x in c["lex"]["rules"] if x["id"] not in (0, G.SKIP)] + [G.NPOS, 9]
            def rt(): return [r.choice([97, 98, 10, 60, 233 if w[0] == "n" else 0x3b1, 0x20]) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
            def some(v): return [[i, v()] for i in sorted(set(i for i in ids if r.random() < .55))]
            c["f"] = [{"k": "str", "s": rt()}, {"k": "map", "m": some(rt)}, {"k": "fun", "m": some(lambda: r.randint(0, 3))}]
            c["w"] = w
            out.append(c)
    return out

def L17(ctx):
    ctx.build_many({"rep": ("replace.cpp", ASAN)})
    def one(r, k):
        for w, n in (("n", 1800), ("n8", 200), ("w", 800)):
            cases = rep_cases(r, n, w)
            obs = ctx.replay_cases(ctx.bin("rep"), cases)
            keep = ctx.crashes(cases, obs)
            cs, ob = [cases[j] for j in keep], [{k: obs[j][k] for k in ("e", "r")} for j in keep]
            ctx.conform("ReplaceTrace", cs, ob, view=lambda c: {k: c[k] for k in ("lex", "in", "f")})
            ctx.traces += sum(len(c["in"]) * 6 for c in cs)
            ctx.extra["outputs_compared"] = ctx.extra.get("outputs_compared", 0) + sum(len(x) for o in ob for t in o["r"] for x in t)
            ctx.dist.update(json.dumps(c["calls"]) for c in cases)
            if cs: ctx.sample({"calls": cs[0]["calls"], "replacements": cs[0]["f"], "text": cs[0]["in"][1], "recorded": ob[0]["r"][1][1][:2]})
            ctx.log("%s: %d lexers" % (w, len(cs)))
            if len(ctx.violations) >= 6: return
    rounds(ctx, one)

# ------------------------------------------------------------------ L18
def schedules(ctx, cfg, args=(), module="IterMC"):
    """operation histories TLC walks through"""
    r = ctx.tlc(module, cfg=cfg, extra=args, workers=1)
    out = [json.loads(json.loads(l)[1:]) for l in r["out"].split("\n") if l.startswith('"@')]
    if not out: raise Broken("no schedules from " + cfg)
    ctx.log("%s: %d schedules" % (cfg, len(out)))
    return out

KINDS = [("n", "p", 1), ("n", "s", 1), ("n", "p", 0), ("n", "s", 0), ("w", "p", 1), ("u", "s", 1)]

def iter_cases(r, scheds, nlex):
    """schedules on pairs of lexers"""
    pools = {}
    for w in "nwu":
        kw = {"w": [w]} if w != "n" else {}
        p = []
        for f, k in (("l01", {}), ("l03", {"free": True}), ("l04", {}), ("l05", {}), ("l06", {}), ("l05", {"under": .1})):
            p += getattr(G, f)(r, max(4, nlex // 12), **k, **kw)
        r.shuffle(p)
        pools[w] = p
    out = []
    for s in scheds:
        w, it, rec = r.choice(KINDS)
        pool = pools[w]
        if not rec: pool = [c for c in pool if not any(x["pop"] or x["push"] != -1 for x in c["lex"]["rules"])]
        a, b = r.choice(pool), r.choice(pool)
        ins = [r.choice(r.choice([a, b])["in"]) for _ in range(3)]
        ops = []
        for o in s:
            o = list(o)
            if o[0] in ("make", "res"):
                n = len(ins[o[3] - 1])
                if o[4] or o[0] == "res": o[4] = r.choice([0, r.randint(0, n), r.randint(0, n)])
                o[5] = r.choice([0, 0, r.choice([x["st"] for x in (a, b)[o[2] - 1]["lex"]["rules"]])])
            ops.append(o)
        out.append({"w": w, "it": it, "rec": rec, "flags": a["flags"], "lx": [{"calls": x["calls"], "lex": x["lex"]} for x in (a, b)], "in": ins, "ops": ops})
    return out

def L18(ctx):
    model(ctx, "IterMC")
    ctx.build_many({"iter": ("iter.cpp", ASAN)})
    def one(r, k):
        sch = schedules(ctx, "IterMCgen", ("-simulate", "num=%d" % (900 if ctx.quick else 3000), "-depth", "25", "-seed", str(ctx.seed * 1000 + k)))
        if k == 0:
            ex = schedules(ctx, "IterMCall")
            r.shuffle(ex)
            sch += ex[:8000] if ctx.quick else ex
        r.shuffle(sch)
        for lo in range(0, len(sch), 6000):
            cases = iter_cases(r, sch[lo:lo + 6000], 600)
            obs = ctx.replay_cases(ctx.bin("iter"), cases)
            keep = ctx.crashes(cases, obs)
            cs, ob = [cases[j] for j in keep], [obs[j] for j in keep]
            ctx.conform("IterTrace", cs, ob, view=lambda c: {"lx": [x["lex"] for x in c["lx"]], "in": c["in"], "ops": c["ops"]})
            ctx.traces += len(cs)
            ctx.extra["operations_replayed"] = ctx.extra.get("operations_replayed", 0) + sum(len(c["ops"]) for c in cs)
            ctx.extra["equal_pairs_seen"] = ctx.extra.get("equal_pairs_seen", 0) + sum(len(x["eq"]) for o in ob for x in o["r"])
            ctx.dist.update(json.dumps(x["calls"]) for c in cs for x in c["lx"])
            if cs: ctx.sample({"lexer": cs[0]["lx"][0]["calls"], "texts": cs[0]["in"], "operations": cs[0]["ops"], "recorded": ob[0]["r"][-1]})
            ctx.log("%d schedules replayed" % len(cs))
            if len(ctx.violations) >= 6: return
    rounds(ctx, one)

# ------------------------------------------------------------------ L19
WSIZES = (0, 1, 5, 14)      # lengths of the contents in module StreamMC's long schedules

def stream_ops(ctx, r, scheds, small):
    out = []
    for s in scheds:
        w = r.choice("nnwu")
        hi = {"n": 255, "w": 0x10ffff, "u": 0x10ffff}[w]
        def text(n): return [r.choice([r.randint(0, hi), 0, 10, 97, 98, 255]) for _ in range(n)]
        out.append({"k": "ops", "w": w, "in": [text(n) for n in ((3,) if small else WSIZES)], "ops": s, "end": r.sample([1, 2, 3, 4], r.randint(0, 4)), "chunk": r.choice([0, 0, 1, 3])})
    for lo in range(0, len(out), 8000):
        cases = out[lo:lo + 8000]
        obs = ctx.replay_cases(ctx.bin("stream"), cases)
        keep = ctx.crashes(cases, obs)
        cs, ob = [cases[j] for j in keep], [obs[j] for j in keep]
        ctx.conform("StreamTrace", cs, ob, view=lambda c: {"in": c["in"], "ops": c["ops"]})
        ctx.traces += len(cs)
        ctx.dist.update(json.dumps(c["ops"]) for c in cs)
        ctx.extra["operations_replayed"] = ctx.extra.get("operations_replayed", 0) + sum(len(c["ops"]) for c in cs)
        if cs: ctx.sample({"contents": cs[0]["in"], "operations": cs[0]["ops"], "recorded": ob[0]["r"][-1], "leak": ob[0]["leak"]})
    ctx.log("%d schedules replayed" % len(out))

def stream_lex(ctx, r, n):
    cases = []
    for f, k in (("l01", {}), ("l03", {"free": True}), ("l04", {}), ("l05", {}), ("l06", {}), ("nested", {}), ("l01", {"w": ["w"]}), ("l06", {"w": ["w"]}), ("l05", {"under": .1}), ("long_texts", {})):
        cases += getattr(G, f)(r, max(4, n // 10), **k)
    for c in cases:
        c.setdefault("w", "n")
        c.update(k="lex", bs=r.choice([1, 1, 2, 3, 4, 7, 16, 1024]), inc=r.choice([1, 1, 2, 3, 5, 1024]), chunk=r.choice([0, 0, 1, 3]))
    obs = ctx.replay_cases(ctx.bin("stream"), cases)
    keep = ctx.crashes(cases, obs)
    ctx.conform("LexTrace", [cases[j] for j in keep], [{k: obs[j][k] for k in ("e", "r")} for j in keep], view=spec_view)
    ctx.traces += sum(len(c["in"]) for c in cases)
    ctx.dist.update(json.dumps(c["calls"]) for c in cases)
    ctx.log("%d lexers over streams" % len(cases))

FILES = (0, 1, 2, 3, 4, 5, 7, 8, 12, 4095, 4096, 4097, 4098, 4100, 8191, 8193, 8195, 12288, 12290)

def memory_files(ctx, r, scheds):
    import os, shutil
    base = ctx.path("files")
    out = []
    for k, s in enumerate(scheds):
        w = r.choice("nnwwh")
        files = []
        for _ in range(3):
            n = r.choice(FILES)
            f = [[r.randint(0, 255), 1] for _ in range(min(n, 14))]
            if n > 14: f.append([r.randint(0, 255), n - 16 if n > 16 else 0]); f += [[r.randint(0, 255), 1] for _ in range(n - sum(x[1] for x in f))]
            files.append(f)
        d = "%s/%d" % (base, k % 64)
        os.makedirs(d, exist_ok=True)
        out.append({"k": "file", "w": w, "wd": {"n": 1, "w": 4, "h": 2}[w], "dir": d, "files": files, "ops": s, "low": int(r.random() < .3)})
    obs = ctx.replay_cases(ctx.bin("stream"), out)
    keep = ctx.crashes(out, obs)
    cs, ob = [out[j] for j in keep], [obs[j] for j in keep]
    ctx.conform("FileTrace", cs, ob, view=lambda c: {"files": c["files"], "ops": c["ops"], "wd": c["wd"]})
    ctx.traces += len(cs)
    ctx.extra["file_histories"] = ctx.extra.get("file_histories", 0) + len(cs)
    ctx.log("%d histories of memory files" % len(cs))

def L19(ctx):
    model(ctx, "StreamMC")
    ctx.build_many({"stream": ("stream.cpp", ASAN)})
    def one(r, k):
        def seed(n): return ("-simulate", "num=%d" % (n if ctx.quick else 3 * n), "-seed", str(ctx.seed * 1000 + k))
        stream_ops(ctx, r, schedules(ctx, "StreamMCgen", seed(2500) + ("-depth", "41"), "StreamMC"), False)
        if k == 0: stream_ops(ctx, r, schedules(ctx, "StreamMCall", module="StreamMC"), True)
        stream_lex(ctx, r, 500)
        memory_files(ctx, r, schedules(ctx, "FileMCgen", seed(700) + ("-depth", "15"), "FileMC") + (schedules(ctx, "FileMC", module="FileMC") if k == 0 else []))
    rounds(ctx, one)

# ------------------------------------------------------------------ L20
FORMS = {"in8": ("in8", "in8", "in8l"), "in16": ("in16", "in16w"), "out8": ("out8", "out8in16", "out8inw"), "out16": ("out16", "out16in8", "outwin8"), "flip4": ("flip4", "flip2")}
def scalar(r, n8):
    """a scalar value whose UTF-8 encoding has n8 bytes, often at a boundary"""
    lo, hi = ((0, 0x7f), (0x80, 0x7ff), (0x800, 0xffff), (0x10000, 0x10ffff))[n8 - 1]
    while True:
        c = r.choice([r.randint(lo, hi), lo, hi, lo + r.randint(0, 64), hi - r.randint(0, 64), r.choice([0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff])])
        if lo <= c <= hi and not 0xd800 <= c <= 0xdfff: return c
def len8(c): return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4
def enc8(t): return list("".join(map(chr, t)).encode("utf8"))
def enc16(t):
    b = "".join(map(chr, t)).encode("utf-16-le")
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]

def utf_run(ctx, cases, view=None):
    obs = ctx.replay_cases(ctx.bin("utf"), cases)
    keep = ctx.crashes(cases, obs)
    cs, ob = [cases[j] for j in keep], [obs[j] for j in keep]
    return cs, ob

def utf_ops(ctx, r, scheds):
    out = []
    for s in scheds:
        k = r.choice(FORMS[s["k"]])
        if k == "flip4": t = [r.choice([r.randint(0, 2**31 - 1), 0x01020304, 255]) for _ in s["t"]]
        elif k == "flip2": t = [r.choice([r.randint(0, 65535), 0x102, 0xff00]) for _ in s["t"]]
        else: t = [scalar(r, len8(c)) for c in s["t"]]
        src = enc8(t) if k in ("in8", "in8l", "out16in8", "outwin8") else enc16(t) if k in ("in16", "in16w", "out8in16", "out8inw") else t
        out.append({"k": "ops", "kind": k, "t": t, "src": src, "ops": s["ops"]})
    cs, ob = utf_run(ctx, out)
    ctx.conform("UtfTrace", cs, ob)
    ctx.traces += len(cs)
    ctx.dist.update(json.dumps([c["kind"], c["t"], c["ops"]]) for c in cs)
    ctx.extra["operations_replayed"] = ctx.extra.get("operations_replayed", 0) + sum(len(c["ops"]) for c in cs)
    if cs: ctx.sample({"kind": cs[0]["kind"], "text": cs[0]["t"], "operations": cs[0]["ops"], "recorded": ob[0]["r"][-1]})
    ctx.log("%d schedules replayed" % len(cs))

def utf_all(ctx):
    """every scalar value through every conversion"""
    out = []
    for lo in range(0, 0x110000, 512):
        t = [c for c in range(lo, lo + 512) if not 0xd800 <= c <= 0xdfff]
        out.append({"k": "all", "lo": lo, "n": 512, "t": t, "s8": enc8(t), "s16": enc16(t)})
    cs, ob = utf_run(ctx, out)
    ctx.conform("UtfTrace", cs, ob, view=lambda c: {k: v for k, v in c.items() if k != "t"})
    ctx.extra["scalar_values"] = sum(len(c["t"]) for c in cs)
    ctx.traces += len(cs)
    ctx.log("every scalar value (%d) converted" % ctx.extra["scalar_values"])

B8 = (0x41, 0x80, 0xbf, 0xc3, 0xdf, 0xe0, 0xe2, 0xed, 0xef, 0xf0, 0xf3, 0xf4, 0xf7, 0xf8, 0xff)
B16 = (0x41, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff)
def utf_dec(ctx, r, n, small):
    import itertools
    out = []
    def add(w, src): out.append({"k": "dec", "w": w, "form": r.randint(0, 3), "src": list(src)})
    if small:
        for k in range(0, 4):
            for x in itertools.product(B8, repeat=k): add(8, x)
        for k in range(0, 5):
            for x in itertools.product(B16, repeat=k): add(16, x)
        for x in itertools.product((0xf0, 0xf1), (0x80, 0x90, 0xbf, 0x41, 0xc3), (0x80, 0xbf, 0x41, 0xf0), (0x80, 0xbf, 0x41, 0xe2), (None, 0x41, 0x80)): add(8, [b for b in x if b is not None])
    for _ in range(n):
        t = [scalar(r, r.randint(1, 4)) for _ in range(r.randint(0, 12))]
        w = r.choice((8, 16))
        x = enc8(t) if w == 8 else enc16(t)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            if not x: break
            i = r.randrange(len(x))
            m = r.random()
            if m < .3: del x[i]
            elif m < .6: x[i] = r.choice(B8 if w == 8 else B16)
            elif m < .8: x.insert(i, r.choice(B8 if w == 8 else B16))
            else: x = x[:i]
        add(w, x)
    cs, ob = utf_run(ctx, out)
    ctx.conform("UtfTrace", cs, ob)
    ctx.traces += len(cs)
    ctx.extra["unit_sequences_decoded"] = ctx.extra.get("unit_sequences_decoded", 0) + len(cs)
    ctx.log("%d sequences of units decoded" % len(cs))

def utf_lex(ctx, r, n):
    out = []
    for f, k in (("l01", {}), ("l03", {"free": True}), ("l05", {}), ("l06", {}), ("bytes_any", {})):
        for c in getattr(G, f)(r, max(4, n // 10), **k):
            src = []
            for t in c["in"]:
                s = []
                for b in t:
                    s.append(b if b < 128 else scalar(r, r.randint(2, 4)))
                    if r.random() < .15: s.append(scalar(r, r.randint(1, 4)))
                src.append(s)
            c["in"] = [enc8(s) for s in src]
            c["form"] = r.choice(["out8", "out8in16"])
            c["src"] = src if c["form"] == "out8" else [enc16(s) for s in src]
            out.append(c)
    for f, k in (("l01", {"w": ["w"]}), ("l03", {"w": ["w"], "free": True}), ("l06", {"w": ["w"]}), ("wide_chars", {})):
        for c in getattr(G, f)(r, max(4, n // 8), **k):
            def fix(t): return [x if 0 <= x <= 0x10ffff and not 0xd800 <= x <= 0xdfff else scalar(r, 4) for x in t]
            src = [fix(t) for t in c["in"]]
            c["in"] = src
            c["form"] = r.choice(["in8", "in16"])
            c["src"] = [(enc8 if c["form"] == "in8" else enc16)(s) for s in src]
            out.append(c)
    for c in out: c["k"] = "lex"
    cs, ob = utf_run(ctx, out)
    ctx.conform("LexTrace", cs, [{k: o[k] for k in ("e", "r")} for o in ob], view=spec_view)
    ctx.traces += sum(len(c["in"]) for c in cs)
    ctx.dist.update(json.dumps(c["calls"]) for c in cs)
    ctx.log("%d lexers over converted text" % len(cs))

def L20(ctx):
    model(ctx, "UtfCodes"); model(ctx, "UtfMC")
    ctx.build_many({"utf": ("utf.cpp", ASAN)})
    utf_all(ctx)
    def one(r, k):
        def seed(n): return ("-simulate", "num=%d" % (n if ctx.quick else 3 * n), "-seed", str(ctx.seed * 1000 + k))
        utf_ops(ctx, r, schedules(ctx, "UtfMCgen", seed(2500) + ("-depth", "31"), "UtfMC"))
        if k == 0: utf_ops(ctx, r, schedules(ctx, "UtfMCall", module="UtfMC"))
        utf_dec(ctx, r, 6000, k == 0)
        utf_lex(ctx, r, 500)
    rounds(ctx, one)

CHECKS = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "L" and k[1:].isdigit()}
