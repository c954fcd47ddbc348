"""Checks of the parts of the interface around the lexer: features of results
objects (spec/Features.tla), sets of characters (spec/CharRanges.tla)."""
import json, os, random
import lib
import gen_lex as G
from checks_io import schedules
from checks_lex import model
from checks_more import rounds

ASAN = ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]

# ------------------------------------------------------------------ L22
def feat_cases(r, n, w):
    kw = {"w": ["u"]} if w == "u" else {}
    fams = [("l01", {}, 3), ("l03", {"free": True}, 4), ("l04", {}, 2), ("l05", {"nst": (1, 1)}, 2), ("l05", {}, 3), ("l06", {}, 4), ("l05", {"under": .1}, 1)]
    tot = sum(f[2] for f in fams)
    out = []
    for f, k, wt in fams:
        for c in getattr(G, f)(r, max(1, n * wt // tot), **k, **kw):
            c["in"] = c["in"][:5]; c["w"] = w; c["pick"] = r.randint(0, 4)
            c["nst"] = 1 + sum(1 for x in c["calls"] if x[0] == "state")
            out.append(c)
    return out

def L22(ctx):
    ctx.build_many({"featn": ("feat.cpp", ASAN + ["-DONE"]), "feat": ("feat.cpp", ["-O0"])})
    seen = set()
    def one(r, k):
        for w, b, n in (("n", "featn", 600), ("l", "feat", 300), ("u", "feat", 300)):
            cases = feat_cases(r, n, w)
            obs = ctx.replay_cases(ctx.bin(b), cases)
            keep = ctx.crashes(cases, obs)
            cs, ob = [cases[j] for j in keep], [{k: obs[j][k] for k in ("e", "f", "r")} for j in keep]
            ctx.conform("FeatTrace", cs, ob, view=lambda c: {k: c[k] for k in ("lex", "in", "nst")})
            ctx.traces += sum(len(t) for o in ob for t in o["r"])
            ctx.dist.update(json.dumps(c["calls"]) for c in cases)
            seen.update(o["f"] for o in ob)
            ctx.extra["sets_of_features_of_machines"] = len(seen)
            ctx.extra["results_objects"] = ctx.extra.get("results_objects", 0) + sum(len(t) for o in ob for t in o["r"])
            if cs: ctx.sample({"calls": cs[0]["calls"], "text": cs[0]["in"][-1], "machine": ob[0]["f"], "recorded": ob[0]["r"][-1][:3]})
            ctx.log("%s: %d lexers" % (w, len(cs)))
            if len(ctx.violations) >= 6: return
    rounds(ctx, one)

# ------------------------------------------------------------------ L23
TOPS = {"n": 255, "h": 0xffff, "w": 0x10ffff, "u": 0x10ffff}

def place(r, ops, w, points=10):
    """the small alphabet of a schedule laid out in a real one, keeping
    which values are neighbours now and then"""
    top = TOPS[w]
    while True:
        at = [r.choice([0, 0, 1, r.randint(0, top // 2)])]
        for _ in range(points - 1): at.append(at[-1] + r.choice([1, 1, 1, 2, 2, 3, r.randint(1, max(1, top // 6))]))
        if r.random() < .5: d = top - at[-1]; at = [max(0, x + d) if x + d >= 0 else x for x in at]
        if at[-1] <= top and all(a < b for a, b in zip(at, at[1:])): break
    out = []
    for o in ops:
        k = {"one": 1, "two": 2, "ins": 2}.get(o[0], 0)
        out.append(o[:2] + [at[x] for x in o[2:2 + k]] if k else o)
    return {"w": w, "max": top, "ops": out}

def pairs_of_sets(r, n, full):
    """every operation on (all, or some) pairs of sets over n points"""
    def build(s, m):
        runs = []
        for x in range(n):
            if m >> x & 1:
                if runs and runs[-1][1] == x - 1 and r.random() < .6: runs[-1][1] = x
                else: runs.append([x, x])
        r.shuffle(runs)
        return [["ins", s, a, b] for a, b in runs]
    out = []
    for a in range(1 << n):
        one = [["neg", 1]] + [["ins", 1, x, y] for x in range(n) for y in range(x, n)]
        for o in one: out.append(build(1, a) + [o])
        for b in range(1 << n):
            if not full and r.random() > .25: continue
            for o in (["rem", 1, 2], ["int", 1, 2, 3], ["add", 1, 2]): out.append(build(1, a) + build(2, b) + [o])
    return out

def ranges_run(ctx, cases, b, label):
    for lo in range(0, len(cases), 20000):
        part = cases[lo:lo + 20000]
        obs = ctx.replay_cases(ctx.bin(b), part)
        keep = ctx.crashes(part, obs)
        cs, ob = [part[j] for j in keep], [obs[j] for j in keep]
        ctx.conform("CharRangesTrace", cs, ob)
        ctx.traces += len(cs)
        ctx.dist.update(json.dumps(c["ops"]) for c in cs)
        ctx.extra["operations_replayed"] = ctx.extra.get("operations_replayed", 0) + sum(len(c["ops"]) for c in cs)
        if cs: ctx.sample({"kind": cs[0]["w"], "operations": cs[0]["ops"], "recorded": ob[0]["r"][-1]})
        if len(ctx.violations) >= 3: return
    ctx.log("%s: %d histories" % (label, len(cases)))

def L23(ctx):
    model(ctx, "CharRangesMC")
    ctx.build_many({"rg": ("ranges.cpp", ["-O1"]), "rga": ("ranges.cpp", ASAN)})
    def one(r, k):
        sch = schedules(ctx, "CharRangesMCgen", ("-simulate", "num=%d" % (4000 if ctx.quick else 12000), "-depth", "25", "-seed", str(ctx.seed * 1000 + k)), "CharRangesMC")
        ranges_run(ctx, [place(r, o, r.choice("nnhwu")) for o in sch], "rga", "random")
        if k == 0: ranges_run(ctx, [place(r, o, r.choice("nnhwu"), 6) for o in pairs_of_sets(r, 5 if ctx.quick else 6, True)], "rg", "pairs of sets")
    rounds(ctx, one)


# ------------------------------------------------------------------ L24
def L24(ctx):
    import gen_loc as GL
    ctx.build_many({"loc": ("locale.cpp", ASAN)})
    def one(r, k):
        locs = GL.locales(r, 25 if ctx.quick else 60)
        fn = ctx.path("locales"); json.dump(locs, open(fn, "w"), separators=(",", ":"))
        env = {"LOCALES": fn, "UNICODE": os.path.join(lib.VERIF, "data", "unicode.json")}
        cases = GL.generate(r, 2500 if ctx.quick else 6000, locs)
        obs = ctx.replay_cases(ctx.bin("loc"), [{x: c[x] for x in ("g", "calls")} for c in cases], env=env)
        keep = ctx.crashes(cases, obs)
        cs, ob = [cases[j] for j in keep], [{x: obs[j][x] for x in ("r", "obs")} for j in keep]
        ctx.conform("LocaleTrace", cs, ob, view=lambda c: {"g": c["g"], "calls": c["ops"]}, env=env)
        ctx.traces += len(cs)
        ctx.dist.update(json.dumps(c["calls"]) for c in cases)
        ctx.extra["locales"] = ctx.extra.get("locales", 0) + len(locs)
        if cs: ctx.sample({"calls": cs[0]["calls"], "recorded": ob[0]["r"], "reported": ob[0]["obs"]})
        ctx.log("%d histories, %d locales" % (len(cs), len(locs)))
    rounds(ctx, one)

CHECKS = {"L22": L22, "L23": L23, "L24": L24}
