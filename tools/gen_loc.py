"""Cases for the locale of rules (spec/LocaleTrace.tla)."""
import json, re
from gen_lex import NLF, SUPPR, ICASE, NOTCRLF
import gen_set as S

def table(al, up, lo, pairs, tu=(), tl=()):
    """pairs: (capital, small); tu, tl: single mappings on top"""
    TU, TL = list(range(256)), list(range(256))
    for u, l in pairs: TU[l] = u; TL[u] = l
    for a, b in tu: TU[a] = b
    for a, b in tl: TL[a] = b
    fr = [set() for _ in range(256)]
    for y in range(256):
        if TU[y] != y: fr[TU[y]].add(y)
        if TL[y] != y: fr[TL[y]].add(y)
    bits = lambda s: [int(x in s) for x in range(256)]
    return {"al": bits(al), "up": bits(up), "lo": bits(lo), "tu": TU, "tl": TL, "fr": [sorted(s) for s in fr]}

ASCII = [(c, c + 32) for c in range(65, 91)]
UP, LO = set(range(65, 91)), set(range(97, 123))

def locales(r, n):
    out = []
    l1 = [(c, c + 32) for c in range(192, 223) if c != 215]
    u1, o1 = {a for a, _ in l1}, {b for _, b in l1} | {181, 223, 255, 170, 186}
    out.append(table(UP | LO | u1 | o1, UP | u1, LO | o1, ASCII + l1))                                     # Latin-1
    tr = [p for p in ASCII if p[0] != 73]
    out.append(table(UP | LO | {221, 253}, UP | {221}, LO | {253}, tr, tu=[(105, 221), (253, 73)], tl=[(73, 253), (221, 105)]))  # Turkish
    out.append(table(UP | LO | {91, 92, 93, 123, 124, 125}, UP | {91, 92, 93}, LO | {123, 124, 125}, ASCII + [(91, 123), (92, 124), (93, 125)]))  # ISO 646-DE
    out.append(table(set(), set(), set(), []))                                                             # no letters
    koi = [(x + 32, x) for x in range(192, 224)]
    out.append(table(UP | LO | {a for p in koi for a in p}, UP | {a for a, _ in koi}, LO | {b for _, b in koi}, ASCII + koi))   # KOI8-R: capitals above
    while len(out) < n:
        pool = [x for x in range(33, 256) if not 48 <= x <= 57]
        r.shuffle(pool)
        k = r.choice([1, 3, 10, 40])
        ps = [(pool.pop(), pool.pop()) for _ in range(k)]
        base = r.random() < .6
        if base: ps = [p for p in ps if not (set(p) & (UP | LO))] + ASCII
        up, lo = {a for a, _ in ps}, {b for _, b in ps}
        lo |= {pool.pop() for _ in range(r.choice([0, 0, 3]))}      # small letters without a capital
        other = {pool.pop() for _ in range(r.choice([0, 0, 3]))}    # letters without case
        tu = [(pool.pop(), r.choice(ps)[0]) for _ in range(r.choice([0, 0, 1, 2]))]   # like the long s
        tl = []
        for _ in range(r.choice([0, 0, 1, 2])):                     # title case: has a capital and a small form besides itself
            t = pool.pop(); u, l = r.choice(ps); tu.append((t, u)); tl.append((t, l)); other.add(t)
        keep = lambda z: [t for t in z if t[0] not in up | lo]
        out.append(table(up | lo | other, up, lo, ps, tu=keep(tu), tl=keep(tl)))
    return out

def interesting(r, L):
    x = r.random()
    al = [k for k in range(256) if L["al"][k] or L["fr"][k] or L["tu"][k] != k or L["tl"][k] != k]
    return r.choice(al) if al and x < .7 else S.chars(r, 255)

def expr(r, L, macs, d=1):
    x = r.random()
    if d and x < .2: return {"k": r.choice(["dif", "uni"]), "a": expr(r, L, macs, 0), "b": expr(r, L, [], 0)}
    if macs and x < .35: return {"k": "mac", "m": r.choice(macs)}
    if x < .5: return {"k": "chr", "c": interesting(r, L)}
    if x < .57: return {"k": "esc", "e": r.choice("wdsWDS")}
    def member():
        y = r.random()
        if y < .5: return {"k": "posix", "c": r.choice(["alpha", "alnum", "lower", "upper"] * 3 + S.POSIX), "neg": int(r.random() < .25)}
        if y < .6: return {"k": "esc", "e": r.choice("wdsWDS")}
        a = interesting(r, L); b = a if r.random() < .5 else min(255, a + r.choice([1, 3, 20])) if r.random() < .7 else interesting(r, L)
        return {"k": "r", "lo": min(a, b), "hi": max(a, b)}
    return {"k": "set", "neg": int(r.random() < .3), "it": [member() for _ in range(r.choice([1, 1, 2, 3]))]}

def show(e, r):
    if e["k"] == "mac": return "{%s}" % e["m"]
    if e["k"] in ("dif", "uni"): return show(e["a"], r) + {"dif": "{-}", "uni": "{+}"}[e["k"]] + show(e["b"], r)
    t = S.show(e, r, True, None)
    return "\\" + t if t[0] in "^$" else t

def generate(r, n, locs):
    out = []
    for _ in range(n):
        g = 0 if r.random() < .7 else r.randint(1, len(locs))
        cur = g; calls, ops, macs, nid = [], [], [], 0
        L = locs[(r.randint(1, len(locs)) if cur == 0 else cur) - 1]
        def flags():
            i, d = int(r.random() < .6), r.choice([1, 1, 0, 2])
            calls.append(["flags", SUPPR | (ICASE if i else 0) | (NLF if d == 1 else NOTCRLF if d == 2 else 0)])
            ops.append({"o": "flags", "i": i, "dot": d})
        flags()
        for _ in range(r.randint(2, 8)):
            x = r.random()
            if x < .35:
                cur = r.randint(0, len(locs)); calls.append(["imbue", cur]); ops.append({"o": "imbue", "l": cur})
                if cur: L = locs[cur - 1]
            elif x < .45: flags()
            elif x < .6:
                m = "m%d" % len(calls); e = expr(r, L, macs); calls.append(["macro", m, show(e, r)]); ops.append({"o": "macro", "m": m, "e": e})
                # only one that is there can be used; whether an empty one was refused is for the specification to say
                if e["k"] in ("chr", "esc"): macs.append(m)
            elif x < .64: calls.append(["clear"]); ops.append({"o": "clear"}); macs = []; flags()
            else: nid += 1; e = expr(r, L, macs); calls.append(["push", show(e, r), nid]); ops.append({"o": "push", "id": nid, "e": e})
        nid += 1; e = expr(r, L, macs); calls.append(["push", show(e, r), nid]); ops.append({"o": "push", "id": nid, "e": e})
        out.append({"g": g, "calls": calls, "ops": ops})
    return out
