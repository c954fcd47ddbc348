"""Cases for the character-set specification (spec/CharSet.tla)."""
import bisect, json, os, random, re
from gen_lex import NLF, SUPPR, ICASE, NOTCRLF, SKIPWS
U = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "unicode.json")))
ESC = {7: "\\a", 8: "\\b", 27: "\\e", 12: "\\f", 10: "\\n", 13: "\\r", 9: "\\t", 11: "\\v"}
POSIX = ["alpha", "alnum", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "xdigit"]
PROPS = [{"t": "cat", "n": n} for n in U["cat"]] + [{"t": "block", "n": n} for n in U["block"]] + [{"t": "script", "n": n} for n in U["script"]]
TAB = {"cat": U["cat"], "block": U["block"], "script": U["script"]}
MAX = {"n": 255, "n8": 255, "n32": 255, "w": 0x10ffff, "u": 0x10ffff, "nu": 0x10ffff, "h": 0xffff}

def pname(p): return p["n"] if p["t"] == "cat" else "In" + p["n"].replace(" ", "_") if p["t"] == "block" else "Is" + p["n"]

HEX = "0123456789abcdefABCDEF"
def form(c, r, plain, narrow_rules):
    """(text, ends in a hex escape) of one character"""
    if c in ESC and r.random() < .6: return ESC[c], 0
    f = []
    if plain and (not narrow_rules or 0 < c < 127): f += [(chr(c), 0)] * 3 if not 0xd800 <= c < 0xe000 and c else []
    elif 33 <= c <= 126 and not chr(c).isalnum(): f += [("\\" + chr(c), 0)] * 3
    if c < 512: f.append(("\\%03o" % c, 0))
    if c < 8: f.append(("\\%o" % c, 2))
    if 0 < c <= 26: f.append(("\\c" + chr(c + r.choice([64, 96])), 0))
    if c == 0: f.append(("\\c@", 0))
    f.append((r.choice(["\\x%x", "\\x%02X", "\\x%05x"]) % c, 1))
    return r.choice(f)

def show_set(e, r, nr):
    while True:
        out = "[^" if e["neg"] else "["
        pend = 0; ok = True; first = True
        def put(t, end):
            nonlocal out, pend, ok
            if pend == 1 and t[0] in HEX or pend == 2 and t[0] in "01234567": ok = False
            out += t; pend = end
        for k, m in enumerate(e["it"]):
            if m["k"] == "r":
                # what needs no escape inside a bracket expression
                plain = lambda c: c not in (92, 93, 45, 94) and not (c == 91) and c != 10 and c != 13
                if m["lo"] == m["hi"] and first and m["lo"] == 93 and r.random() < .5: put("]", 0)
                elif m["lo"] == m["hi"] and m["lo"] == 45 and (first and not e["neg"] or k == len(e["it"]) - 1) and r.random() < .5: put("-", 0); ok = ok and not (first and len(e["it"]) > 1 and False)
                else:
                    t, end = form(m["lo"], r, plain(m["lo"]), nr); put(t, end)
                    if m["lo"] != m["hi"] or r.random() < .1:
                        put("-", 0); t, end = form(m["hi"], r, plain(m["hi"]), nr); put(t, end)
            elif m["k"] == "esc": put("\\" + m["e"], 0)
            elif m["k"] == "prop": put("\\p{%s}" % pname(m["p"]), 0)
            else: put("[:%s%s:]" % ("^" if m["neg"] else "", m["c"]), 0)
            first = False
        # a dash after anything makes a range of it
        if ok: return out + "]"

def show(e, r, nr, macs, top=False):
    k = e["k"]
    if k == "chr":
        c = e["c"]
        if 33 <= c <= 126 and chr(c).isalnum() and r.random() < .6: return chr(c)
        if c > 160 and not nr and not 0xd800 <= c < 0xe000 and r.random() < .5: return chr(c)
        if 32 <= c <= 126 and c not in (34, 92) and r.random() < .3: return '"' + chr(c) + '"'
        t, end = form(c, r, False, nr); return t
    if k == "dot": return "."
    if k == "esc": return "\\" + e["e"]
    if k == "prop": return "\\p{%s}" % pname(e["p"])
    if k == "set":
        s = show_set(e, r, nr)
        return s
    l, op, rr = show(e["a"], r, nr, macs), {"dif": "{-}", "uni": "{+}"}[k], show(e["b"], r, nr, macs)
    out = []
    for t in (l, rr):
        if macs is not None and r.random() < .2 and not re.search(r"\{[-+]\}", t):
            nm = "c%d" % len(macs); macs.append((nm, t)); t = "{" + nm + "}"
        out.append(t)
    return out[0] + op + out[1]

def chars(r, mx):
    pool = [lambda: r.randrange(32, 127), lambda: r.choice([0, 9, 10, 13, 32, 34, 36, 40, 42, 45, 47, 91, 92, 93, 94, 123, 127]), lambda: r.randrange(128, 256), lambda: r.choice([mx, mx - 1, 255, 254])]
    if mx > 255: pool += [lambda: r.choice(U["inv"])[0], lambda: r.choice(U["inv"])[1], lambda: r.choice([0x100, 0xff, 0x7ff, 0x800, 0xffff, 0xfffe, 0xd7ff, 0xe000, 0x3000]), lambda: r.randrange(0x100, 0x3000)]
    if mx > 0xffff: pool += [lambda: r.choice([0x10000, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10ffff]), lambda: r.randrange(0x10000, 0x110000)]
    while True:
        c = r.choice(pool)()
        if c <= mx: return c

def member(r, mx, props=True):
    x = r.random()
    if x < .6:
        lo = chars(r, mx)
        if r.random() < .5: return {"k": "r", "lo": lo, "hi": lo}
        hi = min(mx, lo + r.choice([1, 2, 5, 30, 300, 5000])) if r.random() < .6 else chars(r, mx)
        return {"k": "r", "lo": min(lo, hi), "hi": max(lo, hi)}
    if x < .75: return {"k": "esc", "e": r.choice("dDsSwW")}
    if x < .9 or not props: return {"k": "posix", "c": r.choice(POSIX), "neg": int(r.random() < .3)}
    return {"k": "prop", "p": r.choice(PROPS)}

def expr(r, mx, d=2):
    x = r.random()
    if d and x < .3: return {"k": r.choice(["dif", "uni"]), "a": expr(r, mx, d - 1), "b": expr(r, mx, 0)}
    if x < .35: return {"k": "dot"}
    if x < .42: return {"k": "esc", "e": r.choice("dDsSwW")}
    if x < .5: return {"k": "chr", "c": chars(r, mx)}
    if x < .58 and mx > 255: return {"k": "prop", "p": r.choice(PROPS)}
    return {"k": "set", "neg": int(r.random() < .3), "it": [member(r, mx, mx > 255 or r.random() < .05) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]}

def mk(w, rules, r, fold=None):
    """rules: [(expr, icase, dot)]"""
    calls, rs, macs = [], [], []
    nr = w in ("n", "n8", "n32", "nu")
    cur = None
    x = r.random() < .1
    for k, (e, i, d) in enumerate(rules):
        f = SUPPR | (ICASE if i else 0) | (NLF if d == 1 else NOTCRLF if d == 2 else 0) | (SKIPWS if x else 0)
        if f != cur: calls.append(["flags", f]); cur = f
        ms = [] if r.random() < .3 else None
        t = show(e, r, nr, ms)
        for nm, mt in ms or []:
            nm2 = nm + "_%d" % k
            t = t.replace("{" + nm + "}", "{" + nm2 + "}"); calls.append(["macro", nm2, mt])
        if t.startswith("^") or t.startswith("$"): t = "\\" + t
        calls.append(["push", t, k + 1])
        rs.append({"e": e, "i": int(i), "dot": d})
    return {"w": w, "calls": calls, "flags": SUPPR | NLF, "rules": rs}

def generate(r, tier, quick):
    out = []
    if tier == "names":
        for p in PROPS:
            out.append(mk(r.choice("wu"), [({"k": "prop", "p": p}, 0, 1)], r))
            e = {"k": "set", "neg": int(r.random() < .5), "it": [{"k": "prop", "p": p}]}
            out.append(mk(r.choice("wuh"), [(e, int(r.random() < .1), 1)], r))
        return out
    if tier == "posix":
        for w in ("n", "w", "u", "n8", "h", "nu"):
            for c in POSIX:
                for neg in (0, 1):
                    for i in (0, 1):
                        out.append(mk(w, [({"k": "set", "neg": int(r.random() < .3), "it": [{"k": "posix", "c": c, "neg": neg}]}, i, 1)], r))
            for e in "dDsSwW":
                for i in (0, 1):
                    out.append(mk(w, [({"k": "esc", "e": e}, i, 1)], r))
                    out.append(mk(w, [({"k": "set", "neg": int(r.random() < .5), "it": [{"k": "esc", "e": e}]}, i, 1)], r))
            for d in (0, 1, 2): out.append(mk(w, [({"k": "dot"}, 0, d)], r))
        return out
    if tier == "bytes":
        # every single character of the narrow alphabet, as a literal, with and without folding
        for c in range(256):
            for i in (0, 1): out.append(mk(r.choice(["n", "n8", "n32"]), [({"k": "chr", "c": c}, i, 1), ({"k": "set", "neg": 0, "it": [{"k": "r", "lo": c, "hi": c}, member(r, 255, False)]}, i, 1)], r))
        return out
    n = 2200 if quick else 4000
    for _ in range(n):
        w = r.choice(["n", "n", "n", "n8", "w", "u", "h", "w", "nu"])
        mx = MAX[w]
        rules = [(expr(r, mx), int(r.random() < .3), r.choice([1, 1, 0, 2])) for _ in range(r.choice([1, 1, 2, 3]))]
        out.append(mk(w, rules, r))
    return out

FIX = {9, 10, 11, 12, 13, 14, 32, 33, 48, 58, 65, 71, 91, 95, 96, 97, 103, 123, 127, 128, 31, 126, 8}
def bounds(e, s):
    k = e["k"]
    if k == "chr": s.update((e["c"], e["c"] + 1))
    elif k == "r": s.update((e["lo"], e["hi"] + 1))
    elif k == "prop":
        for a, b in TAB[e["p"]["t"]][e["p"]["n"]]: s.update((a, b + 1))
    elif k == "set":
        for m in e["it"]: bounds(m, s)
    elif k in ("dif", "uni"): bounds(e["a"], s); bounds(e["b"], s)
    elif k == "posix":
        for n in {"alpha": ["Ll", "Lu"], "alnum": ["Ll", "Lu", "Nd"], "blank": ["Zs"], "cntrl": ["Cc"], "digit": ["Nd"], "graph": ["Z", "C"], "lower": ["Ll"],
                  "print": ["C"], "punct": ["P", "S"], "space": ["Z"], "upper": ["Lu"], "xdigit": []}[e["c"]]:
            for a, b in U["cat"][n]: s.update((a, b + 1))

INVX = sorted({x for x, y in U["inv"]})
def view(c, o):
    """the case as TLC sees it: representatives and what the machine does there"""
    mx = MAX[c["w"]]
    s = {0} | FIX
    for r in c["rules"]:
        bounds(r["e"], s)
        if r["i"]: 
            if mx > 255:
                for x in INVX: s.update((x, x + 1))
            else:
                for x in list(s):
                    if 65 <= x <= 91 or 97 <= x <= 123: s.update((x ^ 32, (x ^ 32) + 1))
    tr = []
    if not o["e"]:
        q = o["m"]["base"]["dfa"][0]["q"]
        for lo, hi, to in q[1][7]:
            s.update((lo, hi + 1)); tr.append((lo, hi, q[to][1] if q[to][0] else 9999))
    reps = sorted(x for x in s if 0 <= x <= mx)
    los = [t[0] for t in tr]
    obs = []
    for x in reps:
        j = bisect.bisect_right(los, x) - 1
        obs.append(tr[j][2] if j >= 0 and tr[j][1] >= x else 0)
    return {"wide": int(mx > 255), "max": mx, "rules": c["rules"], "reps": reps, "obs": obs, "err": int(bool(o["e"]))}
