"""Syntax trees of the documented regex language: construction, concrete
syntax, sampling.  (The meaning is in spec/Regex.tla, not here.)"""
import random

META = set('"\\()?*+{}|^$./[] \t\n\r\f\v-#')

def chr_(c): return {"k": "chr", "c": c}
def str_(s): return {"k": "str", "s": list(s)}
def dot(): return {"k": "dot"}
def set_(it, neg=0): return {"k": "set", "neg": neg, "it": [list(x) for x in it]}
def cat(*a): return {"k": "cat", "a": list(a)}
def alt(*a): return {"k": "alt", "a": list(a)}
def rep(n, lo, hi, lazy=0): return {"k": "rep", "n": n, "lo": lo, "hi": hi, "lz": lazy}
def opt(n, i=-1, s=-1, x=-1): return {"k": "opt", "i": i, "s": s, "x": x, "n": n}
def mac(m, name): return {"k": "mac", "m": m, "name": name}

def nullable(n, macs=()):
    k = n["k"]
    if k in ("chr", "dot", "set"): return False
    if k == "str": return not n["s"]
    if k == "cat": return all(nullable(x, macs) for x in n["a"])
    if k == "alt": return any(nullable(x, macs) for x in n["a"])
    if k == "rep": return n["lo"] == 0 or nullable(n["n"], macs)
    if k == "opt": return nullable(n["n"], macs)
    if k == "mac": return nullable(macs[n["m"] - 1]["n"], macs)
    raise ValueError(k)

def size(n, macs=()):
    """number of positions after repeat expansion"""
    k = n["k"]
    if k in ("chr", "dot", "set"): return 1
    if k == "str": return len(n["s"])
    if k in ("cat", "alt"): return sum(size(x, macs) for x in n["a"])
    if k == "rep": return size(n["n"], macs) * max(1, n["lo"], n["hi"])
    if k == "opt": return size(n["n"], macs)
    if k == "mac": return size(macs[n["m"] - 1]["n"], macs)

# ---------------------------------------------------------------- concrete
ESC = {7: "\\a", 8: "\\b", 27: "\\e", 12: "\\f", 10: "\\n", 13: "\\r", 9: "\\t", 11: "\\v"}

def show_char(c, rnd, plain=0.75, inset=False, x=False, maxc=255):
    """x: the ignore-whitespace option is on"""
    forms = []
    printable = 33 <= c <= 126
    if c in ESC and rnd.random() < 0.6: return ESC[c]
    if printable and not chr(c).isalnum():
        if rnd.random() < 0.6: return "\\" + chr(c)
    elif printable and rnd.random() < plain:
        return chr(c)
    elif c > 126 and rnd.random() < 0.5 and not 0xd800 <= c < 0xe000:
        return chr(c)
    if c < 0o1000 and c <= maxc: forms.append("\\%03o" % c)
    forms.append("\\x%02x" % c)
    if 1 <= c <= 26: forms.append("\\c" + chr(c + 64))
    if not inset and c not in (34, 92) and c >= 32 and c != 127: forms.append('"' + chr(c) + '"')
    if not inset and c != 92 and c != 93 and c != 94 and 33 <= c <= 126 and c != 0x5b: forms.append("[" + chr(c) + "]")
    return rnd.choice(forms)

def needs_sep(prev, nxt):
    """\\x41 followed by a hex digit, octal followed by digit"""
    import re
    if re.search(r"\\x[0-9a-fA-F]+$", prev) and nxt[:1] in "0123456789abcdefABCDEF": return True
    return False

def join(parts):
    out = ""
    for p in parts:
        if needs_sep(out, p): out += '""' 
        out += p
    return out

def show_set(n, rnd):
    # hex escapes inside a set are always followed by a non-hex or closed by
    # ordering; use \xHH only with a following range dash/bracket-safe char
    s = "[^" if n["neg"] else "["
    for lo, hi in n["it"]:
        a = show_setchar(lo, rnd)
        if lo == hi and rnd.random() < 0.85: s += a
        else: s += a + "-" + show_setchar(hi, rnd)
    return s + "]"

def show_setchar(c, rnd):
    if c in ESC and rnd.random() < 0.7: return ESC[c]
    if 33 <= c <= 126 and chr(c).isalnum() and rnd.random() < 0.9: return chr(c)
    if 33 <= c <= 126 and not chr(c).isalnum(): return "\\" + chr(c)
    if c > 160 and not 0xd800 <= c < 0xe000 and rnd.random() < 0.5: return chr(c)
    if c <= 255: return "\\%03o" % c
    return chr(c) if not 0xd800 <= c < 0xe000 else "\\x%x" % c

def show(n, rnd, ctx=0, x=False, fancy=True):
    """ctx: 0 alternation allowed, 1 inside concatenation, 2 operand of a repeat"""
    k = n["k"]
    def ws():
        if x and fancy and rnd.random() < 0.3: return rnd.choice([" ", "\t", "\n", " /* c */ ", "\r\n"])
        if fancy and rnd.random() < 0.04: return "(?#c(x)*)"
        return ""
    if k == "chr": return ws() + show_char(n["c"], rnd, plain=0.75 if fancy else 1.0, x=x)
    if k == "dot": return ws() + "."
    if k == "set": return ws() + show_set(n, rnd)
    if k == "mac": return ws() + "{" + n["name"] + "}"
    if k == "str":
        body = ""
        for c in n["s"]:
            if c == 34 or c == 92: body += "\\" + chr(c)
            elif c in ESC and rnd.random() < 0.7: body += ESC[c]
            else: body += chr(c)
        r = '"' + body + '"'
        return ws() + (r if ctx < 2 else "(" + r + ")")
    if k == "rep":
        lo, hi = n["lo"], n["hi"]
        forms = []
        if (lo, hi) == (0, -1): forms += ["*", "*", "{0,}"]
        elif (lo, hi) == (1, -1): forms += ["+", "+", "{1,}"]
        elif (lo, hi) == (0, 1): forms += ["?", "?", "{0,1}"]
        elif hi == -1: forms += ["{%d,}" % lo]
        elif lo == hi: forms += ["{%d}" % lo, "{%d,%d}" % (lo, hi)]
        else: forms += ["{%d,%d}" % (lo, hi)]
        inner = show(n["n"], rnd, 2, x, fancy)
        f = rnd.choice(forms)
        if n["n"]["k"] == "rep" : inner = "(" + inner + ")"
        return inner + f + ("?" if n.get("lz") else "")
    if k == "cat":
        parts = [show(a, rnd, 1, x, fancy) for a in n["a"]]
        r = join(parts)
        return r if ctx < 2 and (ctx == 0 or rnd.random() < 0.8) else "(" + r + ")"
    if k == "alt":
        r = "|".join(show(a, rnd, 1, x, fancy) for a in n["a"])
        return r if ctx == 0 else rnd.choice(["(", "(", "(?:"]) + r + ")"
    if k == "opt":
        o = ""
        for fl, ch in (("i", "i"), ("s", "s"), ("x", "x")):
            v = n.get(fl, -1)
            if v == 1: o += ch
            elif v == 0: o += "-" + ch
        nx = x if n.get("x", -1) == -1 else n["x"] == 1
        return "(?" + o + ":" + show(n["n"], rnd, 0, nx, fancy) + ")"
    raise ValueError(k)

# ---------------------------------------------------------------- sampling
def sample(n, rnd, alpha, macs=(), depth=0):
    k = n["k"]
    if k == "chr": return [n["c"]]
    if k == "str": return list(n["s"])
    if k == "dot": return [rnd.choice([c for c in alpha if c not in (10, 13)] or [97])]
    if k == "set":
        if n["neg"]:
            ok = [c for c in alpha if not any(l <= c <= h for l, h in n["it"])]
            return [rnd.choice(ok)] if ok else [rnd.choice(alpha)]
        l, h = rnd.choice(n["it"])
        return [rnd.randint(l, h)] if rnd.random() < .5 else [rnd.choice([c for c in alpha if l <= c <= h] or [l])]
    if k == "cat": return sum((sample(x, rnd, alpha, macs, depth) for x in n["a"]), [])
    if k == "alt": return sample(rnd.choice(n["a"]), rnd, alpha, macs, depth)
    if k == "rep":
        lo, hi = n["lo"], n["hi"]
        top = lo + 2 if hi == -1 else hi
        return sum((sample(n["n"], rnd, alpha, macs, depth + 1) for _ in range(rnd.randint(lo, max(lo, top)))), [])
    if k == "opt": return sample(n["n"], rnd, alpha, macs, depth)
    if k == "mac": return sample(macs[n["m"] - 1]["n"], rnd, alpha, macs, depth)

# ---------------------------------------------------------------- random trees
class Gen:
    def __init__(self, rnd, alpha, **kw):
        self.r, self.alpha = rnd, list(alpha)
        self.reps = kw.get("reps", True)
        self.big = kw.get("big", False)     # large counted repeats
        self.opts = kw.get("opts", False)
        self.strs = kw.get("strs", True)
        self.dots = kw.get("dots", True)
        self.macs = kw.get("macs", [])      # [{"name","n","fl"}]
        self.maxsize = kw.get("maxsize", 24)
        self.nonl = kw.get("nonl", False)   # sets never contain CR or LF

    def charset(self):
        r = self.r
        its = []
        for _ in range(r.randint(1, 3)):
            a, b = sorted((r.choice(self.alpha), r.choice(self.alpha)))
            if r.random() < 0.6: b = a
            its.append([a, b])
        cover = sum(h - l + 1 for l, h in its)
        neg = 1 if r.random() < 0.25 and cover < 200 else 0
        if self.nonl:
            if neg: its += [[10, 10], [13, 13]]
        return set_(its, neg)

    def atom(self):
        r = self.r
        x = r.random()
        if x < 0.55: return chr_(r.choice(self.alpha))
        if x < 0.78: return self.charset()
        if x < 0.86 and self.dots: return dot()
        if x < 0.94 and self.strs: return str_([r.choice(self.alpha) for _ in range(r.randint(1, 3))])
        if self.macs: 
            m = r.randrange(len(self.macs)); return mac(m + 1, self.macs[m]["name"])
        return chr_(r.choice(self.alpha))

    def node(self, d):
        r = self.r
        if d == 0: return self.atom()
        x = r.random()
        if x < 0.2: return self.atom()
        if x < 0.5: return cat(*[self.node(d - 1) for _ in range(r.randint(2, 3))])
        if x < 0.68: return alt(*[self.node(d - 1) for _ in range(r.randint(2, 3))])
        if x < 0.93 and self.reps:
            q = r.choice([(0, -1), (0, -1), (1, -1), (1, -1), (0, 1), (0, 1), (2, 2), (1, 3), (0, 2), (2, -1), (1, 2), (3, 3), (0, 3), (2, 4)])
            if self.big and r.random() < 0.3: 
                lo = r.randint(0, 6); q = (lo, r.choice([-1, max(lo, 1), lo + r.randint(1, 4)]))
            return rep(self.node(d - 1), *q)
        if self.opts:
            return opt(self.node(d - 1), i=r.choice([-1, 0, 1, 1]), s=r.choice([-1, -1, 1, 1] if self.opts == 2 else [-1, -1, 0, 1]), x=r.choice([-1, -1, 0, 1]))
        return self.atom()

    def expr(self, d, nonnull=True):
        while True:
            n = self.node(d)
            if size(n, self.macs) > self.maxsize: continue
            if nonnull and nullable(n, self.macs): continue
            return n
