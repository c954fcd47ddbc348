"""Projection of recorded machines onto common character classes, and readers
of the library's text dumps and graphs.  No judgement is made here."""
import re

def breaks_machine(d, pts):
    for row in d["q"]:
        for lo, hi, _ in row[7]: pts.add(lo); pts.add(hi + 1)

def breaks_re(n, pts, mac=()):
    def add(lo, hi):
        pts.add(lo); pts.add(hi + 1)
    k = n["k"]
    if k == "chr": both(n["c"], n["c"], add)
    elif k == "str":
        for c in n["s"]: both(c, c, add)
    elif k == "set":
        for lo, hi in n["it"]: both(lo, hi, add)
    elif k in ("cat", "alt"):
        for a in n["a"]: breaks_re(a, pts)
    elif "n" in n: breaks_re(n["n"], pts)

def both(lo, hi, add):
    add(lo, hi)
    for a, b, d in ((65, 90, 32), (97, 122, -32)):
        l, h = max(lo, a), min(hi, b)
        if l <= h: add(l + d, h + d)

def rows(d, starts):
    """per state: target on each representative"""
    out = []
    for row in d["q"]:
        t, j = [], 0
        tr = row[7]
        for x in starts:
            while j < len(tr) and tr[j][1] < x: j += 1
            t.append(tr[j][2] if j < len(tr) and tr[j][0] <= x else 0)
        out.append(t)
    return out

def classes(ds, maxc, extra=()):
    """common classes of several machines; returns (reps, nl classes, [tables])"""
    pts = {0, 10, 11, 13, 14} | set(extra)
    for d in ds: breaks_machine(d, pts)
    starts = sorted(p for p in pts if 0 <= p <= maxc)
    tabs = [rows(d, starts) for d in ds]
    # merge intervals nothing tells apart: same columns in every machine and
    # not separated by a breakpoint of the rules
    ex = sorted(set(extra) | {0, 10, 11, 13, 14})
    import bisect
    seen, keep = {}, []
    for i, x in enumerate(starts):
        sig = (tuple(tuple(t[q][i] for q in range(len(t))) for t in tabs), bisect.bisect_right(ex, x))
        if sig not in seen: seen[sig] = True; keep.append(i)
    reps = [starts[i] for i in keep]
    nl = [k + 1 for k, x in enumerate(reps) if x in (10, 13)]
    res = []
    for d, t in zip(ds, tabs):
        res.append({"bol": d["bol"], "q": [row[:7] + [[t[q][i] for i in keep]] for q, row in enumerate(d["q"])]})
    return reps, nl, res

def pair(a, b, maxc, mode):
    """case for MachineEq"""
    dfas = []
    for x, y in zip(a["dfa"], b["dfa"]):
        reps, nl, (m, n) = classes([x, y], maxc)
        if mode == "bytes": nl = []
        dfas.append({"a": m, "b": n, "k": len(reps), "nl": nl})
    return {"mode": "equiv" if mode == "bytes" else mode, "dfas": dfas}

def proof(lex, m, maxc, rev=0):
    """case for MachineProof"""
    dfas = []
    pts = set()
    for r in lex["rules"]: breaks_re(r["re"], pts)
    for k in lex["mac"]: breaks_re(k["n"], pts)
    for d in m["dfa"]:
        reps, nl, (x,) = classes([d], maxc, pts)
        dfas.append({"m": x, "k": len(reps), "nl": nl, "rp": reps})
    return {"lex": lex, "dfas": dfas, "rev": rev}

# --------------------------------------------------------------- text dumps
class Bad(Exception): pass

ESC = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11}

def _char(s, i):
    """one character of a dumped set"""
    if s[i] != "\\": return ord(s[i]), i + 1
    c = s[i + 1]
    m = re.compile(r"[0-7]{3}").match(s, i + 1)
    if m: return int(m.group(), 8), m.end()
    if c == "x":
        m = re.compile(r"[0-9a-f]+").match(s, i + 2)
        return int(m.group(), 16), m.end()
    if c == "0": return 0, i + 2
    if c in ESC: return ESC[c], i + 2
    return ord(c), i + 2

def _set(s, maxc):
    """[...] or a single character -> list of ranges"""
    if not (s.startswith("[") and len(s) > 1):
        c, i = _char(s, 0)
        if i != len(s): raise Bad("trailing text in %r" % s)
        return [[c, c]]
    if not s.endswith("]"): raise Bad("no closing bracket in %r" % s)
    i, neg = 1, False
    if s[i] == "^": neg = True; i += 1
    out = []
    while i < len(s) - 1:
        lo, i = _char(s, i)
        hi = lo
        if s[i] == "-" and i < len(s) - 2:
            hi, i = _char(s, i + 1)
        out.append([lo, hi])
    if i != len(s) - 1: raise Bad("set runs over %r" % s)
    if neg:
        res, nxt = [], 0
        for lo, hi in sorted(out):
            if nxt < lo: res.append([nxt, lo - 1])
            nxt = max(nxt, hi + 1)
        if nxt <= maxc: res.append([nxt, maxc])
        out = res
    return out

def merge(tr):
    tr = sorted(tr)
    out = []
    for lo, hi, to in tr:
        if out and out[-1][2] == to and out[-1][1] + 1 == lo: out[-1][1] = hi
        else: out.append([lo, hi, to])
    for a, b in zip(out, out[1:]):
        if a[1] >= b[0]: raise Bad("overlapping transitions %r %r" % (a, b))
    return out

def ident(v, width):
    top = {"n8": 255, "n32": 2 ** 32 - 1, "nu": 2 ** 32 - 1}.get(width, 65535)
    return {top: 65535, top - 1: 65534}.get(v, v)

def read_dump(text, maxc, width, names=None):
    m, dfa, row = [], None, None
    for ln in text.split("\n"):
        if ln.startswith("Lexer state: "):
            nm = ln[13:]
            if nm != (names[len(m)] if names else str(len(m))): raise Bad("start state named %r" % nm)
            dfa = {"bol": 0, "q": [[0, 0, 65535, 65535, 0, 0, 0, []]]}; m.append(dfa)
        elif ln.startswith("State: "):
            if int(ln[7:]) + 1 != len(dfa["q"]): raise Bad("state number " + ln)
            row = [0, 0, 65535, 65535, 0, 0, 0, []]; dfa["q"].append(row)
        elif ln.startswith("  END STATE"):
            g = re.fullmatch(r"  END STATE(?:, PUSH (\d+)|(, POP))?, Id = (\d+), User Id = (\d+), dfa = (\d+)", ln)
            if not g: raise Bad("end state line %r" % ln)
            row[0] = 1; row[1] = ident(int(g.group(3)), width); row[2] = ident(int(g.group(4)), width)
            row[3] = int(g.group(1)) if g.group(1) else 65535
            row[6] = 1 if g.group(2) else 0
            row[4] = ident(int(g.group(5)), width)
        elif ln.startswith("  BOL -> "):
            if len(dfa["q"]) != 2: raise Bad("BOL line not in state 0")
            dfa["bol"] = int(ln[9:]) + 1
        elif ln.startswith("  EOL -> "): row[5] = int(ln[9:]) + 1
        elif ln.startswith("  "):
            s, _, to = ln[2:].rpartition(" -> ")
            for lo, hi in _set(s, maxc): row[7].append([lo, hi, int(to) + 1])
        elif ln: raise Bad("line %r" % ln)
    for d in m:
        for r in d["q"]: r[7] = merge(r[7])
    return {"dfa": m}

def read_dot(text, maxc, width, names):
    lines = text.split("\n")
    if lines[0] != "digraph DFAs {" or lines[-2] != "}": raise Bad("frame of the graph")
    m = {}
    nxt = {}
    def state(k, s): return m[k][s]
    for ln in lines[1:-2]:
        ln = ln.strip()
        if not ln or ln == "rankdir = LR;": continue
        g = re.fullmatch(r'L(\d+)_S(\d+) \[shape = (circle|doublecircle)(?:, xlabel="([^"]*)")?\];', ln)
        if g:
            k, s = int(g.group(1)), int(g.group(2))
            if s in m.setdefault(k, {}): raise Bad("node twice: " + ln)
            if s == 0:
                if g.group(4) != names[k]: raise Bad("start state name " + ln)
                m[k][s] = [0, 0, 65535, 65535, 0, 0, 0, []]
            elif g.group(3) == "doublecircle":
                i = re.fullmatch(r"id = (\d+)", g.group(4) or "")
                if not i: raise Bad("label " + ln)
                m[k][s] = [1, ident(int(i.group(1)), width), 65535, 65535, 0, 0, 0, []]
            else: m[k][s] = [0, 0, 65535, 65535, 0, 0, 0, []]
            continue
        g = re.fullmatch(r'L(\d+)_S(\d+) -> L(\d+)_S(\d+) \[label = <<TABLE BORDER="0" CELLBORDER="0"><TR><TD>(.*)</TD></TR></TABLE>>\];', ln)
        if g:
            k, s, k2, t = (int(g.group(j)) for j in (1, 2, 3, 4))
            if k2 != k or t not in m.get(k, {}): raise Bad("edge to no state: " + ln)
            lab = g.group(5)
            if re.search(r"[<>]|&(?!lt;|gt;|amp;)", lab): raise Bad("label is not HTML: " + ln)
            lab = lab.replace("\\\\", "\\").replace("&lt;", "<").replace("&gt;", ">").replace("&amp;", "&")
            for lo, hi in _set(lab, maxc): state(k, s)[7].append([lo, hi, t + 1])
            continue
        g = re.fullmatch(r'L(\d+)_S(\d+) -> L(\d+)_S0 \[style = "dashed"\];', ln)
        if g:
            k, s, t = (int(g.group(j)) for j in (1, 2, 3))
            if t >= len(names): raise Bad("edge to no state: " + ln)
            if (k, s) in nxt: raise Bad("two dashed edges: " + ln)
            nxt[k, s] = t
            continue
        raise Bad("line %r" % ln)
    out = []
    for k in range(len(m)):
        q = [[0, 0, 65535, 65535, 0, 0, 0, []]]
        for s in range(len(m[k])):
            r = m[k][s]; r[7] = merge(r[7]); r[4] = nxt.get((k, s), 65535); q.append(r)
        out.append({"bol": 0, "q": q})
    return {"dfa": out}
