"""Case generators for the lexing properties.  Each returns a list of cases
{"lex": specification view, "calls": library calls, "in": texts, ...}."""
import random
from rx import *

NPOS, SKIP = 65535, 65534
FL0 = {"i": False, "dot": 1}
NLF = 2          # dot_not_newline (default)
ICASE, NOTCRLF, SKIPWS, ZEROLEN, SUPPR = 1, 4, 8, 16, 32

def U(s): return s

def rule(re, id, uid=NPOS, st=0, bol=0, eol=0, nx=None, push=-1, pop=0, fl=None, lazy=0):
    return {"st": st, "bol": bol, "eol": eol, "re": re, "fl": fl or FL0, "id": id, "uid": uid,
            "nx": st if nx is None else nx, "push": push, "pop": pop, "lazy": lazy}

def texts(rnd, rules, alpha, n, maxlen, macs=(), nl=0.15):
    out = [[]]
    for _ in range(n):
        t = []
        while len(t) < maxlen and (not t or rnd.random() < 0.75):
            x = rnd.random()
            if x < 0.7 and rules:
                s = sample(rnd.choice(rules)["re"], rnd, alpha, macs)
                if s and rnd.random() < 0.25: s = s[:-1]
                if s and rnd.random() < 0.15: s[rnd.randrange(len(s))] = rnd.choice(alpha)
                t += s
            elif x < 0.7 + nl: t += rnd.choice([[10], [13, 10], [10, 10], [13]])
            else: t.append(rnd.choice(alpha))
        out.append(t[:maxlen])
    return out

def case(rules, calls, ins, macs=(), flags=NLF | SUPPR, fail="", **kw):
    d = {"lex": {"rules": rules, "mac": [{"n": m["n"], "fl": m["fl"]} for m in macs]},
         "calls": calls, "in": ins, "flags": flags, "fail": fail}
    d.update(kw)
    return d

def anchored(r, txt): return ("^" if r["bol"] else "") + txt + ("$" if r["eol"] else "")

def render(r, rnd, x=False, fancy=True):
    t = show(r["re"], rnd, 0, x, fancy)
    # with an anchor an alternation at top level must be grouped so that the
    # anchor applies to the whole rule; a literal ^/$ never starts/ends a rule
    # unescaped because show_char escapes or quotes them
    if (r["bol"] or r["eol"]) and r["re"]["k"] == "alt": t = "(" + t + ")"
    if t.startswith("^"): t = "\\" + t
    return anchored(r, t)

# ------------------------------------------------------------------ L01
def l01(rnd, n, w=None):
    out = []
    alphas = [[97, 98], [97, 98, 99], [97, 98, 99, 100], [97, 98, 10], [48, 97, 120, 255, 0]]
    for _ in range(n):
        alpha = rnd.choice(alphas)
        g = Gen(rnd, alpha, maxsize=18)
        k = rnd.choice([1, 2, 2, 3, 3, 4, 5])
        rules, calls = [], []
        for j in range(k):
            # related rules: extend or vary an earlier rule so that priorities matter
            if rules and rnd.random() < 0.45:
                base = rnd.choice(rules)["re"]
                re = rnd.choice([lambda: cat(base, g.expr(1)), lambda: alt(base, g.expr(1)), lambda: rep(base, 1, -1), lambda: base,
                                 lambda: alt(g.expr(1), base)])()
                if size(re) > 26: re = g.expr(2)
            else: re = g.expr(rnd.choice([0, 1, 2, 2, 3]))
            uid = rnd.choice([NPOS, NPOS, rnd.randint(0, 9)])
            id = rnd.randint(1, 6)
            r = rule(re, id, uid)
            rules.append(r)
            t = render(r, rnd, fancy=False)
            calls.append(["push", t, id] if uid == NPOS else ["pushu", t, id, uid])
        out.append(case(rules, calls, texts(rnd, rules, alpha, 7, 12, nl=0.02), min=rnd.choice([0, 0, 0, 1])))
        if w: out[-1]["w"] = rnd.choice(w)
    return out

def l01_exhaustive(rnd, n):
    """all pairs from a pool of small rules, all texts up to length 4 over {a,b}"""
    A, B = chr_(97), chr_(98)
    pool = [A, B, cat(A, B), cat(B, A), cat(A, A), alt(A, B), rep(A, 1, -1), rep(B, 1, -1), cat(A, rep(B, 0, -1)), cat(rep(A, 0, -1), B),
            rep(cat(A, B), 1, -1), cat(A, rep(B, 0, 1), A), rep(alt(A, cat(B, A)), 1, -1), rep(A, 2, 3), cat(alt(A, B), B), rep(alt(A, B), 2, -1),
            cat(rep(alt(A, B), 0, -1), A, B), alt(cat(A, B, A), B), cat(A, rep(cat(A, B), 0, -1))]
    ts = [[]]
    for L in range(1, 5):
        for v in range(2 ** L): ts.append([97 + ((v >> b) & 1) for b in range(L)])
    pairs = [(i, j) for i in range(len(pool)) for j in range(len(pool)) if i != j]
    rnd.shuffle(pairs)
    out = []
    for i, j in pairs[:n]:
        rules = [rule(pool[i], 1), rule(pool[j], 2)]
        calls = [["push", render(r, rnd, fancy=False), r["id"]] for r in rules]
        out.append(case(rules, calls, ts))
    return out

# ------------------------------------------------------------------ L03
def mix_nl(n, extra):
    """No part of the expression is exactly a newline: those compete with $
    in a way the builder settles (or refuses) by rule order."""
    k = n["k"]
    if k == "chr": return set_([[10, 10], [extra, extra]]) if n["c"] == 10 else n
    if k == "str": return cat(*[mix_nl(chr_(c), extra) for c in n["s"]]) if 10 in n["s"] else n
    if k == "set":
        if not n["neg"] and all(l == h == 10 for l, h in n["it"]): return set_([[10, 10], [extra, extra]])
        return n
    if k in ("cat", "alt"): return {"k": k, "a": [mix_nl(x, extra) for x in n["a"]]}
    if "n" in n: return dict(n, n=mix_nl(n["n"], extra))
    return n

def l03(rnd, n, free=False, w=None):
    out = []
    for _ in range(n):
        base = rnd.choice([[97, 98], [97, 98, 99]])
        alpha = base + [10, 13] if free else base
        g = Gen(rnd, alpha, maxsize=12, dots=free, nonl=not free)
        k = rnd.choice([1, 2, 3, 3, 4])
        rules, calls = [], []
        for j in range(k):
            if rules and rnd.random() < 0.5: re = rnd.choice(rules)["re"]
            else: re = g.expr(rnd.choice([0, 1, 2, 2]))
            if rnd.random() < 0.2: re = cat(re, g.expr(1))
            if free: re = mix_nl(re, base[0])
            r = rule(re, rnd.randint(1, 6), bol=int(rnd.random() < .35), eol=int(rnd.random() < .35))
            rules.append(r)
            calls.append(["push", render(r, rnd, fancy=False), r["id"]])
        if not free:
            x = rnd.random()
            nlr = None
            if x < .3: nlr = rule(chr_(10), 7)
            elif x < .5: nlr = rule(rep(set_([[10, 10], [13, 13]]), 1, -1), 7)
            elif x < .7: nlr = rule(cat(rep(chr_(13), 0, 1), chr_(10)), rnd.choice([7, SKIP]))
            elif x < .8: nlr = rule(set_([[0, 255]]), 8)
            if nlr:
                rules.append(nlr); calls.append(["push", render(nlr, rnd, fancy=False), nlr["id"]])
        out.append(case(rules, calls, texts(rnd, rules, alpha, 9, 12, nl=0.3), min=rnd.choice([0, 0, 1])))
        if w: out[-1]["w"] = rnd.choice(w)
    return out


# ------------------------------------------------------- several start states
NAMES = ["INITIAL", "ONE", "_two", "C3-x", "four"]

def walk_text(rnd, rules, alpha, maxlen, macs=(), junk=0.06):
    """a text following the rules' own state changes"""
    st, stk, t = 0, [], []
    while len(t) < maxlen:
        if rnd.random() < junk: t.append(rnd.choice(alpha))
        cand = [r for r in rules if r["st"] == st and not (r["pop"] and not stk and rnd.random() < .8)]
        if not cand or rnd.random() < 0.05: break
        r = rnd.choice(cand)
        s = sample(r["re"], rnd, alpha, macs)
        if r["eol"] and rnd.random() < .7: s = s + [10]
        if r["bol"] and t and t[-1] != 10 and rnd.random() < .7: s = [10] + s
        t += s
        if r["pop"]:
            if not stk: break
            st = stk.pop()
        else:
            if r["push"] != -1: stk.append(r["push"])
            st = r["nx"]
    return t[:maxlen]

def multi(rnd, n, push=0.0, again=0.0, skip=0.0, anchors=0.0, nst=(2, 4), maxlen=14, ntexts=8, uids=True, minp=0.3, under=0.0, alphas=None, w=None, calls_api=False):
    out = []
    for _ in range(n):
        alpha = rnd.choice(alphas or [[97, 98, 99], [97, 98, 99, 100], [40, 41, 97]])
        g = Gen(rnd, alpha, maxsize=10, dots=rnd.random() < .5, nonl=anchors > 0)
        ns = rnd.randint(*nst)
        names = ["INITIAL"] + rnd.sample(NAMES[1:], ns - 1)
        calls, rules, avail = [], [], ["INITIAL"]
        pend = names[1:]
        per = {i: 0 for i in range(ns)}
        # targets must exist when a rule is added: states are declared first,
        # except that sometimes the last one is declared late
        late = pend.pop() if len(pend) > 1 and rnd.random() < .3 else None
        for p in pend:
            calls.append(["state", p]); avail.append(p)
        idx = {x: i for i, x in enumerate(["INITIAL"] + pend + ([late] if late else []))}
        k = rnd.randint(ns, 2 * ns + 2)
        j = 0
        while j < k or any(per[i] == 0 for i in range(ns)):
            if late and late not in avail and (j >= k // 2):
                calls.append(["state", late]); avail.append(late)
            j += 1
            if j > 60: break
            if rules and rnd.random() < .25: re = rnd.choice(rules)["re"]
            else: re = g.expr(rnd.choice([0, 0, 1, 1, 2]))
            bol, eol = int(rnd.random() < anchors), int(rnd.random() < anchors)
            kind = rnd.random()
            if kind < skip: id = SKIP
            elif kind < skip + again: id = 0
            else: id = rnd.randint(1, 7)
            uid = rnd.randint(0, 9) if uids and id not in (0,) and rnd.random() < .3 else NPOS
            x = rnd.random()
            empty = [i for i in range(ns) if per[i] == 0 and names_of(idx, i) in avail]
            if x < .12: sts, lst = [idx[a] for a in avail], "*"
            elif x < .35 and len(avail) > 1:
                pick = rnd.sample(avail, rnd.randint(2, len(avail))); sts, lst = [idx[a] for a in pick], ",".join(pick)
            else:
                pick = names_of(idx, rnd.choice(empty)) if empty and rnd.random() < .7 else rnd.choice(avail)
                sts, lst = [idx[pick]], pick
            y = rnd.random()
            tgt = rnd.choice(avail)
            if y < push:
                z = rnd.random()
                if z < .42: new = "<"
                elif z < .75: new = ">" + tgt
                else: new = ">" + tgt + ":" + rnd.choice(avail)
            else: new = "." if rnd.random() < .3 else tgt
            def mk(st):
                if new == "<": return rule(re, id, uid, st, bol, eol, 0, -1, 1)
                if new == ".": return rule(re, id, uid, st, bol, eol, st)
                if new[0] == ">":
                    a, _, b = new[1:].partition(":")
                    return rule(re, id, uid, st, bol, eol, idx[a], idx[b] if b else st)
                return rule(re, id, uid, st, bol, eol, idx[new])
            tmp = mk(sts[0])
            txt = render(tmp, rnd, fancy=False)
            for st in sts:
                rules.append(mk(st)); per[st] += 1
            sfx = rnd.choice(["", "_z", "_r"]) if calls_api and "\x00" not in txt else ""
            plain = lst == "INITIAL" and new in ("INITIAL", ".") and id != 0 and rnd.random() < .5
            if plain: calls.append(["push" + sfx, txt, id] if uid == NPOS else ["pushu" + sfx, txt, id, uid])
            elif id == 0: calls.append(["pushn" + sfx, lst, txt, new])
            elif uid == NPOS: calls.append(["pushs" + sfx, lst, txt, id, new])
            else: calls.append(["pushsu" + sfx, lst, txt, id, new, uid])
        if any(per[i] == 0 for i in range(ns)): continue
        ins = [walk_text(rnd, rules, alpha, maxlen) for _ in range(ntexts)] + texts(rnd, rules, alpha, 2, maxlen)
        c = case(rules, calls, ins, min=int(rnd.random() < minp))
        if w: c["w"] = rnd.choice(w)
        out.append(c)
    return out

def names_of(idx, i):
    return [a for a in idx if idx[a] == i][0]

def l04(rnd, n, **kw): return multi(rnd, n, **{**dict(push=0, again=.08, skip=.08, anchors=.12), **kw})
def l05(rnd, n, **kw): return multi(rnd, n, **{**dict(push=.6, again=0, skip=.05, anchors=.05, maxlen=24), **kw})
def l06(rnd, n, **kw): return multi(rnd, n, **{**dict(push=.35, again=.35, skip=.15, anchors=.05, nst=(1, 3), maxlen=20), **kw})

def nested(rnd, n):
    """matched brackets and nested comments, to considerable depth"""
    out = []
    for _ in range(n):
        o, c, x = rnd.sample([40, 41, 60, 62, 97, 98], 3)
        ids = [rnd.choice([0, rnd.randint(1, 5)]) for _ in range(3)]
        body = rnd.choice([0, 4, SKIP])
        calls = [["state", "IN"]]
        rules = []
        def add(states, re, id, new):
            idx = {"INITIAL": 0, "IN": 1}
            t = show(re, rnd, 0, False, False)
            calls.append(["pushn", ",".join(states), t, new] if id == 0 else ["pushs", ",".join(states), t, id, new])
            for s in states:
                st = idx[s]
                if new == "<": rules.append(rule(re, id, st=st, nx=0, pop=1))
                elif new == ".": rules.append(rule(re, id, st=st, nx=st))
                else: rules.append(rule(re, id, st=st, nx=1, push=st))
        add(["INITIAL"], rep(chr_(x), 1, -1), 7, ".")
        add(["INITIAL"], chr_(o), ids[0], ">IN")
        add(["IN"], chr_(o), ids[1], ">IN")
        add(["IN"], chr_(c), ids[2], "<")
        add(["IN"], chr_(x), body, ".")
        ins = []
        for _ in range(6):
            t, d = [], 0
            L = rnd.randint(1, 40)
            while len(t) < L or d > 0:
                if len(t) > 60: break
                z = rnd.random()
                if len(t) < L and z < .45: t.append(o); d += 1
                elif d and z < .85: t.append(c); d -= 1
                else: t.append(x)
                if rnd.random() < .02: t.append(rnd.choice([o, c, x, 122]))
            ins.append(t)
        ins.append([o] * rnd.randint(1, 30) + [c] * 31)
        out.append(case(rules, calls, ins, min=int(rnd.random() < .3)))
    return out

# ------------------------------------------------------------------ L07
def l07(rnd, n, companions=False, trailing=True, w=None):
    out = []
    for _ in range(n):
        alpha = rnd.choice([[97, 98, 99], [97, 98, 47, 42]])
        P = [rnd.choice(alpha) for _ in range(rnd.randint(1, 2))]
        rules = []
        group = False
        z = rnd.random()
        if trailing and z < .35:
            atom = rnd.choice([chr_(rnd.choice(alpha)), set_([[97, 99]]), cat(chr_(97), chr_(98)), alt(chr_(98), cat(chr_(97), chr_(99)))])
            lo, hi = rnd.choice([(0, -1), (1, -1), (0, 1), (2, 2), (0, 2), (1, 3), (2, 4), (2, -1)])
            re = cat(*[chr_(c) for c in P], rep(atom, lo, hi, 1))
            if rnd.random() < .25 and lo > 0: re = rep(atom, lo, hi, 1)
        elif trailing and z < .5:
            # the non-greedy repeat is one of the alternatives of a trailing group;
            # greedy ones beside it do not begin with what the texts go on with
            def lazy_():
                lo, hi = rnd.choice([(0, -1), (0, 1), (0, 2), (0, 3)])
                return rep(rnd.choice([chr_(rnd.choice(alpha)), set_([[97, 99]]), cat(chr_(97), chr_(98)), alt(chr_(98), chr_(97))]), lo, hi, 1)
            alts = [lazy_() for _ in range(rnd.randint(1, 2))] + [cat(chr_(120), chr_(rnd.choice(alpha))) if rnd.random() < .5 else chr_(121) for _ in range(rnd.randint(1, 2))]
            rnd.shuffle(alts)
            g_ = alts[0]
            for k, x in enumerate(alts[1:]): g_ = alt(g_, x) if rnd.random() < .7 else alt(x, g_)
            re = cat(*[chr_(c) for c in P], g_)
            group = True
        else:
            T = [rnd.choice(alpha) for _ in range(rnd.choice([1, 1, 2]))]
            if len(T) == 2 and T[0] == T[1]: T = T[:1]
            X = rnd.choice([set_([[0, 255]]), dot(), set_([[97, 99]]), set_([[47, 47], [42, 42], [97, 99]]), set_([[T[0], T[0]], [97, 97]]), set_([[88, 88]], 1),
                            set_([[T[0], T[0]]], 1)])
            lo, hi = rnd.choice([(0, -1), (0, -1), (1, -1), (3, -1), (2, -1)])   # with an upper bound: known finding
            re = cat(*[chr_(c) for c in P], rep(X, lo, hi, 1), *[chr_(c) for c in T])
        r = rule(re, rnd.randint(1, 3), lazy=1)
        rules = [r]
        if companions:
            # rules that cannot begin where the non-greedy rule begins
            g = Gen(rnd, alpha, maxsize=6)
            first = P[0]
            others = [c for c in alpha if c != first] + [120, 121]
            for _ in range(rnd.randint(1, 2)):
                o = cat(chr_(rnd.choice(others)), g.expr(1, nonnull=False))
                rules.insert(rnd.randint(0, len(rules)), rule(o, rnd.randint(4, 6)))
        calls = [["push", render(x, rnd, fancy=False), x["id"]] for x in rules]
        ins = texts(rnd, rules, alpha, 8, 14, nl=0.02)
        if group: ins = [[alpha[0] if c in (120, 121) else c for c in t] for t in ins]
        out.append(case(rules, calls, ins, min=int(rnd.random() < .3)))
        if w: out[-1]["w"] = rnd.choice(w)
    return out

# ------------------------------------------------------------------ L08
def l08(rnd, n, w=None):
    out = []
    for _ in range(n):
        alpha = rnd.choice([[97, 98, 65], [97, 66, 98, 10], [97, 98, 99, 13, 10], [97, 34, 92, 40], [36, 94, 97, 98], [45, 93, 91, 97], [32, 97, 9, 98], [123, 125, 48, 97]])
        f = NLF | SUPPR
        fl = dict(FL0)
        x = False
        calls = []
        y = rnd.random()
        if y < .25: f |= ICASE; fl["i"] = True
        if rnd.random() < .25:
            f = (f & ~NLF) | NOTCRLF; fl["dot"] = 2
        elif rnd.random() < .2:
            f = f & ~NLF; fl["dot"] = 0
        if rnd.random() < .25: f |= SKIPWS; x = True
        flags0 = f
        macs = []
        for m in range(rnd.choice([0, 0, 1, 2, 3])):
            g = Gen(rnd, alpha, maxsize=5, opts=2 if fl["dot"] == 2 else 1, macs=list(macs), big=False)
            re = g.expr(rnd.choice([0, 1, 1, 2]))
            nm = rnd.choice(["m%d", "M_%d", "_x-%d"]) % m
            calls.append(["macro" + rnd.choice(["", "_z", "_r"]), nm, show(re, rnd, 0, x)])
            if calls[-1][2].startswith("^"): calls[-1][2] = "\\" + calls[-1][2]
            macs.append({"name": nm, "n": re, "fl": dict(fl)})
        g = Gen(rnd, alpha, maxsize=22, opts=2 if fl["dot"] == 2 else 1, big=True, macs=macs)
        k = rnd.choice([1, 1, 1, 2, 3])
        rules = []
        for j in range(k):
            if j and rnd.random() < .25:
                # options changed between rules
                fl = dict(fl, i=not fl["i"]); f ^= ICASE
                calls.append(["flags", f])
            re = g.expr(rnd.choice([1, 2, 3, 3, 4]))
            r = rule(re, rnd.randint(1, 6), fl=dict(fl))
            rules.append(r)
            calls.append(["push" + rnd.choice(["", "_z", "_r"]), render(r, rnd, x), r["id"]])
        al = alpha + [c ^ 32 for c in alpha if 65 <= (c & ~32) <= 90]
        c = case(rules, calls, texts(rnd, rules, al, 9, 14, macs=macs, nl=.04), macs=macs, flags=flags0, min=int(rnd.random() < .2))
        if w: c["w"] = rnd.choice(w)
        out.append(c)
    return out

def l08_small(rnd, n):
    """one rule, every text of length <= 4 over {a,b,c} (or A,a,b)"""
    out = []
    for _ in range(n):
        alpha = rnd.choice([[97, 98, 99], [97, 98, 65]])
        g = Gen(rnd, alpha, maxsize=16, opts=True, big=True, dots=False)
        re = g.expr(rnd.choice([2, 3, 3, 4]))
        ts = [[]]
        out_t = []
        for L in range(1, 5):
            ts = [t + [c] for t in ts for c in alpha]
            out_t += ts
        rnd.shuffle(out_t)
        r = rule(re, 1)
        out.append(case([r], [["push", render(r, rnd), 1]], out_t[:60]))
    return out

# ------------------------------------------------------------------ L21
def l21(rnd, n):
    out = []
    for _ in range(n):
        alpha = [97, 98, 99]
        anch = rnd.random() < .4
        macs, calls, rules = [], [], []
        if rnd.random() < .3:
            g = Gen(rnd, alpha, maxsize=5)
            re = g.expr(2); macs.append({"name": "m", "n": re, "fl": FL0}); calls.append(["macro", "m", show(re, rnd, 0, False, False)])
        g = Gen(rnd, alpha, maxsize=16, big=True, nonl=anch, dots=not anch, macs=macs)
        ns = rnd.choice([1, 1, 2])
        if ns == 2: calls.append(["state", "B"])
        for st in range(ns):
            for j in range(rnd.choice([1, 2, 3])):
                r = rule(g.expr(rnd.choice([1, 2, 3, 4])), rnd.randint(1, 6), st=st, nx=rnd.randrange(ns),
                         bol=int(anch and rnd.random() < .35), eol=int(anch and rnd.random() < .35))
                rules.append(r)
                t = render(r, rnd, fancy=False)
                if ns == 1: calls.append(["push", t, r["id"]])
                else: calls.append(["pushs", ["INITIAL", "B"][st], t, r["id"], ["INITIAL", "B"][r["nx"]]])
        times = rnd.choice([1, 1, 1, 2])
        calls += [["reverse"]] * times
        rr = [t[::-1] for t in texts(rnd, rules, alpha, 8, 12, macs=macs, nl=.2 if anch else 0)]
        out.append(case(rules, calls, rr, macs=macs, rev=times % 2, min=int(rnd.random() < .2)))
    return out

# --------------------------------------------------------------- mixtures
def long_texts(rnd, n):
    out = []
    for _ in range(n):
        alpha = [97, 98, 99]
        g = Gen(rnd, alpha, maxsize=8)
        rules, calls = [], []
        for j in range(rnd.randint(1, 3)):
            r = rule(g.expr(2), rnd.randint(1, 5))
            rules.append(r); calls.append(["push", render(r, rnd, fancy=False), r["id"]])
        r = rule(rep(set_([[32, 32], [10, 10]]), 1, -1), SKIP)
        rules.append(r); calls.append(["push", render(r, rnd, fancy=False), SKIP])
        ins = []
        for _ in range(2):
            t = []
            while len(t) < 220:
                t += sample(rnd.choice(rules)["re"], rnd, alpha) * rnd.choice([1, 1, 1, 9])
                if rnd.random() < .3: t.append(32)
            ins.append(t[:rnd.randint(150, 260)])
        out.append(case(rules, calls, ins))
    return out

def bytes_any(rnd, n):
    """rules over arbitrary bytes, random binary texts"""
    out = []
    for _ in range(n):
        alpha = [rnd.randrange(256) for _ in range(5)] + [0, 255, 128, 127]
        g = Gen(rnd, alpha, maxsize=14)
        rules, calls = [], []
        for j in range(rnd.randint(1, 4)):
            r = rule(g.expr(rnd.choice([0, 1, 2])), rnd.randint(1, 65533))
            rules.append(r); calls.append(["push", render(r, rnd), r["id"]])
        ins = texts(rnd, rules, alpha, 5, 20) + [[rnd.randrange(256) for _ in range(rnd.randint(0, 40))] for _ in range(3)]
        out.append(case(rules, calls, ins, min=int(rnd.random() < .3)))
    return out

def wide_chars(rnd, n):
    """rules over characters of every size, for the wide lexers"""
    out = []
    for _ in range(n):
        w = rnd.choice(["w", "u", "h"])
        top = 0xffff if w == "h" else 0x10ffff
        base = rnd.choice([[97, 0x61 + 0x100, 0x6161, 0x100], [0x3b1, 0x3b2, 0x1b1, 0xb1], [0xfe, 0xff, 0x100, 0x101], [0xfffe, 0xff00, 0xffff, 0xff]] +
                          ([] if w == "h" else [[0x10000, 0xffff, 0x10001, 0x1ffff], [0x10ffff, 0x10fffe, 0xffff, 0xff], [0x20000, 0x2ffff, 0x200, 2], [0x12345, 0x12344, 0x2345, 0x45]]))
        alpha = base + [97, 98, rnd.randint(0, top)]
        alpha = [c for c in alpha if not 0xd800 <= c < 0xe000]
        g = Gen(rnd, alpha, maxsize=10)
        rules, calls = [], []
        for j in range(rnd.randint(1, 4)):
            re = g.expr(rnd.choice([0, 1, 1, 2]))
            r = rule(re, rnd.randint(1, 5))
            rules.append(r); calls.append(["push", render(r, rnd, fancy=False), r["id"]])
        near = alpha + [c + d for c in alpha for d in (-1, 1, 256, -256, 65536) if 0 <= c + d <= top and not 0xd800 <= c + d < 0xe000]
        c = case(rules, calls, texts(rnd, rules, near, 9, 10, nl=.02), min=int(rnd.random() < .3)); c["w"] = w
        out.append(c)
    return out

if __name__ == "__main__":
    import json, sys
    rnd = random.Random(int(sys.argv[2]))
    for c in globals()[sys.argv[1]](rnd, int(sys.argv[3]), **(eval(sys.argv[4]) if len(sys.argv) > 4 else {})): print(json.dumps(c))
