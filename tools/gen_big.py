"""Lexers and texts that are large in one respect: many rules, many start
states, deep stacks, long tokens, high repeat counts, large machines."""
import random
from rx import *
import gen_lex as G
from gen_lex import rule, case, render, NPOS, SKIP

AL = list(range(97, 123))

def word(rnd, lo, hi, al=AL): return [rnd.choice(al) for _ in range(rnd.randint(lo, hi))]

def big_words(rnd, n, words=(270, 400), length=(3, 9), al=None, w=None):
    """hundreds of keywords beside an identifier rule; tables of more than 65536 entries"""
    out = []
    for _ in range(n):
        A = al or rnd.choice([AL, AL + list(range(65, 91)) + list(range(48, 58))])
        ws, seen = [], set()
        for _ in range(rnd.randint(*words)):
            x = rnd.choice(ws)[:rnd.randint(1, 4)] + word(rnd, 1, 5, A) if ws and rnd.random() < .5 else word(rnd, *length, A)
            if tuple(x) in seen: continue
            seen.add(tuple(x)); ws.append(x)
        rules, calls = [], []
        for j, x in enumerate(ws):
            uid = rnd.choice([NPOS, rnd.randint(0, 65533)])
            r = rule(cat(*[chr_(c) for c in x]), rnd.choice([j + 1, j + 1, rnd.randint(1, 65533)]), uid)
            rules.append(r)
            t = "".join(map(chr, x))
            calls.append(["push", t, r["id"]] if uid == NPOS else ["pushu", t, r["id"], uid])
        r = rule(rep(set_([[97, 122]]), 1, -1), 65533); at = rnd.choice([len(rules), len(rules), 0, len(rules) // 2])
        rules.insert(at, r); calls.insert(at, ["push", "[a-z]+", 65533])
        r = rule(rep(chr_(32), 1, -1), SKIP); rules.append(r); calls.append(["push", "\\x20+", SKIP])
        ins = []
        for _ in range(4):
            t = []
            for _ in range(12):
                x = list(rnd.choice(ws))
                z = rnd.random()
                if z < .2: x = x[:-1]
                elif z < .35: x.append(rnd.choice(A))
                elif z < .45: x[rnd.randrange(len(x))] = rnd.choice(A)
                t += x + [32] * rnd.choice([0, 1, 1, 2])
            ins.append(t)
        c = case(rules, calls, ins)
        if w: c["w"] = rnd.choice(w)
        out.append(c)
    return out

def many_states(rnd, n, nst=(257, 300), stack=True):
    """hundreds of start states, entered one from another, pushed and popped"""
    out = []
    for _ in range(n):
        ns = rnd.randint(*nst)
        names = ["INITIAL"] + ["S%d" % i for i in range(1, ns)]
        perm = list(range(ns)); rnd.shuffle(perm)
        calls = [["state", x] for x in names[1:]]
        rules = []
        def add(st, c, id, new):
            re = chr_(c)
            if new == "<": rules.append(rule(re, id, st=st, nx=0, pop=1))
            elif isinstance(new, tuple): rules.append(rule(re, id, st=st, nx=new[0], push=new[1]))
            else: rules.append(rule(re, id, st=st, nx=new))
            s = new if new == "<" else (">%s:%s" % (names[new[0]], names[new[1]]) if isinstance(new, tuple) else names[new])
            calls.append(["pushs", names[st], chr(c) if c > 90 else "\\" + chr(c), id, s])
        for st in range(ns):
            add(st, 97, st + 1, perm[st])
            add(st, 98, 1000 + st, rnd.randrange(ns))
            if stack:
                add(st, 40, 2000 + st, (rnd.randrange(ns), rnd.randrange(ns)))
                add(st, 41, 3000 + st, "<")
        ins = []
        for _ in range(4):
            t, d = [], 0
            for _ in range(60):
                c = rnd.choice([97, 97, 98, 40, 41] if stack else [97, 98])
                if c == 41:
                    if not d: continue
                    d -= 1
                if c == 40: d += 1
                t.append(c)
            ins.append(t)
        out.append(case(rules, calls, ins))
    return out

def deep(rnd, n, depth=(260, 320)):
    """stacks hundreds of entries deep"""
    out = []
    for _ in range(n):
        d = rnd.randint(*depth)
        ids = [rnd.choice([0, 1]) if rnd.random() < .5 else k for k in (1, 2, 3)]
        calls = [["state", "IN"]]
        rules = []
        def add(st, c, id, new):
            names = ["INITIAL", "IN"]
            re = chr_(c)
            if new == "<": rules.append(rule(re, id, st=st, nx=0, pop=1))
            elif new == ".": rules.append(rule(re, id, st=st, nx=st))
            else: rules.append(rule(re, id, st=st, nx=1, push=st))
            t = "\\" + chr(c) if c in (40, 41) else chr(c)
            calls.append(["pushn", names[st], t, new] if id == 0 else ["pushs", names[st], t, id, new])
        add(0, 40, ids[0], ">IN"); add(1, 40, ids[1], ">IN"); add(1, 41, ids[2], "<"); add(1, 120, 4, "."); add(0, 120, 5, ".")
        ins = [[40] * d + [41] * d + [120], [40] * d + [120] + [41] * (d - 1), [40] * d + [41] * (d + 1)]
        out.append(case(rules, calls, ins, min=rnd.randint(0, 1)))
    return out

def long_token(rnd, n, length=(700, 1500)):
    """single tokens, skipped stretches, continuations and unmatched stretches of more than 256 and 1024 characters"""
    out = []
    for _ in range(n):
        L = rnd.randint(*length)
        kind = rnd.randrange(6)
        A, B, S = chr_(97), chr_(98), chr_(32)
        run = lambda c, k: [c] * k
        if kind == 0: rules, ins = [rule(rep(A, 1, -1), 1), rule(cat(rep(A, 0, -1), B), 2)], [run(97, L), run(97, L) + [98], run(97, L) + [99] + run(97, L) + [98]]
        elif kind == 1: rules, ins = [rule(A, 1), rule(rep(S, 1, -1), SKIP)], [run(32, L) + [97], [97] + run(32, L) + [97] + run(32, L)]
        elif kind == 2: rules, ins = [rule(A, 1), rule(B, SKIP)], [run(98, L) + [97], [97] + run(98, L), run(98, 256) + [97], run(98, 255) + [97]]
        elif kind == 3: rules, ins = [rule(A, 1, nx=0), rule(B, 0)], [run(98, L) + [97], run(98, 256) + [97] + run(98, 257), run(98, 255) + [97]]
        elif kind == 4: rules, ins = [rule(cat(A, B), 1), rule(rep(A, 300, -1), 2)], [run(97, 299) + [98], run(97, 300) + [98], run(97, 290)]
        else: rules, ins = [rule(rep(A, 1, -1), 1, bol=1), rule(rep(A, 1, -1), 2, eol=1), rule(rep(alt(A, B), 1, -1), 3), rule(chr_(10), SKIP)], [run(97, L) + [10] + run(97, L), run(97, L) + [98] + run(97, 3), run(97, 600) + [98] + run(97, 600) + [10, 98]]
        calls = []
        for r in rules:
            t = render(r, rnd, fancy=False) if r["re"] != S else "\\x20"
            calls.append(["pushn", "INITIAL", t, "."] if r["id"] == 0 else ["push", t, r["id"]])
        out.append(case(rules, calls, ins))
    return out

def big_repeats(rnd, n):
    """repeat counts beyond 255, nested repeats, long strings, wide alternations, deep groups"""
    out = []
    for _ in range(n):
        A, B = chr_(97), chr_(98)
        kind = rnd.randrange(7)
        if kind == 0:
            lo = rnd.choice([1, 100, 254, 255, 256, 257, 300]); re = rep(A, lo, rnd.choice([lo, -1, lo + rnd.randint(1, 20)]))
            ins = [[97] * max(0, k) for k in (lo - 1, lo, lo + 1, lo + 9, lo + 40)]
        elif kind == 1:
            k = rnd.randint(10, 20); re = rep(rep(alt(A, B), k, k), 1, rnd.randint(2, 8))
            ins = [[rnd.choice([97, 98]) for _ in range(k * j + d)] for j in (1, 2, 7) for d in (-1, 0, 1)]
        elif kind == 2:
            s = word(rnd, 260, 400, [97, 98]); re = str_(s); ins = [s, s[:-1], s + [97], s[:100] + [99], s[:256], s + s]
        elif kind == 3:
            ws = [word(rnd, 1, 5, [97, 98, 99, 100]) for _ in range(300)]
            re = alt(*[cat(*[chr_(c) for c in x]) for x in ws]); ins = [sum([rnd.choice(ws) for _ in range(6)], []) for _ in range(5)]
        elif kind == 4:
            re = A
            for _ in range(rnd.randint(60, 120)): re = cat(re, B) if rnd.random() < .5 else alt(re, cat(B, A)) if rnd.random() < .3 else rep(re, 0, 1)
            re = cat(re, chr_(99)); ins = [sample(re, rnd, [97, 98]) for _ in range(5)] + [[97] + [98] * k + [99] for k in (0, 5, 30)]
        elif kind == 5:
            k = rnd.randint(60, 130); re = cat(rep(A, 0, k), rep(A, k, k)); ins = [[97] * j for j in (k - 1, k, k + 1, 2 * k, 2 * k + 3)]
        else:
            its = [[3 * j, 3 * j + rnd.randint(0, 1)] for j in rnd.sample(range(85), 70)]
            re = cat(set_(its), set_(its, 1)); ins = [[rnd.randrange(256) for _ in range(20)] for _ in range(6)]
        r = rule(re, 1)
        out.append(case([r], [["push", render(r, rnd, fancy=False), 1]], ins, min=rnd.randint(0, 1)))
    return out

def big_ids(rnd, cases, p=.15, top=65533):
    """ids and user ids moved into the whole range of the type"""
    for c in cases:
        if c.get("w") == "n8" or rnd.random() > p: continue
        m = {}
        def f(x):
            if x in (0, SKIP, NPOS): return x
            if x not in m:
                while True:
                    v = rnd.choice([rnd.randint(1, top), rnd.randint(1, top), 255, 256, 32767, 32768, top])
                    if v not in m.values(): break
                m[x] = v
            return m[x]
        u = {}
        def g(x):
            if x == NPOS: return x
            if x not in u: u[x] = rnd.choice([rnd.randint(0, top), 255, 256, 32768, 65534])
            return u[x]
        for r in c["lex"]["rules"]: r["id"] = f(r["id"]); r["uid"] = g(r["uid"])
        for x in c["calls"]:
            k = x[0].split("_")[0]
            if k == "push": x[2] = f(x[2])
            elif k == "pushu": x[2] = f(x[2]); x[3] = g(x[3])
            elif k == "pushs": x[3] = f(x[3])
            elif k == "pushsu": x[3] = f(x[3]); x[5] = g(x[5])
    return cases
