"""Histories of calls on a rules object, valid and invalid mixed.  Which are
valid is decided by spec/RulesObj.tla."""
import itertools, random, re
import gen_syn as S

# escapes that mean something else (or nothing) beyond 8 bits
NARROW = re.compile(r"\\x[0-9a-fA-F]{3}|\\[2-7][0-7][0-7]|\\xff")

def C(s): return [ord(x) for x in s]
NAMES = ["A", "B", "C", "_s-1", "Long_name"]
ODD = ["INITIAL", "", "1A", "A B", "A,B", "*", ".", "a.b", "-A", "A:B", "<", ">A", "initial", "Z9"]
GOOD = ["a", "b", "ab", "a+", "[ab]c", "^a", "^ab", "b$", "ba$", "c*d", "a|bc", "{M}", "{M}x", "{N}+", "x{N}", "c", "cc", "(?i:d)", "d{2}", "\"a+\"", ".", "[^a]", "\\d+", "e.?", "^{M}", "ab|ac", "abc", "b+c", "{M}|d"]
BAD = ["", "(", ")", "a**", "[", "[]", "a|", "*", "{X}", "a{2,1}", "\"", "\\", "a{0}", "(?q:a)", "[b-a]", "a/b", "{M", "{}"]
ZERO = ["a*", "b?", "(ab)*", "$", "^$", "a*$", "^", "^a*", "{Z}", "(a|b*)"]
LAZY = ["a*?", "a.*?b", "a+?", "a|b.*?c", "b??"]
MACS = ["a", "ab", "[a-c]", "a|b", "c+", "{M}b", "^a", "b$", "(a)", "d*"]

def regex(r, odd=0.15):
    k = r.random()
    if k < 1 - odd: return r.choice(GOOD)
    if k < 1 - odd * 0.45: return r.choice(BAD)
    if k < 1 - odd * 0.2: return r.choice(ZERO)
    if k < 1 - odd * 0.1: return r.choice(LAZY)
    t = S.soup(r)
    return t if S.usable(t) and not NARROW.search(t) else "a"

def rid(r, odd=0.06):
    if r.random() < odd: return r.choice([0, 65535])
    return r.choice([1, 1, 2, 2, 3, 4, 5, 9, 65534])

def sname(r, have, odd=0.1):
    k = r.random()
    if k < odd: return r.choice(ODD + NAMES)
    return r.choice(have)

def frm(r, have, odd=0.1):
    k = r.random()
    if k < 0.2: return "*"
    if k < 0.5: return ",".join(sname(r, have, odd / 2) for _ in range(r.choice([1, 2, 2, 3])))
    if k < 0.5 + odd: return r.choice(["", ",", "A,", ",A", "A,,B", "*,A", "A,*", "INITIAL,", " A", "A, B"])
    return sname(r, have, odd / 2)

def to(r, have, odd=0.1):
    k = r.random()
    if k < 0.3: return "."
    if k < 0.5: return "<"
    if k < 0.65: return ">" + sname(r, have, odd)
    if k < 0.8: return ">" + sname(r, have, odd) + ":" + sname(r, have, odd)
    if k < 0.8 + odd / 2: return r.choice(["", ">", "A:B", ">A:", ">:A", ">A:B:C", "..", ".A", "*", ">.", ">*", "A,B", ">>A"])
    return sname(r, have, odd)

def over(r, op): return op + r.choice(["", "", "_z", "_r"])

def one(r, have, odd):
    k = r.random()
    if k < 0.12:
        n = r.choice(NAMES) if r.random() > odd else r.choice(ODD)
        if n in NAMES + ["Z9", "initial"] and n not in have: have.append(n)
        return ["state", C(n)]
    if k < 0.24:
        n = r.choice(["M", "N", "Z"]) if r.random() > odd else r.choice(ODD)
        return [over(r, "macro"), C(n), C(r.choice(MACS) if r.random() > odd else regex(r, 0.7))]
    if k < 0.48: return [over(r, "push"), C(regex(r, odd)), rid(r)] if r.random() < 0.5 else [over(r, "pushu"), C(regex(r, odd)), rid(r), r.choice([1, 2, 7, 65535, 0])]
    if k < 0.62: return [over(r, "pushn"), C(frm(r, have, odd)), C(regex(r, odd)), C(to(r, have, odd))]
    if k < 0.76: return [over(r, "pushs"), C(frm(r, have, odd)), C(regex(r, odd)), rid(r), C(to(r, have, odd))]
    if k < 0.88: return [over(r, "pushsu"), C(frm(r, have, odd)), C(regex(r, odd)), rid(r), C(to(r, have, odd)), r.choice([1, 3, 65535])]
    if k < 0.92: return ["flags", r.choice([2, 2, 3, 0, 4, 10, 18, 34, 50])]
    if k < 0.95: return ["clear1", r.choice([0, 1, 1, 2, 3, 7])]
    if k < 0.965: have[:] = ["INITIAL"]; return ["clear"]
    return ["build", texts(r)]

def texts(r, n=6): return [[ord(r.choice("aaabbbccdxXD\n1e+")) for _ in range(r.choice([0, 1, 2, 3, 4, 6, 8]))] for _ in range(n)]

def history(r, w="n", odd=0.12, n=(4, 14)):
    have = ["INITIAL"]
    calls = []
    distinct = r.random() < 0.6
    for _ in range(r.randrange(*n)): calls.append(one(r, have, odd))
    # mostly give every state something to match, so that builds succeed
    if r.random() < 0.7:
        for s in have[1:]: calls.append(["pushs", C(s), C("~"), 8, C(".")])
        if have: calls.append(["push", C("!"), 7])
    calls.append(["build", texts(r)])
    if r.random() < 0.3:
        calls += [one(r, have, odd) for _ in range(r.randrange(1, 5))]
        calls.append(["build", texts(r)])
    f = r.choice([-1, -1, 2, 0, 34, 34, 3, 18, 10])
    return {"w": w, "f": f, "max": 255 if w == "n8" else 65535, "calls": calls}

def machine_ready(r, w="n"):
    """histories that mostly build: distinct leading characters per rule"""
    have = ["INITIAL"]
    calls = []
    for s in r.sample(NAMES, r.choice([0, 1, 2, 3])): calls.append(["state", C(s)]); have.append(s)
    if r.random() < 0.6: calls.append([over(r, "macro"), C("M"), C(r.choice(MACS[:4]))])
    lead = list("abcdefgh"); r.shuffle(lead)
    k = 0
    for s in have:
        for _ in range(r.choice([1, 1, 2])):
            x = lead[k % 8]; k += 1
            rx = x + r.choice(["", "+", "b", "c?", "{M}", "[ab]", "$", "(ab)*", "|{M}%s" % x]) if not r.random() < 0.1 else "^" + x
            if "{M}" in rx and len(calls) and calls[-1][0][:5] != "macro" and not any(c[0][:5] == "macro" for c in calls): rx = x
            st = r.choice([s, s, s, s + "," + r.choice(have)])
            kk = r.random()
            if s == "INITIAL" and kk < 0.3: calls.append([over(r, "push"), C(rx), rid(r, 0)])
            elif kk < 0.5: calls.append([over(r, "pushn"), C(st), C(rx), C(to(r, have, 0))])
            elif kk < 0.8: calls.append([over(r, "pushs"), C(st), C(rx), rid(r, 0), C(to(r, have, 0))])
            else: calls.append([over(r, "pushsu"), C(st), C(rx), rid(r, 0), C(to(r, have, 0)), r.choice([1, 3, 65535])])
            if r.random() < 0.12: calls.append(one(r, list(have), 0.9))
    calls.append(["build", texts(r, 10)])
    if r.random() < 0.4:
        calls.append(r.choice([["clear1", r.randrange(len(have))], ["clear"], ["flags", 34], ["push", C("q"), 3]]))
        calls.append(["push", C("y"), 2])
        if r.random() < 0.5: calls.append(["pushn", C("*"), C("w"), C(".")])
        calls.append(["build", texts(r, 6)])
    return {"w": w, "f": r.choice([-1, 2, 34, 34, 34]), "max": 255 if w == "n8" else 65535, "calls": calls}

MENU = [["state", C("A")], ["state", C("1")], ["macro", C("M"), C("b")], ["macro_z", C("M"), C("(")], ["macro_r", C("N"), C("{M}c")], ["push", C("a"), 1], ["push_z", C("a{M}"), 2], ["push_r", C("("), 2],
        ["push", C("a"), 0], ["pushn", C("A"), C("c"), C("INITIAL")], ["pushs", C("*"), C("d"), 3, C(">A")], ["pushs_z", C("A,INITIAL"), C("e"), 4, C("<")], ["pushsu_r", C("INITIAL"), C("f|{N}"), 5, C(">A:INITIAL"), 6],
        ["pushn_r", C("INITIAL,A,"), C("c"), C(".")], ["pushs", C("INITIAL"), C("g"), 65535, C(".")], ["pushs", C("A"), C("*g"), 5, C(".")], ["pushu", C("h*"), 2, 3], ["flags", 3], ["flags", 50], ["clear"], ["clear1", 0], ["clear1", 1]]

def exhaustive(k):
    """every sequence of k calls of the menu"""
    b = ["build", [C("a"), C("ab"), C("abd"), C("dcea"), C("fdee"), C("bcA")]]
    return [{"w": "n", "f": -1, "max": 65535, "calls": [list(x) for x in p] + [b]} for p in itertools.product(MENU, repeat=k)]

def many_states(r):
    """more start states than an 8-bit id can count"""
    calls = [["state", C("S%d" % i)] for i in range(252)] + [["push", C("a"), 1], ["state", C("X1")], ["state", C("X2")], ["state", C("X3")], ["state", C("S7")], ["state", C("X4")], ["pushs", C("*"), C("b"), 2, C("X1")], ["state", C("X5")], ["clear"], ["state", C("X5")]]
    return {"w": "n8", "f": 2, "max": 255, "calls": calls}

def suppressed(r, w="n"):
    """rules over few characters, so that some hide others exactly"""
    have = ["INITIAL"]
    calls = []
    if r.random() < 0.3: calls.append(["state", C("A")]); have.append("A")
    def rx(d=0):
        k = r.random()
        if d > 2 or k < 0.4: return r.choice(["a", "b", "[ab]", "a", "b", ".", "c", "[^a]", "[bc]"])
        if k < 0.6: return rx(d + 1) + rx(d + 1)
        if k < 0.75: return "(" + rx(d + 1) + "|" + rx(d + 1) + ")"
        x = "(" + rx(d + 1) + ")"
        return x + r.choice(["*", "+", "?", "{2}", "{1,2}"])
    for s in have:
        for i in range(r.choice([1, 2, 2, 3, 4])):
            t = rx()
            if t.endswith(("*", "?")) and r.random() < 0.95: t += r.choice("abc")
            k = r.random()
            if k < 0.12: t = "^" + t
            elif k < 0.2: t += "$"
            calls.append(["pushs", C(s), C(t), i + 1, C(".")])
    calls.append(["build", texts(r, 6)])
    return {"w": w, "f": r.choice([2, 2, 2, 2, 34, 18, 0]), "max": 255 if w == "n8" else 65535, "calls": calls}

def capacity(r):
    """machines near and beyond what 8-bit numbers can count: a build may be
    refused (cap = 1) but not go wrong"""
    k = r.random()
    calls = [["push", C("~"), 1]]
    if k < 0.4:      # many states
        n = r.choice([100, 150, 200, 245, 250, 251, 252, 253, 254, 255, 256, 257, 300])
        t = [97] * n
        calls.append(["push", t, 2]); tx = [t, t[:-1], t + t]
        cap = 1 if n > 200 else 0
    elif k < 0.7:    # many character classes
        n = r.choice([80, 120, 180, 200, 240, 246, 247, 248, 249, 250, 255])
        xs = [x for x in range(1, 256) if x not in (10, 13, 34, 126)][:n]
        calls.append(["push", [34] + [x for x in xs if x != 92] + [34], 2]); tx = [[x for x in xs if x != 92], [65, 66]]
        cap = 1
    else:            # many rules
        n = r.choice([100, 200, 250, 254, 255, 256, 257, 300])
        for i in range(n): calls.append(["push", [97 + i % 16, 97 + i // 16 % 16, 97 + i // 256], 1 + i % 250])
        tx = [[97 + i % 16, 97 + i // 16 % 16, 97 + i // 256] for i in (0, n - 1, n // 2)]
        cap = 1
    calls.append(["build", tx])
    if r.random() < 0.5: calls += [["clear"], ["push", C("b"), 3], ["build", [C("b"), C("a")]]]
    return {"w": "n8", "f": 2, "max": 255, "cap": cap, "calls": calls}
