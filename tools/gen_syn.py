"""Regular expressions as plain text: well-formed, nearly well-formed and
broken ones.  Nothing here knows which is which; spec/Syntax.tla decides."""
import itertools, random

ATOMS = ["a"] * 6 + ["b"] * 4 + ["A", "0", "-", "#", "]", "}", ",", ":", "!", "_", " ", ".", ".", "\\n", "\\.", "\\a", "\\b", "\\e", "\\f", "\\r", "\\t", "\\v",
         "\\\\", "\\\"", "\\[", "\\d", "\\D", "\\s", "\\S", "\\w", "\\W", "\\x61", "\\x6", "\\x0061", "\\141", "\\1411", "\\60", "\\cA", "\\cz", "\\c@", "\\x41g"]
SETS = ["[ab]", "[a]", "[^a]", "[^ab]", "[a-c]", "[]a]", "[^]a]", "[a-]", "[-a]", "[^-a]", "[\\]a]", "[a\\-c]", "[\\d_]", "[^\\D]", "[[:alpha:]]", "[[:^alpha:]]",
        "[^[:digit:]_]", "[[:lower:][:upper:]]", "[[:upper:]]", "[[:punct:]]", "[[:space:]]", "[[:xdigit:]]", "[[:alnum:]]", "[[:blank:]]", "[[:cntrl:]]", "[[:graph:]]",
        "[[:print:]]", "[\\x61-\\x63]", "[\\141-b]", "[+-.]", "[a-bb-c]", "[a^]", "[.]", "[*+?]", "[\"]", "[(|)]", "[{}]", "[$]", "[/]", "[ ]", "[\\n\\r]", "[a-c-]", "[--/]", "[!--]", "[[]", "[[a]", "[:a:]"]
BADSETS = ["[", "[]", "[^]", "[a", "[^", "[^a", "[b-a]", "[\\w-a]", "[a-\\w]", "[[:alpha:]-z]", "[a-[:alpha:]]", "[[:foo:]]", "[[:alpha]]", "[[:alpha:]", "[a-", "[\\", "[\\x]", "[\\d-]", "[^\\d\\D]",
           "[^\\x00-\\xff]", "[[:]", "[[::]]", "[[:^:]]", "[a\\]", "[\\c!]", "[\\400]", "[\\x100]"]
BADS = ["\\", "\\x", "\\xg", "\\c", "\\c1", "\\400", "\\x100", "\\xffffffffffffffff1", "/", "/*", "*/", "{", "{}", "{1", "{1,", "{a", "{1a}", "{,1}", "{0}", "{0,0}", "{2,1}", "{X}", "{M", "{-", "{+", "{1.}", "{ 1}",
        "(?", "(?#", "(?i", "(?q:", "(?i-", "()", "(?i:)", "(?#c", "\"", "\"a"]
REPS = ["*", "+", "?", "*", "+", "?", "{2}", "{1,2}", "{0,2}", "{0,1}", "{1,}", "{0,}", "{2,}", "{3}", "{01}", "{1,1}"]
LAZY = ["*?", "+?", "??", "{2}?", "{1,2}?", "{0,}?", "{1,}?", "{0,1}?"]
GLUE = ["|"] * 4 + ["(", ")", "(", ")"] * 3 + ["^", "$", "\"", "\"", "(?i:", "(?s:", "(?-s:", "(?x:", "(?-i:", "(?is:", "(?i-s:", "(?-is:", "(?:", "(?-:", "(?x-i:", "(?#c)", "(?#(c))", "(?#\")",
        "/*c*/", "/**/", " ", "\t", "\\ ", "{-}", "{+}", "{-}", "{+}", "{M}", "{M}", "{N}", "{N}", "{_m-1}"]
MACROS = ["a", "ab", "a|b", "[ab]", "(a)", "((a|b))", "(ab)*", "^a", "a$", "^", "$", "^a|b", "a|b$", "^a$", "\"ab\"", "{M}", "{M}b", "{M}*", "[a-c]{-}[b]", ".", "(?i:a)", "a*", "^{M}", "{M}$", "(^a)", "(a$)",
          "a*?", "", "(?#c)", "{N}", "{_m-1}", "\\$", "\"^a\"", "^^", "$$", "a{2}"]

def join(r, pieces): return "".join(pieces)

def soup(r):
    """a handful of pieces, most of them harmless"""
    n = r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7])
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.42: out.append(r.choice(ATOMS))
        elif k < 0.56: out.append(r.choice(SETS))
        elif k < 0.58: out.append(r.choice(BADSETS))
        elif k < 0.60: out.append(r.choice(BADS))
        elif k < 0.72: out.append(r.choice(REPS))
        elif k < 0.74: out.append(r.choice(LAZY))
        else: out.append(r.choice(GLUE))
    return "".join(out)

def expr(r, d=0):
    """well-formed, apart from the odd slip"""
    def item():
        k = r.random()
        if d < 2 and k < 0.16: a = "(" + expr(r, d + 1) + ")"
        elif d < 2 and k < 0.30: a = r.choice(["(?i:", "(?s:", "(?-s:", "(?x:", "(?-i:", "(?is:", "(?i-s:", "(?:", "(?x-i:", "(?ix:"]) + expr(r, d + 1) + ")"
        elif k < 0.38: a = '"' + "".join(r.choice("aabAB*+|()[{^$/ .\\n\\\"") for _ in range(r.randrange(1, 4))).replace('"', "") + '"'
        elif k < 0.58: a = r.choice(SETS)
        elif k < 0.66: a = r.choice(SETS + ["a", "\\w", "."]) + "".join(r.choice(["{-}", "{+}"]) + r.choice(SETS + ["a", "b", "\\d", "{M}"]) for _ in range(r.choice([1, 1, 2])))
        elif k < 0.74: a = r.choice(["{M}", "{N}"])
        else: a = r.choice(ATOMS)
        k = r.random()
        if k < 0.3: a += r.choice(REPS)
        elif k < 0.33: a += r.choice(LAZY)
        elif k < 0.36: a += r.choice(["(?#c)", " ", "/*c*/"]) + r.choice(REPS)
        return a
    s = "|".join("".join(item() for _ in range(r.choice([1, 1, 2, 2, 3]))) for _ in range(r.choice([1, 1, 1, 2])))
    if d == 0:
        if r.random() < 0.08: s = "^" + s
        if r.random() < 0.08: s += "$"
    return s

def mutate(r, s):
    s = list(s)
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.random()
        p = r.randrange(len(s) + 1)
        if k < 0.35 and s: del s[min(p, len(s) - 1)]
        elif k < 0.65: s.insert(p, r.choice("ab()[]{}|*+?^$.\\\"-,:/#01 i"))
        elif k < 0.8 and s: s[min(p, len(s) - 1)] = r.choice("ab()[]{}|*+?^$.\\\"-,:/#01")
        elif k < 0.9 and len(s) > 1:
            p = min(p, len(s) - 2); s[p], s[p + 1] = s[p + 1], s[p]
        else: s = s[:p]
    return "".join(s)

FORBID = ("\\p", "\\P")
def usable(t): return not any(f in t for f in FORBID) and len(t) <= 40 and big(t) <= 60
def big(t):
    """rough bound on the size after repeats"""
    n = 1
    import re
    for m in re.finditer(r"\{(\d+)(?:,(\d*))?\}", t):
        n *= max(1, min(10**6, int(m.group(1))), min(10**6, int(m.group(2) or 0)))
    return n

FLAGS = [2, 2, 2, 2, 0, 3, 3, 4, 1, 10, 11, 8, 18, 16, 26]

def case(r, t, f=None, mac=None, w="n"):
    al = sorted({c for c in t if c.isalnum()} - set("0123456789xcnrt")) or ["a"]
    al = (al if len(al) < 3 else r.sample(al, 2))
    extra = r.choice(["b", "a", "\n", "A", "B", "^", "$", "0", " ", "-", "]", '"', "\r", "\x07"])
    cs = [ord(c) for c in dict.fromkeys(al + [extra])]
    ins = [list(x) for n in (1, 2) for x in itertools.product(cs, repeat=n)]
    ins += [[r.choice(cs) for _ in range(r.choice([3, 4, 5]))] for _ in range(12)]
    return {"w": w, "f": r.choice(FLAGS) if f is None else f, "mac": mac if mac is not None else [], "t": [ord(c) for c in t], "in": ins}

def macros(r):
    out = []
    for n in r.sample(["M", "N", "_m-1", "M", "N"], r.choice([1, 2, 2, 3])):
        b = r.choice(MACROS) if r.random() < 0.7 else (expr(r, 1) if r.random() < 0.8 else soup(r))
        if not usable(b): b = "a"
        if r.random() < 0.03: n = r.choice(["1", "", "-a", "a b", "M{", "a.", "A9", "Ab_"])
        out.append([[ord(c) for c in n], [ord(c) for c in b]])
    return out

def random_cases(r, n):
    out = []
    while len(out) < n:
        k = r.random()
        t = expr(r) if k < 0.45 else mutate(r, expr(r)) if k < 0.75 else soup(r)
        if not usable(t): continue
        out.append(case(r, t, mac=macros(r) if "{M}" in t or "{N}" in t or "{_" in t or r.random() < 0.05 else []))
    return out

def exhaustive(r, alphabet, n, f=2, mac=()):
    return [case(r, "".join(p), f=f, mac=list(mac)) for k in range(n + 1) for p in itertools.product(alphabet, repeat=k) if usable("".join(p))]
