----------------------------- MODULE SyntaxTrace -----------------------------
(***************************************************************************)
(* Every case is one regular expression offered to a fresh rules object    *)
(* after some macros, as plain text, together with what the library did:   *)
(*   mac   sequence of [n, t, e]: name, text, 1 = refused                  *)
(*   f, t  flags and text;  e: 1 = refused                                 *)
(*   b     1 = the rules could not be built                                *)
(*   in, r texts and the length of the first match in each (0 none)        *)
(* The specification decides every one of these from the texts.            *)
(***************************************************************************)
EXTENDS Syntax, Lexer, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, bad
vars == <<c, bad>>

NoMac == [n \in {} |-> <<>>]
NameOK(n) == n # <<>> /\ n[1] \in NameStart /\ \A j \in 1..Len(n) : n[j] \in NameChar

\* macros defined one after the other: [ok, mac], ok when every refusal was due
RECURSIVE Macros(_, _, _, _)
Macros(ms, k, fl, mac) ==
  IF k > Len(ms) THEN [bad |-> 0, mac |-> mac]
  ELSE LET m == ms[k]
           r == IF NameOK(m.n) /\ m.n \notin DOMAIN mac THEN Read(m.t, fl, mac) ELSE Fail
       IN IF r.ok # (m.e = 0) THEN [bad |-> k, mac |-> mac]
          ELSE Macros(ms, k + 1, fl, IF r.ok THEN mac @@ (m.n :> r.toks) ELSE mac)

\* an expression that can match without taking a character (one that needs
\* the beginning of a line, and not its end, is not reported without any)
ZeroAlt(a) == Nullable(a.re, [i |-> FALSE, dot |-> 0], <<>>) /\ (a.bol = 0 \/ a.eol = 1)

Fl0 == [i |-> FALSE, dot |-> 0]
AltEnd(a, w) == LET S == {e \in Ends(a.re, Fl0, <<>>, w, {0}) : e > 0 /\ (a.eol = 0 \/ AtEol(w, e))}
                IN IF S = {} THEN 0 ELSE SetMax(S)
Longest(A, w) == SetMax({AltEnd(A[k], w) : k \in 1..Len(A)})
\* what the properties leave open (see known_findings.txt): alternatives
\* beside an anchored one
Open(A) == Len(A) > 1 /\ \E k \in 1..Len(A) : A[k].bol = 1 \/ A[k].eol = 1

Verdict(C) ==
  LET fl == FlagsOf(C.f)
      m == Macros(C.mac, 1, fl, NoMac)
      r == Read(C.t, fl, m.mac)
  IN IF m.bad # 0 THEN "macro " \o ToString(m.bad) \o (IF C.mac[m.bad].e = 1 THEN " refused" ELSE " accepted")
     ELSE IF ~r.ok THEN (IF C.e = 0 THEN "accepted" ELSE "")
     ELSE IF IsLazy(r.toks)
     THEN \* one that would rather match nothing is refused sooner or later;
          \* no other is when it is added.  (Of several alternatives the library
          \* drops the ones that would rather match nothing; see DESIGN.md.)
          LET zero == \E a \in {RuleAlts(r.toks)[k] : k \in 1..Len(RuleAlts(r.toks))} : ZeroAlt(a)
          IN IF zero /\ ~fl.zero /\ (\A k \in 1..Len(r.toks) : r.toks[k].t # "or") /\ C.e = 0 /\ C.b = 0 THEN "accepted (lazy)"
             ELSE IF ~zero /\ C.e = 1 THEN "refused (lazy)" ELSE ""
     ELSE IF C.e = 1 THEN "refused"
     ELSE LET A == RuleAlts(r.toks)
              zero == \E k \in 1..Len(A) : ZeroAlt(A[k])
          IN IF (zero /\ ~fl.zero) # (C.b = 1) THEN (IF C.b = 1 THEN "not built" ELSE "built")
             ELSE IF C.b = 1 \/ zero \/ Open(A) THEN ""
             ELSE LET W == {k \in 1..Len(C.in) : C.r[k] # Longest(A, C.in[k])}
                  IN IF W = {} THEN "" ELSE "matches " \o ToString({<<C.in[k], Longest(A, C.in[k]), C.r[k]>> : k \in W})

Init == /\ c \in 1..Len(Cases) /\ bad = Verdict(Cases[c])
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Conforms == bad = ""
=============================================================================
