---------------------------------- MODULE Judge ----------------------------------
(***************************************************************************)
(* Comparison of one recorded call of parse() with the specification.      *)
(* Verdict(c, g) is the set of aspects in which the recording c.res of     *)
(* parsing c.src with the pattern g is not what the specification allows.  *)
(***************************************************************************)
EXTENDS Explore

\* The helper's text: one newline added iff there is none at the end.
Effective(c) == IF c.mode # "aoc" THEN c.src
                ELSE IF c.src # <<>> /\ c.src[Len(c.src)] = NL THEN c.src
                ELSE Append(c.src, NL)

SameBag(a, b) == IF a = b THEN TRUE ELSE Len(a) = Len(b) /\ SortVals(a) = SortVals(b)

Returned(c) == c.res.kind \in {"ok", "err"}

\* The reason of the error text is one the specification gives.
ReasonOK(c, g, x, s) ==
    /\ c.res.form
    /\ \E i \in 1..Len(c.res.why) :
          /\ c.res.why[i][1] = x.x[1]
          /\ c.res.why[i][2] = x.x[2]
          /\ IF x.x[1] = "told" THEN c.res.why[i][3] = x.x[3] ELSE TRUE
    /\ IF x.x[1] # "fromstr" THEN TRUE ELSE
          LET n == g[x.x[2]]  sc == ScanInt(s, n.s, n.a[1], x.e, Len(s))
          IN  c.res.q = Text(s, x.e, sc.e)
WhereOK(c, x, s) == c.res.lc = IF x.e = Len(s) THEN <<0, 0>> ELSE LineCol(s, x.e)

\* ... given that the outcome of parsing text s should be item x.
VerdictOn(c, g, s, x) ==
    IF ~Returned(c) THEN {"returns"} \cup (IF x.m THEN {"accept"} ELSE {})
    ELSE IF (c.res.kind = "ok") # x.m
         THEN {"accept"} \cup (IF ~x.m \/ c.res.calls = <<>> THEN {} ELSE {"calls"})
    ELSE IF x.m
         THEN (IF c.res.v = User(x.r) THEN {} ELSE {"value"})
              \cup (IF SameBag(c.res.calls, x.c) THEN {} ELSE {"calls"})
    ELSE (IF c.res.calls = <<>> THEN {} ELSE {"calls"})
         \cup (IF c.res.loc = ByteOff(s, x.e) THEN {} ELSE {"loc"})
         \cup (IF c.res.srcok THEN {} ELSE {"source"})
         \cup (IF ReasonOK(c, g, x, s) THEN {} ELSE {"reason"})
         \cup (IF WhereOK(c, x, s) THEN {} ELSE {"linecol"})
         \cup (IF c.res.dbg THEN {} ELSE {"debug"})

Verdict(c, g) == LET s == Effective(c) IN VerdictOn(c, g, s, Outcome([g |-> g, src |-> s]))
=============================================================================
