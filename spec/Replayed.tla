-------------------------------- MODULE Replayed --------------------------------
(***************************************************************************)
(* Judges histories carried out on the real library: every parse in them   *)
(* must give what its parser's definition and its text alone determine.    *)
(*   case: [hist |-> operations, res.runs |-> <<[i |-> index of "begin",   *)
(*          res |-> recorded result], ...>>]                               *)
(***************************************************************************)
EXTENDS Objects, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Pool == ndJsonDeserialize(IOEnv.POOL)

\* handle -> definition before operation i
RECURSIVE Defs(_, _)
Defs(hist, i) ==
    IF i = 1 THEN <<>>
    ELSE LET d == Defs(hist, i - 1)  op == hist[i - 1] IN
         CASE op.o = "build" -> (op.h :> Pool[op.x].g) @@ d
           [] op.o = "wrap" -> (op.h :> Around(op.s, d[op.x], d[op.y])) @@ d
           [] OTHER -> d

Parses(hist) == { i \in 1..Len(hist) : hist[i].o = "begin" }

RunVerdict(c, r) ==
    Verdict([src |-> c.hist[r.i].src, mode |-> "parse", res |-> r.res],
            Defs(c.hist, r.i)[c.hist[r.i].h])

VARIABLES t, verdict
Init == t \in 1..Len(Cases) /\ verdict = {"todo"}
Next == /\ verdict = {"todo"}
        /\ verdict' = LET c == Cases[t] IN
                      UNION { RunVerdict(c, c.res.runs[k]) : k \in 1..Len(c.res.runs) }
                      \cup (IF { c.res.runs[k].i : k \in 1..Len(c.res.runs) } = Parses(c.hist) THEN {} ELSE {"missing"})
        /\ IF verdict' = {} THEN TRUE ELSE PrintT(<<"VERDICT", t, verdict'>>)
        /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, verdict>>
Conforms == verdict \in {{}, {"todo"}}
=============================================================================
