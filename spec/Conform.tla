-------------------------------- MODULE Conform --------------------------------
(***************************************************************************)
(* Validation of recorded executions of the real library against the       *)
(* specification.  A case is one call of parse():                          *)
(*    g, src    the grammar the real parser was built from, and the text   *)
(*    mode      "parse" or "aoc" (through the puzzle-runner helper)        *)
(*    res       what was observed: kind (ok, err, panic, diverged, hang,   *)
(*              crash), value v, calls of conversion closures, and for an  *)
(*              error its byte offset loc, whether it carries the source   *)
(*              text, the reasons its text can stand for (why), line and   *)
(*              column lc, quoted numeral q, and whether the debug output  *)
(*              holds the summary                                          *)
(* Each case is one behaviour of two states: "todo", then the verdict, the *)
(* set of aspects in which the recording is not what the specification     *)
(* allows.                                                                 *)
(***************************************************************************)
EXTENDS Judge, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES t, verdict

Init == t \in 1..Len(Cases) /\ verdict = {"todo"}
Next == /\ verdict = {"todo"}
        /\ verdict' = Verdict(Cases[t], Cases[t].g)
        /\ IF verdict' = {} THEN TRUE ELSE PrintT(<<"VERDICT", t, verdict'>>)
        /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, verdict>>

Has(a) == a \in verdict
Returns      == ~Has("returns")
AcceptsRight == ~Has("accept")
ValueRight   == ~Has("value")
CallsRight   == ~Has("calls")
LocRight     == ~Has("loc")
SourceRight  == ~Has("source")
ReasonRight  == ~Has("reason")
LineColRight == ~Has("linecol")
DebugRight   == ~Has("debug")
=============================================================================
