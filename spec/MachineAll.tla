------------------------------- MODULE MachineAll -------------------------------
(***************************************************************************)
(* The machine under another driver: user code that starts a pattern at    *)
(* any position through the public traits, converts every match it is      *)
(* offered, and asks for the next until there are no more.  What it sees   *)
(* is exactly what Explore lists.                                          *)
(***************************************************************************)
EXTENDS Machine, TLC, Json, IOUtils

VARIABLE log        \* the matches offered so far: [e, r, c]
allvars == << vars, log >>

Cases == ndJsonDeserialize(IOEnv.CASES)

Init == /\ \E t \in 1..Len(Cases) :
              InitAt([g |-> Cases[t].g, src |-> Cases[t].src, st |-> Cases[t].st], Cases[t].st)
        /\ log = <<>>

Offer ==    \* a match: look at it, then ask for the next
    /\ phase = "run" /\ stk = <<>> /\ ret # <<>> /\ RetOk /\ Running /\ NoReport
    /\ LET v == ConvAt(job, RetIt, 0, Len(src))
       IN  log' = Append(log, [e |-> RetIt.e, r |-> v.r, c |-> v.c])
    /\ Goto(<< BtF(RetIt) >>)
NoMore ==
    /\ phase = "run" /\ stk = <<>> /\ ret # <<>> /\ ~RetOk
    /\ phase' = "err" /\ out' = [out EXCEPT !.e = Cx.err.l]
    /\ UNCHANGED << job, stk, ret, ctxs, far, log >>
NextAll == (Inner /\ UNCHANGED log) \/ Offer \/ NoMore
Spec == Init /\ [][NextAll]_allvars

Listed == LET ms == Matches(job, 1, 0, Len(src), job.st)
          IN  [i \in 1..Len(ms) |-> [e |-> ms[i].e, r |-> ms[i].r, c |-> ms[i].c]]
FailuresOf == SelectSeq(Explore(job, 1, 0, Len(src), job.st), LAMBDA i : ~i.m)

\* P21: all of them, in order, and the foremost failure is what is left.
OffersAll == phase = "err" => log = Listed /\ out.e = Foremost(FailuresOf).e
\* A pattern that cannot start has a failure recorded.
ErrIfNone == (phase = "err" /\ log = <<>>) => out.e >= job.st
NeverStuckAll == phase \in {"err", "panic"} \/ ENABLED NextAll
=============================================================================
