-------------------------------- MODULE Protocol --------------------------------
(***************************************************************************)
(* The protocol between the library and the parsers it drives, as an       *)
(* automaton, and the validation of recorded event sequences against it.   *)
(*                                                                         *)
(* In a recorded run every node of the pattern is a user-written parser    *)
(* (a wrapper around the library's own), so the record shows how each was  *)
(* driven.  Events (positions in characters, absolute):                    *)
(*    <<1, it, d, lo, hi, st>>  parse_iter of node d on slice lo..hi at st *)
(*                              (gives iterator number it)                 *)
(*    <<2, it, e>>              it now offers a match ending at e          *)
(*    <<3, it, 0>>              it offers no (more) match                  *)
(*    <<4, it, lo, hi>>         backtrack of it, with that slice           *)
(*    <<5, it, 0>>              convert of it                              *)
(*    <<6, it, w>>              use of an iterator that has no more matches *)
(*                                                                         *)
(* One action per event; an event no action allows ends the run with a     *)
(* verdict.  The final verdict joins that with the aspects of the result   *)
(* itself (accept, value).                                                 *)
(***************************************************************************)
EXTENDS Parts, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

-----------------------------------------------------------------------------
VARIABLES t,        \* case
          i,        \* events consumed
          its,      \* iterator number -> its state
          begun,    \* set of <<node, lo, hi, position>> started so far
          conv,     \* iterators converted
          visits, parts,   \* Visits and AcceptedParts of the case
          verdict

vars == << t, i, its, begun, conv, visits, parts, verdict >>
C   == Cases[t]
Job == [g |-> C.g, src |-> C.src]
Ev  == C.res.ev[i + 1]
G   == C.g

\* The parents of d in the arena and the child number d is to them.
Roles(d) == { <<p, n>> \in (1..Len(G)) \X (1..3) : n <= Len(G[p].k) /\ G[p].k[n] = d }
\* Is some iterator of node d on this slice at a match ending at e?
Offered(d, lo, hi, e) ==
    \E x \in DOMAIN its : its[x].s = "live" /\ its[x].d = d /\ its[x].lo = lo /\ its[x].hi = hi /\ its[x].e = e
\* The second part of a concatenation starts where the first now ends.
Preceded(d, lo, hi, st) ==
    LET R == Roles(d) IN
    IF Cardinality(R) # 1 THEN TRUE
    ELSE LET r == CHOOSE r \in R : TRUE IN
         IF r[2] = 2 /\ G[r[1]].op \in {"seq", "pair", "repsep"}
         THEN Offered(G[r[1]].k[1], lo, hi, st) ELSE TRUE

\* What must have been started at the end of a match before the next is
\* asked for: the part that follows, if the pattern has one.
FollowedUp(it) ==
    LET R == Roles(it.d) IN
    IF Cardinality(R) # 1 THEN TRUE
    ELSE LET r == CHOOSE r \in R : TRUE
             n == G[r[1]] IN
         IF n.op \in {"seq", "pair", "repsep"} /\ r[2] = 1
         THEN <<n.k[2], it.lo, it.hi, it.e>> \in begun
         ELSE IF n.op \in {"star", "plus"} /\ it.e # it.st
         THEN <<it.d, it.lo, it.hi, it.e>> \in begun
         ELSE IF n.op = "repsep" /\ r[2] = 2      \* (or nothing was consumed)
         THEN <<n.k[1], it.lo, it.hi, it.e>> \in begun
         ELSE TRUE

Start ==          \* parse_iter
    /\ Ev[1] = 1 /\ conv = {}
    /\ Ev[2] \notin DOMAIN its
    /\ LET v == <<Ev[3], Ev[4], Ev[5], Ev[6]>> IN
       /\ v \in visits
       /\ Preceded(v[1], v[2], v[3], v[4])
       /\ begun' = begun \cup {v}
       /\ its' = its @@ (Ev[2] :> [d |-> v[1], lo |-> v[2], hi |-> v[3], st |-> v[4], e |-> -1, s |-> "asked"])
    /\ UNCHANGED conv
Offer ==
    /\ Ev[1] = 2 /\ its[Ev[2]].s = "asked"
    /\ Ev[3] >= its[Ev[2]].st /\ Ev[3] <= its[Ev[2]].hi
    /\ its' = [its EXCEPT ![Ev[2]].s = "live", ![Ev[2]].e = Ev[3]]
    /\ UNCHANGED << begun, conv >>
Exhausted ==
    /\ Ev[1] = 3 /\ its[Ev[2]].s = "asked"
    /\ its' = [its EXCEPT ![Ev[2]].s = "dead"]
    /\ UNCHANGED << begun, conv >>
AskNext ==        \* backtrack, with the slice it was started in
    /\ Ev[1] = 4 /\ conv = {} /\ its[Ev[2]].s = "live"
    /\ Ev[3] = its[Ev[2]].lo /\ Ev[4] = its[Ev[2]].hi
    /\ FollowedUp(its[Ev[2]])
    /\ its' = [its EXCEPT ![Ev[2]].s = "asked"]
    /\ UNCHANGED << begun, conv >>
PartOf(x) == <<its[x].d, its[x].lo, its[x].hi, its[x].st, its[x].e>>
ConvertOne ==
    /\ Ev[1] = 5 /\ its[Ev[2]].s = "live" /\ Ev[2] \notin conv
    /\ LET p == PartOf(Ev[2]) IN
       Cardinality({ x \in conv : PartOf(x) = p }) < Cardinality({ n \in 1..Len(parts) : parts[n] = p })
    /\ conv' = conv \cup {Ev[2]}
    /\ UNCHANGED << its, begun >>

EventKnown == Ev[1] = 1 \/ (Ev[1] \in 2..5 /\ Ev[2] \in DOMAIN its)
Legal == IF ~EventKnown THEN FALSE ELSE Start \/ Offer \/ Exhausted \/ AskNext \/ ConvertOne

\* The result itself.
ResultAspects(x) ==
    IF C.res.kind \notin {"ok", "err"} THEN {"returns"} \cup (IF x.m THEN {"accept"} ELSE {})
    ELSE IF (C.res.kind = "ok") # x.m THEN {"accept"}
    ELSE IF x.m /\ C.res.v # User(x.r) THEN {"value"} ELSE {}

Name == << "start", "offer", "nomore", "next", "convert", "dead" >>

Init == /\ t \in 1..Len(Cases) /\ i = -1 /\ its = <<>> /\ begun = {} /\ conv = {}
        /\ visits = {} /\ parts = <<>> /\ verdict = {"todo"}
Prepare ==
    /\ i = -1 /\ i' = 0
    /\ visits' = Visits(Job, 1, 0, Len(C.src), 0)
    /\ parts' = AcceptedParts(Job)
    /\ UNCHANGED << t, its, begun, conv, verdict >>
Consume ==
    /\ i >= 0 /\ i < Len(C.res.ev) /\ verdict = {"todo"}
    /\ Legal /\ i' = i + 1 /\ UNCHANGED << t, visits, parts, verdict >>
Stuck ==
    /\ i >= 0 /\ i < Len(C.res.ev) /\ verdict = {"todo"} /\ ~ENABLED Legal
    /\ verdict' = {Name[Ev[1]]}
    /\ PrintT(<<"VERDICT", t, verdict'>>)
    /\ UNCHANGED << t, i, its, begun, conv, visits, parts >>
Finish ==
    /\ i = Len(C.res.ev) /\ verdict = {"todo"}
    /\ verdict' = ResultAspects(Outcome(Job))
    /\ IF verdict' = {} THEN TRUE ELSE PrintT(<<"VERDICT", t, verdict'>>)
    /\ UNCHANGED << t, i, its, begun, conv, visits, parts >>
Next == Prepare \/ Consume \/ Stuck \/ Finish
Spec == Init /\ [][Next]_vars

Conforms == verdict \in {{}, {"todo"}}
=============================================================================
