------------------------------- MODULE MachineMC -------------------------------
(***************************************************************************)
(* Exhaustive exploration of the machine from every case of a file: the    *)
(* machine must compute the declared meaning of each (refinement of        *)
(* Explore.tla), satisfy its own invariants in every state, and terminate. *)
(***************************************************************************)
EXTENDS Machine, Parts, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

Init == \E t \in 1..Len(Cases) : InitWith([g |-> Cases[t].g, src |-> Cases[t].src, id |-> t])
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)
Terminates == <>Terminal

\* Used with MachineParts.cfg.
VisitsOnly == (Fresh("pi") /\ Top.d # 0) =>
                 <<Top.d, Cx.lo, Cx.hi, Cx.lo + Top.st>> \in Visits(job, 1, 0, Len(src), 0)
\* The converted parts of an iterator on slice lo..hi.
RECURSIVE ItParts(_, _, _)
ItParts(it, lo, hi) ==
    LET n == NodeAt(g, it.d)
        in == n.op \in {"line", "section"}
        re == RegionEnd(n.op, src, lo + it.st, hi)
        kids == IF n.op = "string" THEN <<>>
                ELSE IF n.op = "repsep"
                THEN [x \in 1..Len(it.ks) |-> ItParts(it.ks[x], lo, hi)]
                ELSE [x \in 1..Len(it.ks) |-> IF in THEN ItParts(it.ks[x], lo + it.st, re[1])
                                              ELSE ItParts(it.ks[x], lo, hi)]
        own == IF it.d = 0 THEN <<>> ELSE << <<it.d, lo, hi, lo + it.st, lo + it.e>> >>
    IN  own \o FoldLeft(LAMBDA a, b : a \o b, <<>>, kids)
PartsRight == phase = "conv" => ItParts(ret[2], 0, Len(src)) = AcceptedParts(job)
=============================================================================
