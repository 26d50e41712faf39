--------------------------------- MODULE Parts ---------------------------------
(***************************************************************************)
(* Which parts of a pattern are tried where, and which are part of the     *)
(* accepted match: the static side of the protocol between the library and *)
(* user-written parsers (Protocol.tla).  TLC checks on the machine that it *)
(* starts nothing else (VisitsOnly) and accepts this match (PartsRight).   *)
(***************************************************************************)
EXTENDS Explore

-----------------------------------------------------------------------------
(* Where the pattern's parts may be started: every (node, slice, position) *)
(* a complete exploration visits.                                          *)
Ends(j, d, lo, hi, st) ==
    LET ms == Matches(j, d, lo, hi, st) IN { ms[i].e : i \in 1..Len(ms) }

RECURSIVE Visits(_, _, _, _, _), VisitsRep(_, _, _, _, _, _)
Visits(j, d, lo, hi, st) ==
    IF d = 0 THEN {}
    ELSE
    LET n == j.g[d]
        at(i, p) == Visits(j, n.k[i], lo, hi, p) IN
    {<<d, lo, hi, st>>} \cup
    CASE n.op \in LeafOps -> {}
      [] n.op \in {"seq", "pair"} ->
            at(1, st) \cup UNION { at(2, p) : p \in Ends(j, n.k[1], lo, hi, st) }
      [] n.op = "alt" -> at(1, st) \cup at(2, st)
      [] n.op \in RepOps -> VisitsRep(j, n, lo, hi, {st}, {})
      [] n.op \in {"line", "section"} ->
            IF ~AtStart(n.op, j.src, lo, st) \/ st = hi THEN {}
            ELSE LET re == RegionEnd(n.op, j.src, st, hi) IN Visits(j, n.k[1], st, re[1], st)
      [] OTHER -> at(1, st)
\* todo: positions where an item is to be started; done: those expanded.
VisitsRep(j, n, lo, hi, todo, done) ==
    IF todo = {} THEN {}
    ELSE LET p == CHOOSE p \in todo : TRUE
             es == Ends(j, n.k[1], lo, hi, p)
             sep == RepSepOf(n)
             next == (UNION { IF sep = 0 THEN {e} ELSE Ends(j, sep, lo, hi, e) : e \in es }) \ {p}
             D == done \cup {p} IN
         Visits(j, n.k[1], lo, hi, p)
         \cup UNION { Visits(j, sep, lo, hi, e) : e \in es }
         \cup VisitsRep(j, n, lo, hi, (todo \cup next) \ D, D)

-----------------------------------------------------------------------------
(* The parts of the accepted match that are converted: matches as trees.   *)
(* A tree is [e |-> end, p |-> sequence of <<node, lo, hi, start, end>>];  *)
(* the parts inside string() are left out.                                 *)
RECURSIVE Trees(_, _, _, _, _), TreesRep(_, _, _, _, _, _, _)
Own(d, lo, hi, st, t) == IF d = 0 THEN t ELSE [t EXCEPT !.p = <<<<d, lo, hi, st, t.e>>>> \o @]
Trees(j, d, lo, hi, st) ==
    LET n == NodeAt(j.g, d)
        at(i, p) == Trees(j, n.k[i], lo, hi, p)
        ts == CASE n.op \in LeafOps ->
                      LET ms == LeafMatches(n, j.src, hi, st)
                      IN  [i \in 1..Len(ms) |-> [e |-> ms[i].e, p |-> <<>>]]
                [] n.op \in {"seq", "pair"} ->
                      FoldLeft(LAMBDA acc, a :
                                 acc \o LET bs == at(2, a.e) IN
                                        [i \in 1..Len(bs) |-> [e |-> bs[i].e, p |-> a.p \o bs[i].p]],
                               <<>>, at(1, st))
                [] n.op = "alt" -> at(1, st) \o at(2, st)
                [] n.op = "opt" -> Append(at(1, st), [e |-> st, p |-> <<>>])
                [] n.op \in RepOps ->
                      TreesRep(j, n, lo, hi, st, <<>>, RepMinOf(n) = 0)
                [] n.op = "string" ->
                      LET is == at(1, st) IN [i \in 1..Len(is) |-> [is[i] EXCEPT !.p = <<>>]]
                [] n.op \in {"line", "section"} ->
                      IF ~AtStart(n.op, j.src, lo, st) \/ st = hi THEN <<>>
                      ELSE LET re == RegionEnd(n.op, j.src, st, hi)
                               is == Trees(j, n.k[1], st, re[1], st)
                               ok == SelectSeq(is, LAMBDA t : t.e = re[1])
                           IN  IF ok = <<>> THEN <<>> ELSE << [ok[1] EXCEPT !.e = re[2]] >>
                [] n.op = "probe" ->
                      LET is == at(1, st) IN
                      IF n.s = "not" THEN (IF is = <<>> THEN << [e |-> st, p |-> <<>>] >> ELSE <<>>)
                      ELSE IF is = <<>> THEN <<>>
                      ELSE IF n.s = "odd" THEN [i \in 1..((Len(is) + 1) \div 2) |-> is[2 * i - 1]]
                      ELSE << IF n.s = "ahead" THEN [is[1] EXCEPT !.e = st] ELSE is[1] >>
                [] OTHER -> at(1, st)
    IN  [i \in 1..Len(ts) |-> Own(d, lo, hi, st, ts[i])]
\* Matches of a repetition from an item position on, given the parts so far.
TreesRep(j, n, lo, hi, pos, ps, none) ==
    FoldLeft(
      LAMBDA acc, a :
        acc \o FoldLeft(
                 LAMBDA acc2, b :
                   IF b.e = pos THEN acc2
                   ELSE acc2 \o TreesRep(j, n, lo, hi, b.e, ps \o a.p, FALSE),
                 <<>>, Trees(j, RepSepOf(n), lo, hi, a.e))
            \o << [e |-> a.e, p |-> ps \o a.p] >>,
      <<>>, Trees(j, n.k[1], lo, hi, pos))
    \o (IF none THEN << [e |-> pos, p |-> ps] >> ELSE <<>>)

AcceptedParts(j) ==
    LET ok == SelectSeq(Trees(j, 1, 0, Len(j.src), 0), LAMBDA t : t.e = Len(j.src))
    IN  IF ok = <<>> THEN <<>> ELSE ok[1].p

=============================================================================
