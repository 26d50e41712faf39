------------------------------- MODULE Explore -------------------------------
(***************************************************************************)
(* Declarative meaning of a pattern: everything a complete exploration of  *)
(* it at a position finds, in order of preference.  Explore(j, d, lo, hi,  *)
(* st) is the sequence of *items* obtained from node d of grammar j.g on   *)
(* the slice lo..hi of text j.src, started at st.  An item is either a     *)
(* match                                                                   *)
(*   [m |-> TRUE,  e |-> end, r |-> raw output, c |-> closure calls, x |-> ..] *)
(* or a failure that gets recorded on the way to the next match            *)
(*   [m |-> FALSE, e |-> position, r |-> <<>>, c |-> <<>>, x |-> reason].  *)
(*                                                                         *)
(* This module knows nothing about iterators, backtracking or contexts;    *)
(* those are in Machine.tla, and TLC checks that the two agree.            *)
(***************************************************************************)
EXTENDS Patterns

NoReason == <<"", 0>>
Match(e, r, c) == [m |-> TRUE,  e |-> e, r |-> r, c |-> c, x |-> NoReason]
Fail(e, k, d)  == [m |-> FALSE, e |-> e, r |-> <<>>, c |-> <<>>, x |-> <<k, d>>]

\* First of the failures that lie furthest.
Foremost(fs) ==
    FoldLeft(LAMBDA b, f : IF b.e = -1 \/ f.e > b.e THEN f ELSE b,
             [m |-> FALSE, e |-> -1, r |-> <<>>, c |-> <<>>, x |-> NoReason], fs)

\* Look for the first match that reaches `end`; the others are failures of
\* kind `k`.  A match item, or the foremost failure.
Complete(items, end, k, d) ==
    LET hits == { i \in 1..Len(items) : items[i].m /\ items[i].e = end } IN
    IF hits # {} THEN items[CHOOSE i \in hits : \A j \in hits : i <= j]
    ELSE Foremost([i \in 1..Len(items) |->
                     IF items[i].m THEN Fail(items[i].e, k, d) ELSE items[i]])

RECURSIVE Explore(_, _, _, _, _), RepP(_, _, _, _, _, _, _, _), RepS(_, _, _, _, _, _, _, _)

Explore(j, d, lo, hi, st) ==
    LET n == NodeAt(j.g, d) IN
    CASE n.op = "says" ->
            LET is == Saying(n, d, lo, hi, st) IN
            [i \in 1..Len(is) |-> [m |-> is[i].m, e |-> is[i].e, r |-> is[i].r, c |-> <<>>, x |-> is[i].x]]
      [] n.op \in LeafOps ->
            LET ms == LeafMatches(n, j.src, hi, st) IN
            IF ms = <<>>
            THEN LET f == LeafFail(n, d, j.src, hi, st)
                 IN  << [m |-> FALSE, e |-> f.e, r |-> <<>>, c |-> <<>>, x |-> f.x] >>
            ELSE [i \in 1..Len(ms) |-> Match(ms[i].e, ms[i].r, <<>>)]
      [] n.op \in {"seq", "pair"} ->
            FoldLeft(
              LAMBDA acc, a :
                IF ~a.m THEN Append(acc, a)
                ELSE LET bs == Explore(j, n.k[2], lo, hi, a.e) IN
                     acc \o [i \in 1..Len(bs) |->
                       IF ~bs[i].m THEN bs[i]
                       ELSE Match(bs[i].e,
                                  IF n.op = "seq" THEN a.r \o bs[i].r
                                  ELSE <<User(a.r), User(bs[i].r)>>,
                                  a.c \o bs[i].c)],
              <<>>, Explore(j, n.k[1], lo, hi, st))
      [] n.op = "alt" ->
            LET is == Explore(j, n.k[1], lo, hi, st) \o Explore(j, n.k[2], lo, hi, st) IN
            [i \in 1..Len(is) |-> IF is[i].m THEN [is[i] EXCEPT !.r = <<User(@)>>] ELSE is[i]]
      [] n.op = "opt" ->
            LET is == Explore(j, n.k[1], lo, hi, st) IN
            [i \in 1..Len(is) |->
               IF is[i].m THEN [is[i] EXCEPT !.r = <<SomeV(User(@))>>] ELSE is[i]]
            \o << Match(st, <<NoneV>>, <<>>) >>
      [] n.op \in RepOps -> RepP(j, n, lo, hi, st, <<>>, <<>>, TRUE)
      [] n.op \in WrapOps ->
            LET is == Explore(j, n.k[1], lo, hi, st) IN
            [i \in 1..Len(is) |->
               IF is[i].m THEN Match(is[i].e,
                                     WrapRaw(n, is[i].r, Text(j.src, st, is[i].e)),
                                     WrapCalls(n, is[i].r, is[i].c))
               ELSE is[i]]
      [] n.op = "probe" ->
            LET is == Explore(j, n.k[1], lo, hi, st)
                hits == SelectSeq([i \in 1..Len(is) |-> i], LAMBDA i : is[i].m)
                own(i) == [is[i] EXCEPT !.r = <<User(@)>>]
                before == IF hits = <<>> THEN is ELSE SubSeq(is, 1, hits[1] - 1) IN
            (CASE n.s = "not" -> Append(before, IF hits = <<>> THEN Match(st, <<UnitV>>, <<>>)
                                               ELSE Fail(st, "exp", d))
              [] n.s = "odd" ->
                    LET kept == SelectSeq([i \in 1..Len(is) |-> i],
                                          LAMBDA i : IF is[i].m
                                                     THEN Cardinality({ h \in 1..Len(hits) : hits[h] <= i }) % 2 = 1
                                                     ELSE TRUE)
                    IN  [i \in 1..Len(kept) |-> IF is[kept[i]].m THEN own(kept[i]) ELSE is[kept[i]]]
              [] hits = <<>> -> is
              [] n.s = "once" -> Append(before, own(hits[1]))
              [] n.s = "ahead" -> Append(before, [own(hits[1]) EXCEPT !.e = st]))
      [] n.op = "rs" ->
            LET is == Explore(j, n.k[1], lo, hi, st) IN
            [i \in 1..Len(is) |-> IF is[i].m THEN [is[i] EXCEPT !.r = <<User(@)>>] ELSE is[i]]
      [] n.op \in {"line", "section"} ->
            IF ~AtStart(n.op, j.src, lo, st) THEN << Fail(st, BadStart(n.op), d) >>
            ELSE IF st = hi THEN << Fail(hi, NoRegion(n.op), d) >>
            ELSE LET re == RegionEnd(n.op, j.src, st, hi)
                     in == Complete(Explore(j, n.k[1], st, re[1], st), re[1], Partial(n.op), d)
                 IN  IF in.m THEN << Match(re[2], <<User(in.r)>>, in.c) >> ELSE << in >>

(* Repetition: RepP explores "item next", RepS "separator next", after the *)
(* items with values vs and calls cs; greedy, so a list of k items is      *)
(* offered only after all longer lists that extend it.  A round (item and  *)
(* separator) that consumed nothing is not followed by another.            *)
RepP(j, n, lo, hi, pos, vs, cs, first) ==
    FoldLeft(LAMBDA acc, a :
               IF ~a.m THEN Append(acc, a)
               ELSE acc \o RepS(j, n, lo, hi, a.e, Append(vs, User(a.r)), cs \o a.c, pos),
             <<>>, Explore(j, n.k[1], lo, hi, pos))
    \o (IF first /\ RepMinOf(n) = 0 THEN << Match(pos, <<VecV(<<>>)>>, <<>>) >> ELSE <<>>)

RepS(j, n, lo, hi, pos, vs, cs, roundStart) ==
    FoldLeft(LAMBDA acc, a :
               IF ~a.m THEN Append(acc, a)
               ELSE IF a.e = roundStart THEN acc
               ELSE acc \o RepP(j, n, lo, hi, a.e, vs, cs, FALSE),
             <<>>, Explore(j, RepSepOf(n), lo, hi, pos))
    \o << Match(pos, <<VecV(vs)>>, cs) >>

-----------------------------------------------------------------------------
(* The observable outcome of parse(): an item.  Positions are characters;  *)
(* calls are compared as a bag (the library does not promise their order). *)
Outcome(j) == Complete(Explore(j, 1, 0, Len(j.src), 0), Len(j.src), "extra", 1)

Matches(j, d, lo, hi, st) == SelectSeq(Explore(j, d, lo, hi, st), LAMBDA i : i.m)
=============================================================================
