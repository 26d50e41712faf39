--------------------------------- MODULE Objects ---------------------------------
(***************************************************************************)
(* Parsers as objects with a definition: a pattern from a pool, or a       *)
(* larger pattern around parsers that already exist and are borrowed.      *)
(***************************************************************************)
EXTENDS Judge, TLC

Shifted(a, by) == [d \in 1..Len(a) |->
                     [a[d] EXCEPT !.k = [i \in 1..Len(@) |-> IF @[i] = 0 THEN 0 ELSE @[i] + by]]]
Nd(op, k, a, s) == [op |-> op, k |-> k, a |-> a, s |-> s]

Shapes == {"pair", "alt", "star", "lines", "map", "string", "list"}
TwoPart == {"pair", "alt"}

\* The pattern of shape sh around the parsers with patterns a (and b).
Around(sh, a, b) ==
    CASE sh \in TwoPart -> << Nd(sh, <<2, 3>>, <<>>, ""), Nd("by", <<4>>, <<>>, ""), Nd("by", <<4 + Len(a)>>, <<>>, "") >>
                           \o Shifted(a, 3) \o Shifted(b, 3 + Len(a))
      [] sh = "star"   -> << Nd("star", <<2>>, <<>>, ""), Nd("by", <<3>>, <<>>, "") >> \o Shifted(a, 2)
      [] sh = "lines"  -> << Nd("star", <<2>>, <<>>, "lines"), Nd("line", <<3>>, <<>>, ""), Nd("by", <<4>>, <<>>, "") >> \o Shifted(a, 3)
      [] sh = "map"    -> << Nd("map", <<2>>, <<800>>, ""), Nd("by", <<3>>, <<>>, "") >> \o Shifted(a, 2)
      [] sh = "string" -> << Nd("string", <<2>>, <<>>, ""), Nd("by", <<3>>, <<>>, "") >> \o Shifted(a, 2)
      \* rule r = (&a, ("," r)?); r
      [] sh = "list"   -> << Nd("rs", <<2, 3>>, <<900>>, ""), Nd("ref", <<3>>, <<900, 1>>, ""),
                             Nd("pair", <<4, 5>>, <<>>, ""), Nd("by", <<9>>, <<>>, ""), Nd("opt", <<6>>, <<>>, ""),
                             Nd("pair", <<7, 8>>, <<>>, ""), Nd("lit", <<>>, <<44>>, ""), Nd("ref", <<3>>, <<900, 1>>, "") >>
                           \o Shifted(a, 8)

\* Some texts to try it on, made from texts for the parts.
Joined(sh) == CASE sh = "lines" -> <<NL>> [] sh = "list" -> <<44>> [] OTHER -> <<>>
TextsAround(sh, ta, tb) ==
    LET t2 == IF sh \in TwoPart THEN tb ELSE ta
        some == << ta[1], ta[1] \o Joined(sh) \o t2[1], ta[2] \o Joined(sh) \o t2[1],
                   ta[1] \o Joined(sh) \o t2[2], t2[1], ta[Len(ta)] \o Joined(sh) >>
    IN  SelectSeq(some, LAMBDA x : Len(x) <= 14)
=============================================================================
