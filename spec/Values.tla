-------------------------------- MODULE Values --------------------------------
(***************************************************************************)
(* Values produced by patterns.  A value is a uniform tagged record        *)
(*    [t |-> tag, n |-> sequence of integers, s |-> sequence of values]    *)
(*                                                                         *)
(*   "u" ()            "c" char (n = code point)     "b" bool              *)
(*   "n" integer (n = sign, digits...)  "f" float (n as in Floats)          *)
(*   "s" String        "v" Vec      "t" tuple      "S" Some     "N" None   *)
(*   "m" result of the conversion closure number n[1] on s[1..]            *)
(*   "set" / "map" collections, elements in canonical order, "q" VecDeque  *)
(*                                                                         *)
(* A *raw* output is the sequence of values a pattern contributes to the   *)
(* concatenation it is part of; User(raw) is what the user gets to see.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

V(t, n, s) == [t |-> t, n |-> n, s |-> s]
UnitV     == V("u", <<>>, <<>>)
CharV(c)  == V("c", <<c>>, <<>>)
StrV(cs)  == V("s", cs, <<>>)
VecV(vs)  == V("v", <<>>, vs)
SomeV(v)  == V("S", <<>>, <<v>>)
NoneV     == V("N", <<>>, <<>>)
BoolV(b)  == V("b", <<IF b THEN 1 ELSE 0>>, <<>>)
MapV(k, vs) == V("m", <<k>>, vs)

User(raw) == IF Len(raw) = 0 THEN UnitV
             ELSE IF Len(raw) = 1 THEN raw[1] ELSE V("t", <<>>, raw)

RECURSIVE DecDigits(_)
DecDigits(k) == IF k < 10 THEN <<k>> ELSE Append(DecDigits(k \div 10), k % 10)
NatV(k) == V("n", <<0>> \o DecDigits(k), <<>>)

-----------------------------------------------------------------------------
(* A total order on values, to write collections down canonically.  Code   *)
(* flattens a value into a sequence of integers, injectively.              *)
TagCode(t) == CASE t = "u" -> 1 [] t = "c" -> 2 [] t = "b" -> 3 [] t = "n" -> 4
                [] t = "f" -> 5 [] t = "s" -> 6 [] t = "v" -> 7 [] t = "t" -> 8
                [] t = "S" -> 9 [] t = "N" -> 10 [] t = "m" -> 11
                [] t = "set" -> 12 [] t = "map" -> 13 [] t = "q" -> 14
                [] OTHER -> 99

RECURSIVE Code(_)
Code(v) == FoldLeft(LAMBDA acc, x : acc \o Code(x),
                    <<TagCode(v.t), Len(v.n)>> \o v.n \o <<Len(v.s)>>, v.s)

RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE LexLess(a, b, i + 1)

ValLess(a, b) == LexLess(Code(a), Code(b), 1)

\* Insert into an ascending sequence, keeping duplicates (insertion sort).
RECURSIVE InsertSorted(_, _, _)
InsertSorted(sorted, v, i) ==
    IF i > Len(sorted) THEN Append(sorted, v)
    ELSE IF ValLess(v, sorted[i])
         THEN SubSeq(sorted, 1, i - 1) \o <<v>> \o SubSeq(sorted, i, Len(sorted))
         ELSE InsertSorted(sorted, v, i + 1)
SortVals(vs) == FoldLeft(LAMBDA acc, v : InsertSorted(acc, v, 1), <<>>, vs)

-----------------------------------------------------------------------------
(* Collections: what .into_iter().collect() leaves.                        *)
Elements(v) == v.s          \* v is a "v", "q", "set" or "map" value

DistinctVals(vs) ==
    FoldLeft(LAMBDA acc, v : IF \E i \in 1..Len(acc) : acc[i] = v
                             THEN acc ELSE Append(acc, v), <<>>, vs)
\* Pairs are "t" values <<key, value>>; a later pair replaces an earlier one.
LastWins(pairs) ==
    FoldLeft(LAMBDA acc, p :
               LET hit == { i \in 1..Len(acc) : acc[i].s[1] = p.s[1] }
               IN IF hit = {} THEN Append(acc, p)
                  ELSE LET i == CHOOSE j \in hit : TRUE IN [acc EXCEPT ![i] = p],
             <<>>, pairs)

CollectV(kind, v) ==
    CASE kind \in {"hash_set", "btree_set"} ->
            V("set", <<>>, SortVals(DistinctVals(Elements(v))))
      [] kind \in {"hash_map", "btree_map"} ->
            V("map", <<>>, SortVals(LastWins(Elements(v))))
      [] kind = "vec_deque" -> V("q", <<>>, Elements(v))
=============================================================================
