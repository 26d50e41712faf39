------------------------------- MODULE Patterns -------------------------------
(***************************************************************************)
(* Abstract syntax of patterns.  A grammar is a sequence of nodes (an      *)
(* arena); node 1 is the pattern handed to parse().  A node is             *)
(*    [op |-> STRING, k |-> children (indices), a |-> integers, s |-> STRING] *)
(*                                                                         *)
(*  op        k            a              s                                *)
(*  ---------------------------------------------------------------------  *)
(*  empty                                              matches ""          *)
(*  lit                    code points                 "text"              *)
(*  chr                    <<code point>>              'x'                 *)
(*  cls                                   class name   alpha, digit, ...   *)
(*  charof                 code points                 char_of("...")      *)
(*  int                    <<radix>>      type name    u8, i16_hex, ...    *)
(*  bool                                                                   *)
(*  float                                 f32 / f64                        *)
(*  user                   lengths                     user-written leaf   *)
(*  says                   <<what, off, ...>>          user-written leaf   *)
(*  seq       <<l, r>>                                 l r (flattening)    *)
(*  pair      <<l, r>>                                 l r (two components)*)
(*  alt       <<l, r>>                                 {l, r}              *)
(*  opt       <<p>>                                    p?                  *)
(*  star      <<p>>                                    p*                  *)
(*  plus      <<p>>                                    p+                  *)
(*  repsep    <<p, sep>>                               repeat_sep(p, sep)  *)
(*  grp       <<p>>                                    (p)                 *)
(*  by        <<p>>                                    &p (borrowed)       *)
(*  map       <<p>>        <<tag>>                     p => ...            *)
(*  mapl      <<p>>        <<tag, n, i1, ...>>         l1:p1 p2 ... => ... *)
(*  string    <<p>>                                    string(p)           *)
(*  line, section <<p>>                                                    *)
(*  coll      <<p>>                       kind         hash_set(p), ...    *)
(*  rs        <<entry, body1, ...>>  <<set>>           rule ...; entry     *)
(*  ref       <<body>>     <<set, index>>              a rule name         *)
(*  probe     <<p>>                       kind         user-written parser *)
(*                                                                         *)
(* lines(p) and sections(p) are star(line(p)) and star(section(p)), as     *)
(* documented; the marker s = "lines" / "sections" on the star node only   *)
(* tells the test harness to build them with those functions.              *)
(*                                                                         *)
(* A probe is a parser that a user wrote with the public traits around     *)
(* another one.  Its kinds: ahead (matches no text where p matches; value  *)
(* of the first match), not (matches no text where p does not match), once *)
(* (the first match of p only), odd (the 1st, 3rd, 5th ... match of p).    *)
(*                                                                         *)
(* says is a leaf that a user wrote, which offers matches and, before,     *)
(* between and after them, tells the context of failures: those before the *)
(* first match when it is started, the others when it is asked for the     *)
(* next.  Its script is a list of pairs (what, off), where what is 0: a    *)
(* match of off characters; 1: error_expected at off characters from the   *)
(* start (forward or back); 2: error_extra there; 3: error_from_str_failed *)
(* of the next off characters; 4: the error of another parse, which it     *)
(* moves there and reports.  Where a position lies outside the text it     *)
(* sees, it takes the nearest one inside; a match that does not fit is     *)
(* left out.  With nothing to offer and nothing said it says it expected   *)
(* something at the start.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, Chars, Numbers, Floats, Values

LeafOps == { "empty", "lit", "chr", "cls", "charof", "int", "bool", "float", "user", "says" }
WrapOps == { "grp", "by", "map", "mapl", "string", "coll", "ref" }
RepOps  == { "star", "plus", "repsep" }

EmptyNode == [op |-> "empty", k |-> <<>>, a |-> <<>>, s |-> ""]
\* Node 0 is an implicit empty pattern: the separator of * and +, and the
\* fallback of ?.
NodeAt(g, d) == IF d = 0 THEN EmptyNode ELSE g[d]

RepSepOf(n)  == IF n.op = "repsep" THEN n.k[2] ELSE 0
RepMinOf(n)  == IF n.op = "plus" THEN 1 ELSE 0

Text(src, st, e) == SubSeq(src, st + 1, e)

-----------------------------------------------------------------------------
(* Leaves.  LeafMatches gives the matches a leaf offers, in order, as      *)
(* [e |-> end, r |-> raw output]; LeafFail the failure it reports when it  *)
(* offers none: a position and a reason.                                   *)
CharOfIndex(opts, c) ==
    LET hits == { i \in 1..Len(opts) : opts[i] = c }
    IN  IF hits = {} THEN -1 ELSE (CHOOSE i \in hits : \A j \in hits : i <= j) - 1

One(e, r) == << [e |-> e, r |-> r] >>

ClassValue(cls, c) == IF cls \in {"digit", "digit_bin", "digit_hex"}
                      THEN NatV(DigitVal(c)) ELSE CharV(c)

LeafMatches(n, src, hi, st) ==
    CASE n.op = "empty" -> One(st, <<>>)
      [] n.op \in {"lit", "chr"} ->
            IF HasPrefix(src, n.a, st, hi) THEN One(st + Len(n.a), <<>>) ELSE <<>>
      [] n.op = "cls" ->
            IF st < hi /\ InClass(n.s, src[st + 1])
            THEN One(st + 1, <<ClassValue(n.s, src[st + 1])>>) ELSE <<>>
      [] n.op = "charof" ->
            IF st < hi /\ CharOfIndex(n.a, src[st + 1]) >= 0
            THEN One(st + 1, <<NatV(CharOfIndex(n.a, src[st + 1]))>>) ELSE <<>>
      [] n.op = "int" ->
            LET sc == ScanInt(src, n.s, n.a[1], st, hi)
            IN  IF sc.ok /\ Fits(n.s, sc.neg, n.a[1], sc.mag)
                THEN One(sc.e, << V("n", IntN(sc.neg, sc.mag), <<>>) >>) ELSE <<>>
      [] n.op = "bool" ->
            LET sc == ScanBool(src, st, hi)
            IN  IF sc.ok THEN One(sc.e, <<BoolV(sc.v)>>) ELSE <<>>
      [] n.op = "float" ->
            LET sc == ScanFloat(src, st, hi)
            IN  IF sc.ok THEN One(sc.e, <<V("f", FloatN(n.s, src, st, sc.e), <<>>)>>) ELSE <<>>
      [] n.op = "user" ->
            LET ok == SelectSeq([i \in 1..Len(n.a) |-> <<i, n.a[i]>>],
                                LAMBDA p : st + p[2] <= hi)
            IN  [i \in 1..Len(ok) |-> [e |-> st + ok[i][2], r |-> <<NatV(ok[i][1])>>]]
      [] n.op = "says" ->
            LET ok == SelectSeq([i \in 1..(Len(n.a) \div 2) |-> i],
                                LAMBDA i : n.a[2 * i - 1] = 0 /\ st + n.a[2 * i] <= hi)
            IN  [i \in 1..Len(ok) |-> [e |-> st + n.a[2 * ok[i]], r |-> <<NatV(ok[i])>>]]

\* Reasons: exp(ected), fromstr (numeral out of range), extra, lineextra,
\* secextra, badline, badsec, expline, expsec; with the node at fault.
LeafFail(n, d, src, hi, st) ==
    IF n.op = "int" /\ ScanInt(src, n.s, n.a[1], st, hi).ok
    THEN [e |-> st, x |-> <<"fromstr", d>>]
    ELSE [e |-> st, x |-> <<"exp", d>>]

\* What a "says" leaf does, in order: items [m |-> match?, e |-> position,
\* r |-> raw output, x |-> reason].
Saying(n, d, lo, hi, st) ==
    LET at(o) == IF st + o > hi THEN hi ELSE IF st + o < lo THEN lo ELSE st + o
        item(i) ==
            LET w == n.a[2 * i - 1]  o == n.a[2 * i]
                told(p, x) == [m |-> FALSE, e |-> p, r |-> <<>>, x |-> x] IN
            CASE w = 0 -> [m |-> TRUE, e |-> st + o, r |-> <<NatV(i)>>, x |-> <<"", 0>>]
              [] w = 1 -> told(at(o), <<"exp", d>>)
              [] w = 2 -> told(at(o), <<"extra", d>>)
              [] w = 3 -> told(st, <<"told", d, at(o) - st>>)
              [] w = 4 -> told(at(o), <<"passed", d>>)
        is == SelectSeq([i \in 1..(Len(n.a) \div 2) |-> item(i)], LAMBDA x : ~x.m \/ x.e <= hi)
    IN  IF is = <<>> THEN << [m |-> FALSE, e |-> st, r |-> <<>>, x |-> <<"exp", d>>] >> ELSE is

-----------------------------------------------------------------------------
(* Regions (lines and sections) of the slice lo..hi.                       *)
AtLineStart(src, lo, st) == IF st = lo THEN TRUE ELSE src[st] = NL
AtSectionStart(src, lo, st) ==
    IF st = lo THEN TRUE
    ELSE IF st = lo + 1 THEN src[st] = NL
    ELSE src[st] = NL /\ src[st - 1] = NL
AtStart(op, src, lo, st) == IF op = "line" THEN AtLineStart(src, lo, st)
                            ELSE AtSectionStart(src, lo, st)

\* First position p in st..hi-1 with a newline at p (and, for a section, a
\* second newline at p + 1); hi if there is none.
RECURSIVE FindNL(_, _, _), FindNLNL(_, _, _)
FindNL(src, st, hi) == IF st >= hi THEN hi
                       ELSE IF src[st + 1] = NL THEN st ELSE FindNL(src, st + 1, hi)
FindNLNL(src, st, hi) == IF st + 1 >= hi THEN hi
                         ELSE IF src[st + 1] = NL /\ src[st + 2] = NL THEN st
                         ELSE FindNLNL(src, st + 1, hi)

\* <<end of interior, end of region>>; only meaningful when st < hi.
RegionEnd(op, src, st, hi) ==
    IF op = "line"
    THEN LET p == FindNL(src, st, hi) IN IF p = hi THEN <<hi, hi>> ELSE <<p, p + 1>>
    ELSE IF src[st + 1] = NL THEN <<st, st + 1>>
    ELSE LET p == FindNLNL(src, st, hi) IN IF p = hi THEN <<hi, hi>> ELSE <<p + 1, p + 2>>

BadStart(op) == IF op = "line" THEN "badline" ELSE "badsec"
NoRegion(op) == IF op = "line" THEN "expline" ELSE "expsec"
Partial(op)  == IF op = "line" THEN "lineextra" ELSE "secextra"

-----------------------------------------------------------------------------
(* Conversions.                                                            *)
RECURSIVE Component(_, _, _)
\* i-th of the n values in the nested pairs <<v1, <<v2, ... vn>>>>
Component(v, n, i) == IF n = 1 THEN v
                      ELSE IF i = 1 THEN v.s[1] ELSE Component(v.s[2], n - 1, i - 1)

MappedValue(n, v) ==
    IF n.op = "map" THEN MapV(n.a[1], <<v>>)
    ELSE MapV(n.a[1], [i \in 1..(Len(n.a) - 2) |-> Component(v, n.a[2], n.a[i + 2])])

\* Raw output of a one-child node from the raw output of its child.
WrapRaw(n, r, txt) ==
    CASE n.op \in {"grp", "ref"} -> << User(r) >>
      [] n.op = "by" -> r
      [] n.op \in {"map", "mapl"} -> << MappedValue(n, User(r)) >>
      [] n.op = "string" -> << StrV(txt) >>
      [] n.op = "coll" -> << CollectV(n.s, User(r)) >>
\* Conversion closures run for a one-child node, given those of its child.
WrapCalls(n, r, c) == IF n.op \in {"map", "mapl"} THEN Append(c, MappedValue(n, User(r)))
                      ELSE IF n.op = "string" THEN <<>> ELSE c

-----------------------------------------------------------------------------
(* Static notions.                                                         *)
\* Can node d match the empty string?  (least fixed point over the arena)
RECURSIVE NullStep(_, _, _)
NullableNow(g, N, d) ==
    LET n == NodeAt(g, d) IN
    CASE n.op = "empty" -> TRUE
      [] n.op \in {"lit", "chr"} -> Len(n.a) = 0
      [] n.op = "says" -> \E i \in 1..(Len(n.a) \div 2) : n.a[2 * i - 1] = 0 /\ n.a[2 * i] = 0
      [] n.op = "user" -> \E i \in 1..Len(n.a) : n.a[i] = 0
      [] n.op \in {"cls", "charof", "int", "bool", "float", "line", "section"} -> FALSE
      [] n.op \in {"seq", "pair"} -> n.k[1] \in N /\ n.k[2] \in N
      [] n.op = "alt" -> n.k[1] \in N \/ n.k[2] \in N
      [] n.op \in {"opt", "star", "repsep"} -> TRUE
      [] n.op = "plus" -> n.k[1] \in N
      [] n.op = "probe" -> n.s \in {"ahead", "not"} \/ n.k[1] \in N
      [] OTHER -> n.k[1] \in N
NullStep(g, N, fuel) ==
    LET M == { d \in 1..Len(g) : NullableNow(g, N \cup {0}, d) }
    IN  IF M = N \/ fuel = 0 THEN M ELSE NullStep(g, M, fuel - 1)
NullableSet(g) == NullStep(g, {}, Len(g) + 1)

\* Nodes that node d may start at its own start position (edges of the
\* left-recursion graph).
FirstKids(g, N, d) ==
    LET n == NodeAt(g, d) IN
    CASE n.op \in LeafOps -> {}
      [] n.op \in {"seq", "pair", "repsep"} ->
            {n.k[1]} \cup (IF n.k[1] \in N THEN {n.k[2]} ELSE {})
      [] n.op = "alt" -> {n.k[1], n.k[2]}
      [] n.op = "rs" -> {n.k[1]}
      [] OTHER -> {n.k[1]}
RECURSIVE ReachFrom(_, _, _)
ReachFrom(g, N, S) == LET T == S \cup UNION { FirstKids(g, N, d) : d \in S }
                      IN IF T = S THEN S ELSE ReachFrom(g, N, T)
LeftRecursive(g) ==
    LET N == NullableSet(g)
    IN  \E d \in 1..Len(g) : d \in ReachFrom(g, N, FirstKids(g, N, d))
=============================================================================
