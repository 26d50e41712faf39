--------------------------------- MODULE Large ---------------------------------
(***************************************************************************)
(* Cases far too large for Explore to enumerate: families of patterns and  *)
(* texts indexed by a size n, with the outcome of parsing given in closed  *)
(* form.  Two uses:                                                        *)
(*   - on small sizes (LargeMC.cfg) TLC checks that the closed form *is*   *)
(*     the outcome that Explore defines;                                   *)
(*   - on large sizes (Large.cfg) recordings of the real library are       *)
(*     judged against it.                                                  *)
(* A case has the fields of Conform.tla's and fam, n.  What the sizes are  *)
(* after: recursion per item, counters and buffers of fixed width, bounds  *)
(* on the number of attempts, quoting of long texts, line and column       *)
(* numbers beyond small ranges.                                            *)
(***************************************************************************)
EXTENDS Judge, Unicode, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

Rep(w, n) == [i \in 1..(n * Len(w)) |-> w[((i - 1) % Len(w)) + 1]]
Cyc(vs, n) == VecV([i \in 1..(n * Len(vs)) |-> vs[((i - 1) % Len(vs)) + 1]])
Cs(n, v) == [i \in 1..n |-> v]

C_bang == 33  C_comma == 44  C_7 == 55  C_a == 97  C_b == 98  C_x == 120  C_e == 233  C_smile == 128514

\* All characters of a kind (Unicode.tla), n of them or their (n-12)th part.
Expand(R) == FoldLeft(LAMBDA acc, i : acc \o [j \in 1..(R[2 * i] - R[2 * i - 1] + 1) |-> R[2 * i - 1] + j - 1],
                      <<>>, [i \in 1..(Len(R) \div 2) |-> i])
Uppers == Expand(UpperR)   Lowers == Expand(LowerR)   Letters == Expand(LetterR)
Numbers2 == Expand(NumberR)  Plains == Expand(PlainR)
InAlpha  == Uppers \o Lowers \o Letters
InAlnum  == InAlpha \o Numbers2
OutAlpha == Numbers2 \o Plains
OutUpper == Lowers \o Letters \o OutAlpha
OutLower == Uppers \o Letters \o OutAlpha
Foreign  == SelectSeq(InAlnum \o Plains, LAMBDA c : c >= 128)
Part(all, n) == IF n < 13 THEN SubSeq(all, 1, n)
                ELSE SubSeq(all, (n - 13) * 8192 + 1, IF (n - 12) * 8192 < Len(all) THEN (n - 12) * 8192 ELSE Len(all))
\* The first n code points, or the (n-12)th block of them; without surrogates.
Block(n) == SelectSeq(IF n < 13 THEN [i \in 1..n |-> i - 1] ELSE [i \in 1..16384 |-> (n - 13) * 16384 + i - 1],
                      LAMBDA c : c \notin 55296..57343)
Without(s, x) == SelectSeq(s, LAMBDA c : c # x)
Options(n) == SelectSeq([i \in 1..n |-> 255 + i], LAMBDA c : c \notin 55296..57343)

\* The classes of Chars.tla are those of the character database.
ASSUME \A c \in KnownNonAscii :
          LET isin(R) == \E i \in 1..(Len(R) \div 2) : R[2 * i - 1] <= c /\ c <= R[2 * i] IN
          /\ isin(UpperR) => c \in NAUpper /\ c \notin NALower
          /\ isin(LowerR) => c \in NALower /\ c \notin NAUpper
          /\ isin(LetterR) => c \in NAOtherL /\ c \notin NAUpper \cup NALower
          /\ isin(NumberR) => c \in NANum /\ c \notin NAAlpha
          /\ isin(PlainR) => c \in NAOther

\* Numbered pairs, of which later ones have keys of earlier ones.
KeyOf(i, n) == (7 * i) % (n \div 2 + 1)
DecText(k) == LET d == DecDigits(k) IN [i \in 1..Len(d) |-> d[i] + 48]
C_eq == 61

\* The text of family f at size n.
SrcOf(f, n) ==
    CASE f \in {"chars", "mapchars"}  -> Rep(<<C_x>>, n)
      [] f = "rounds"      -> Rep(<<C_a, C_b>>, n)
      [] f = "string"      -> Rep(<<C_e, C_smile, NL>>, n)
      [] f = "sep"         -> Rep(<<C_7, C_comma>>, n) \o <<C_7>>
      [] f = "sepopen"     -> Rep(<<C_7, C_comma>>, n)
      [] f = "lines"       -> Rep(<<C_7, NL>>, n)
      [] f = "linesopen"   -> Rep(<<C_7, NL>>, n) \o <<C_7>>
      [] f = "linesbad"    -> Rep(<<C_7, NL>>, n) \o <<C_e, C_x, NL>>
      [] f = "column"      -> Rep(<<C_e>>, n) \o <<C_7, NL>>
      [] f = "sections"    -> Rep(<<C_7, NL, C_7, NL, NL>>, n) \o <<C_7, NL>>
      [] f = "sectionsbad" -> Rep(<<C_7, NL, C_7, NL, NL>>, n) \o <<C_7, NL, C_x, NL>>
      [] f = "sectionlong" -> Rep(<<C_7, NL>>, n)
      [] f = "closures"    -> Rep(<<C_a, C_b>>, n)
      [] f = "needle"      -> Rep(<<C_a>>, n) \o <<C_bang>>
      [] f = "search"      -> Rep(<<C_a>>, n)
      [] f = "giveback"    -> <<C_bang>> \o Rep(<<C_x>>, n)
      [] f = "nothing"     -> Rep(<<C_x>>, n)
      [] f = "bignum"      -> Rep(<<C_7>>, n)
      [] f = "overflow"    -> Rep(<<C_7>>, n) \o Rep(<<C_e>>, n)
      [] f = "literal"     -> Rep(<<C_x, C_e>>, n)
      [] f = "literalbad"  -> <<C_smile>> \o Rep(<<C_x, C_e>>, n - 1) \o <<C_x, C_x>>
      [] f = "set"         -> Rep(<<C_b, C_a>>, n)
      [] f = "deque"       -> Rep(<<C_b, C_a>>, n)
      [] f = "rules"       -> Rep(<<C_a>>, n) \o <<C_b>>
      [] f = "deep"        -> Rep(<<C_a>>, n) \o <<C_x>> \o Rep(<<C_b>>, n)
      [] f = "deepopen"    -> Rep(<<C_a>>, n) \o <<C_x>> \o Rep(<<C_b>>, n - 1)
      [] f = "twosets"     -> Rep(<<C_a, C_b>>, n) \o <<C_x>>
      [] f = "ruledlines"  -> Rep(<<C_a, C_b, NL, C_x, NL, NL>>, n)
      [] f = "ruledbad"    -> Rep(<<C_a, C_b, NL, C_x, NL, NL>>, n) \o <<C_a, C_e, NL>>
      [] f = "users"       -> Rep(<<C_x>>, 2 * n)
      [] f = "arms"        -> Rep(<<C_x>>, n)
      [] f = "prefix"      -> <<C_e>> \o Rep(<<C_x>>, n) \o <<C_7>>
      [] f \in {"hashmap", "treemap"} ->
            FoldLeft(LAMBDA acc, i : acc \o DecText(KeyOf(i, n)) \o <<C_eq>> \o DecText(i) \o <<C_comma>>,
                     <<>>, [i \in 1..n |-> i])
      [] f = "in_alpha"    -> Part(InAlpha, n)
      [] f = "in_alnum"    -> Part(InAlnum, n)
      [] f = "in_upper"    -> Part(Uppers, n)
      [] f = "in_lower"    -> Part(Lowers, n)
      [] f = "out_alpha"   -> Part(OutAlpha, n)
      [] f = "out_alnum"   -> Part(Plains, n)
      [] f = "out_upper"   -> Part(OutUpper, n)
      [] f = "out_lower"   -> Part(OutLower, n)
      [] f \in {"out_digits", "out_ints", "out_floats", "out_bool"} -> Part(Foreign, n)
      [] f = "charof"      -> LET o == Options(n) IN << o[Len(o)], o[1] >>
      [] f = "alltext"     -> Block(n)
      [] f = "allline"     -> Without(Block(n), NL) \o <<NL>>
      [] f = "allsection"  -> Without(Block(n), NL) \o <<NL, NL>>
      [] f = "allcol"      -> Without(Block(n), C_bang) \o <<C_bang, C_x>>

\* Its outcome: a match or the failure that is reported (node, reason).
Seven == V("n", <<0, 7>>, <<>>)
ItemOf(f, n) ==
    CASE f = "chars"       -> Match(n, << Cyc(<<CharV(C_x)>>, n) >>, <<>>)
      [] f = "rounds"      -> Match(2 * n, << Cyc(<<UnitV>>, n) >>, <<>>)
      [] f = "mapchars"    -> Match(n, << Cyc(<<MapV(1, <<CharV(C_x)>>)>>, n) >>, Cs(n, MapV(1, <<CharV(C_x)>>)))
      [] f = "string"      -> Match(3 * n, << StrV(SrcOf(f, n)) >>, <<>>)
      [] f = "sep"         -> Match(2 * n + 1, << Cyc(<<Seven>>, n + 1) >>, <<>>)
      [] f = "sepopen"     -> Fail(2 * n, "exp", 2)
      [] f = "lines"       -> Match(2 * n, << Cyc(<<Seven>>, n) >>, <<>>)
      [] f = "linesopen"   -> Match(2 * n + 1, << Cyc(<<Seven>>, n + 1) >>, <<>>)
      [] f = "linesbad"    -> Fail(2 * n, "exp", 3)
      [] f = "column"      -> Fail(n, "exp", 3)
      [] f = "sections"    -> Match(5 * n + 2, << VecV(Append(Cyc(<<Cyc(<<Seven, Seven>>, 1)>>, n).s, Cyc(<<Seven>>, 1))) >>, <<>>)
      [] f = "sectionsbad" -> Fail(5 * n + 2, "exp", 5)
      [] f = "sectionlong" -> Match(2 * n, << Cyc(<<Seven>>, n) >>, <<>>)
      [] f = "closures"    -> Match(2 * n, << Cyc(<<MapV(1, <<UnitV>>), MapV(2, <<UnitV>>)>>, n) >>,
                                    [i \in 1..(2 * n) |-> IF i % 2 = 1 THEN MapV(1, <<UnitV>>) ELSE MapV(2, <<UnitV>>)])
      [] f = "needle"      -> Match(n + 1, << StrV(SrcOf(f, n)) >>, <<>>)
      [] f = "search"      -> Fail(n, "exp", 3)
      [] f = "giveback"    -> Match(n + 1, << StrV(<<>>), StrV(Rep(<<C_x>>, n)) >>, <<>>)
      [] f = "nothing"     -> Fail(n, "exp", 3)
      [] f = "bignum"      -> Match(n, << V("n", <<0>> \o Cs(n, 7), <<>>) >>, <<>>)
      [] f = "overflow"    -> Fail(0, "fromstr", 2)
      [] f = "literal"     -> Match(2 * n, << >>, <<>>)
      [] f = "literalbad"  -> Fail(1, "exp", 3)
      [] f = "set"         -> Match(2 * n, << V("set", <<>>, <<CharV(C_a), CharV(C_b)>>) >>, <<>>)
      [] f = "deque"       -> Match(2 * n, << V("q", <<>>, Cyc(<<CharV(C_b), CharV(C_a)>>, n).s) >>, <<>>)
      [] f = "rules"       -> Match(n + 1, << VecV(Append(Cyc(<<MapV(1, <<UnitV>>)>>, n).s, MapV(2, <<UnitV>>))) >>,
                                    Append(Cs(n, MapV(1, <<UnitV>>)), MapV(2, <<UnitV>>)))
      [] f = "deep"        -> Match(2 * n + 1, << StrV(SrcOf(f, n)) >>, <<>>)
      [] f = "deepopen"    -> Fail(2 * n, "exp", 10)
      [] f = "twosets"     -> Match(2 * n + 1, << StrV(SrcOf(f, n)) >>, <<>>)
      [] f = "ruledlines"  -> LET one == MapV(2, <<UnitV>>)  ab == MapV(1, <<MapV(2, <<UnitV>>)>>) IN
                              Match(6 * n, << Cyc(<<VecV(<<ab, MapV(3, <<UnitV>>)>>)>>, n) >>,
                                    [i \in 1..(3 * n) |-> CASE i % 3 = 1 -> one [] i % 3 = 2 -> ab [] OTHER -> MapV(3, <<UnitV>>)])
      [] f = "ruledbad"    -> Fail(6 * n + 1, "exp", 8)
      [] f = "users"       -> Fail(2 * n, "exp", 3)
      [] f = "arms"        -> Match(n, << Cyc(<<MapV(3, <<UnitV>>)>>, n) >>, Cs(n, MapV(3, <<UnitV>>)))
      [] f = "prefix"      -> Fail(n + 1, "exp", 5)
      [] f \in {"in_alpha", "in_alnum", "in_upper", "in_lower", "out_alpha", "out_alnum", "out_upper", "out_lower",
                "out_digits", "out_ints", "out_floats", "out_bool", "alltext"}
                           -> LET s == SrcOf(f, n) IN Match(Len(s), << StrV(s) >>, <<>>)
      [] f \in {"hashmap", "treemap"} ->
            Match(Len(SrcOf(f, n)),
                  << CollectV(IF f = "hashmap" THEN "hash_map" ELSE "btree_map",
                              VecV([i \in 1..n |-> V("t", <<>>, << NatV(KeyOf(i, n)), NatV(i) >>)])) >>, <<>>)
      [] f = "charof"      -> Match(2, << NatV(Len(Options(n)) - 1), NatV(0) >>, <<>>)
      [] f \in {"allline", "allsection"}
                           -> LET s == Without(Block(n), NL) IN
                              Match(Len(s) + (IF f = "allline" THEN 1 ELSE 2), << StrV(s) >>, <<>>)
      [] f = "allcol"      -> Fail(Len(SrcOf(f, n)) - 1, "exp", 10)

VARIABLES t, verdict

Same(x, y) ==
    /\ x.m = y.m /\ x.e = y.e
    /\ IF x.m THEN x.r = y.r /\ SameBag(x.c, y.c) ELSE x.x = y.x

Init == t \in 1..Len(Cases) /\ verdict = {"todo"}
Judged(c) ==
    IF Effective(c) # SrcOf(c.fam, c.n) THEN {"text"}
    ELSE VerdictOn(c, c.g, Effective(c), ItemOf(c.fam, c.n))
Closed(c) ==
    IF c.src # SrcOf(c.fam, c.n) THEN {"text"}
    ELSE IF Same(Outcome([g |-> c.g, src |-> c.src]), ItemOf(c.fam, c.n)) THEN {} ELSE {"closed"}

Say(v) == IF v = {} THEN TRUE ELSE PrintT(<<"VERDICT", t, v>>)
Next     == verdict = {"todo"} /\ verdict' = Judged(Cases[t]) /\ Say(verdict') /\ UNCHANGED t
NextMC   == verdict = {"todo"} /\ verdict' = Closed(Cases[t]) /\ Say(verdict') /\ UNCHANGED t
Spec   == Init /\ [][Next]_<<t, verdict>>
SpecMC == Init /\ [][NextMC]_<<t, verdict>>

AsSpecified   == verdict \subseteq {"todo"}
ClosedIsRight == verdict \subseteq {"todo"}
=============================================================================
