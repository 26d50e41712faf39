--------------------------------- MODULE Grammar ---------------------------------
(***************************************************************************)
(* Which texts are patterns: the documented grammar of parser!, as an      *)
(* automaton over tokens.  TLC generates every sequence of tokens up to a  *)
(* length; the macro must compile those that are patterns and refuse those *)
(* that are not, rather than give them a meaning of its own.               *)
(*   "t"  exact text     "n"  a name     "g"  a group     "l"  a label     *)
(*   "*" "+" "?"  quantifiers            "c"  a conversion                 *)
(*   "R"  a rule definition   "U"  one without its semicolon               *)
(*   "{" an alternation of no arms                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS MaxLen, MaxRules

VARIABLES toks, st
\* st: "start"  nothing yet            "rules"  rule definitions only
\*     "label"  a label waits for its term
\*     "name", "term"  a term is complete (a name may not be followed by a
\*                     group: that would be a call)
\*     "rep"    after * or +, which no ? may follow (non-greedy repetition)
\*     "done"   after a conversion     "open"   in a rule never ended
\*     "bad"    not a pattern, whatever follows
vars == <<toks, st>>

Terms == {"t", "n", "g"}
Quants == {"*", "+", "?"}
Last == toks[Len(toks)]

After(s, x) ==
    CASE s = "bad" \/ x = "{" -> "bad"
      [] x = "R" -> IF s \in {"start", "rules"} THEN "rules" ELSE "bad"
      [] x = "U" -> "open"
      [] s = "open" -> "bad"
      [] x = "l" -> IF s = "label" THEN "bad" ELSE "label"
      [] x \in Terms -> IF x = "n" THEN "name" ELSE "term"
      [] x \in Quants -> IF s \in {"start", "rules", "label"} THEN "bad"
                         ELSE IF s = "rep" /\ x = "?" THEN "bad"
                         ELSE IF x = "?" THEN "term" ELSE "rep"
      [] x = "c" -> IF s = "label" THEN "bad" ELSE "done"

\* What the grammar leaves open is not generated: calls, conversions of
\* nothing, rules after the beginning of the final pattern.
Follows(s, x) ==
    /\ s # "done"
    /\ x = "g" => s # "name"
    /\ x = "c" => s \notin {"start", "rules"}
    /\ x \in {"R", "U"} => /\ s \in {"start", "rules", "open"}
                           /\ Len(toks) < MaxRules
    /\ x = "{" => s = "start"
    /\ s = "bad" => Last # "{" /\ x \in {"t", "c"}

Init == toks = <<>> /\ st = "start"
Next == \E x \in Terms \cup Quants \cup {"l", "c", "R", "U", "{"} :
          /\ Len(toks) < MaxLen
          /\ Follows(st, x)
          /\ toks' = Append(toks, x)
          /\ st' = After(st, x)
Spec == Init /\ [][Next]_vars

\* Rule sets need a final pattern; a label needs its term.
IsPattern == st \in {"name", "term", "rep", "done"}
Emit == toks = <<>> \/ PrintT(<<"FORM", toks, IF IsPattern THEN "good" ELSE "bad">>)

\* The automaton agrees with the grammar read as a whole.
Good(q) == /\ \A i \in 1..Len(q) :
                /\ q[i] \in Quants => /\ i > 1
                                      /\ q[i - 1] \in Terms \cup Quants
                                      /\ q[i] = "?" => q[i - 1] \notin {"*", "+"}
                /\ q[i] = "l" => i < Len(q) /\ q[i + 1] \in Terms
                /\ q[i] = "c" => i = Len(q) /\ i > 1 /\ q[i - 1] \in Terms \cup Quants
                /\ q[i] = "R" => \A j \in 1..i : q[j] = "R"
                /\ q[i] \notin {"U", "{"}
           /\ \E i \in 1..Len(q) : q[i] \in Terms
AgreesWithGrammar == toks = <<>> \/ (IsPattern <=> Good(toks))
=============================================================================
