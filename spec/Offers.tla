--------------------------------- MODULE Offers ---------------------------------
(***************************************************************************)
(* Judges recordings of user code that drives a pattern itself: it calls   *)
(* parse_iter at position st, looks at every match offered (match_end,     *)
(* convert), calls backtrack until there are no more, and then takes the   *)
(* error from the context.  A recording res has                            *)
(*    ms      the matches: end (byte offset), value, closure calls         *)
(*    more    it stopped looking after the last of ms                      *)
(*    stable  asking twice, converting twice or not at all, leaving an     *)
(*            iterator unfinished and stepping another one of the same     *)
(*            parser in between made no difference                         *)
(*    end     the error in the context afterwards, or "none"               *)
(*    mid     the same after the k-th match only                           *)
(***************************************************************************)
EXTENDS Judge, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES t, verdict

Failures(items) == SelectSeq(items, LAMBDA i : ~i.m)
ErrorIs(err, items, s) ==
    LET x == Foremost(Failures(items)) IN
    x.e = -1 \/ (err.kind = "err" /\ err.loc = ByteOff(s, x.e) /\ err.srcok)

\* Everything before the k-th match (there are that many).
Before(items, k) ==
    FoldLeft(LAMBDA acc, x : IF acc.n >= k THEN acc
                             ELSE IF x.m /\ acc.n = k - 1 THEN [acc EXCEPT !.n = k]
                             ELSE [n |-> acc.n + (IF x.m THEN 1 ELSE 0), is |-> Append(acc.is, x)],
             [n |-> 0, is |-> <<>>], items).is

OfferVerdict(c) ==
    IF c.res.kind # "all" THEN {"returns"}
    ELSE
    LET s == c.src
        items == Explore([g |-> c.g, src |-> s], 1, 0, Len(s), c.st)
        ms == SelectSeq(items, LAMBDA i : i.m)
        rs == c.res.ms
        n == IF Len(rs) < Len(ms) THEN Len(rs) ELSE Len(ms)
    IN  (IF Len(rs) = Len(ms) \/ (c.res.more /\ Len(rs) < Len(ms)) THEN {} ELSE {"offers"})
        \cup (IF \A i \in 1..n : rs[i].e = ByteOff(s, ms[i].e) THEN {} ELSE {"offers"})
        \cup (IF \A i \in 1..n : rs[i].v = User(ms[i].r) THEN {} ELSE {"value"})
        \cup (IF \A i \in 1..n : SameBag(rs[i].calls, ms[i].c) THEN {} ELSE {"calls"})
        \cup (IF c.res.stable THEN {} ELSE {"stable"})
        \cup (IF c.res.more \/ ErrorIs(c.res.end, items, s) THEN {} ELSE {"loc"})
        \cup (IF c.res.k = 0 \/ c.res.k > Len(ms) \/ ErrorIs(c.res.mid, Before(items, c.res.k), s) THEN {} ELSE {"loc"})

Init == t \in 1..Len(Cases) /\ verdict = {"todo"}
Next == /\ verdict = {"todo"}
        /\ verdict' = OfferVerdict(Cases[t])
        /\ IF verdict' = {} THEN TRUE ELSE PrintT(<<"VERDICT", t, verdict'>>)
        /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, verdict>>
Conforms == verdict \in {{}, {"todo"}}
=============================================================================
