-------------------------------- MODULE Machine --------------------------------
(***************************************************************************)
(* The parsing machine: the library's algorithm as a transition system.    *)
(*                                                                         *)
(* Each pattern node has two operations, as in the code:                   *)
(*    parse_iter (frame "pi"): look for the first match at a position and  *)
(*                             return an iterator, or fail;                *)
(*    backtrack  (frame "bt"): move an iterator to its next match, or fail *)
(* The machine runs them on an explicit control stack.  One action is one  *)
(* call, return or decision in the code.  Iterators are explicit values:   *)
(*    [d |-> node, st, e |-> start and end (relative to the slice),        *)
(*     ks |-> child iterators, ss |-> separator iterators, w |-> extra]    *)
(* where w is the index of a leaf's match, 0/1 for the side of an either,  *)
(* or the start of the slice a string() was started in.                    *)
(*                                                                         *)
(* ctxs is the stack of parse contexts: the whole input at the bottom and  *)
(* one per enclosing line or section.  Positions within a context are      *)
(* relative to its slice; they are translated when a failed slice hands    *)
(* its foremost error to the context around it.  The rule registrations    *)
(* travel with the innermost context.                                      *)
(*                                                                         *)
(* Only after the iterator of the whole pattern has reached the end of the *)
(* input is it converted (action Convert).                                 *)
(***************************************************************************)
EXTENDS Explore

VARIABLES job,    \* [g |-> grammar, src |-> text]; constant during a behaviour
          stk,    \* control stack, top last
          ret,    \* result of the last finished call: <<>>, <<"err">> or <<"ok", iterator>>
          ctxs,   \* context stack, innermost last
          phase,  \* "run", "conv", "ok", "err", "panic"
          out,    \* final outcome: an item of Explore
          far     \* ghost: furthest absolute position ever reported

vars == << job, stk, ret, ctxs, phase, out, far >>

g   == job.g
src == job.src

NoErr == [l |-> -1, x |-> NoReason]
Ctx(lo, hi, rules) == [lo |-> lo, hi |-> hi, err |-> NoErr, rules |-> rules]

Top == stk[Len(stk)]
Cx  == ctxs[Len(ctxs)]
PopStk == SubSeq(stk, 1, Len(stk) - 1)

Frame(f, d, st) == [f |-> f, d |-> d, st |-> st, its |-> <<>>, ss |-> <<>>]
FrameI(f, d, st, its, ss) == [f |-> f, d |-> d, st |-> st, its |-> its, ss |-> ss]
Iter(d, st, e, ks, ss, w) == [d |-> d, st |-> st, e |-> e, ks |-> ks, ss |-> ss, w |-> w]

\* report(): keep the error only if it lies strictly further.
Report(cs, l, x) ==
    LET i == Len(cs) IN
    IF l > cs[i].err.l THEN [cs EXCEPT ![i].err = [l |-> l, x |-> x]] ELSE cs
Further(l) == IF Cx.lo + l > far THEN Cx.lo + l ELSE far

Push(base, frames) == base \o frames
PiF(d, st) == Frame("pi", d, st)
BtF(it)    == FrameI("bt", it.d, it.st, <<it>>, <<>>)

\* Common shapes of steps.
Goto(s)   == stk' = s /\ ret' = <<>>
Return(it) == stk' = PopStk /\ ret' = <<"ok", it>>
Failed    == stk' = PopStk /\ ret' = <<"err">>
Running   == phase = "run" /\ UNCHANGED << job, phase, out >>
NoReport  == UNCHANGED << ctxs, far >>
ReportAt(l, x) == ctxs' = Report(ctxs, l, x) /\ far' = Further(l)

Fresh(f)   == phase = "run" /\ ret = <<>> /\ stk # <<>> /\ Top.f = f
Back(f)    == phase = "run" /\ ret # <<>> /\ stk # <<>> /\ Top.f = f
RetOk      == ret[1] = "ok"
RetIt      == ret[2]
N          == NodeAt(g, Top.d)

-----------------------------------------------------------------------------
(* Leaves.                                                                 *)
StartLeaf ==
    /\ Fresh("pi") /\ N.op \in LeafOps \ {"says"} /\ Running
    /\ LET ms == LeafMatches(N, src, Cx.hi, Cx.lo + Top.st) IN
       IF ms # <<>>
       THEN /\ Return(Iter(Top.d, Top.st, ms[1].e - Cx.lo, <<>>, <<>>, 1))
            /\ NoReport
       ELSE LET f == LeafFail(N, Top.d, src, Cx.hi, Cx.lo + Top.st) IN
            Failed /\ ReportAt(f.e - Cx.lo, f.x)

NextLeaf ==
    /\ Fresh("bt") /\ N.op \in LeafOps \ {"says"} /\ Running
    /\ LET it == Top.its[1]
           ms == LeafMatches(N, src, Cx.hi, Cx.lo + it.st) IN
       IF it.w < Len(ms)
       THEN Return([it EXCEPT !.w = @ + 1, !.e = ms[it.w + 1].e - Cx.lo])
       ELSE Failed
    /\ NoReport

\* A user's leaf that reports failures of its own, up to its next match.
SayOn(st, w) ==        \* w: number of matches offered so far
    LET is == Saying(N, Top.d, Cx.lo, Cx.hi, Cx.lo + st)
        hits == SelectSeq([i \in 1..Len(is) |-> i], LAMBDA i : is[i].m)
        from == IF w = 0 THEN 1 ELSE hits[w] + 1
        to == IF w < Len(hits) THEN hits[w + 1] - 1 ELSE Len(is)
        said == SubSeq(is, from, to) IN
    /\ ctxs' = FoldLeft(LAMBDA cs, f : Report(cs, f.e - Cx.lo, f.x), ctxs, said)
    /\ far' = FoldLeft(LAMBDA m, f : IF f.e > m THEN f.e ELSE m, far, said)
    /\ IF w < Len(hits)
       THEN Return(Iter(Top.d, st, is[hits[w + 1]].e - Cx.lo, <<>>, <<>>, w + 1))
       ELSE Failed
StartSaying == Fresh("pi") /\ N.op = "says" /\ Running /\ SayOn(Top.st, 0)
NextSaying  == Fresh("bt") /\ N.op = "says" /\ Running /\ SayOn(Top.its[1].st, Top.its[1].w)

-----------------------------------------------------------------------------
(* Concatenation.                                                          *)
IsSeq == N.op \in {"seq", "pair"}
StartSeq ==       \* head.parse_iter
    /\ Fresh("pi") /\ IsSeq /\ Running /\ NoReport
    /\ Goto(PopStk \o << Frame("seqH", Top.d, Top.st), PiF(N.k[1], Top.st) >>)
SeqHead ==        \* head has a match (first or next): try the tail there
    /\ Back("seqH") /\ Running /\ NoReport
    /\ IF RetOk
       THEN Goto(PopStk \o << FrameI("seqT", Top.d, Top.st, <<RetIt>>, <<>>), PiF(N.k[2], RetIt.e) >>)
       ELSE Failed
SeqTail ==        \* tail started or moved on: done, or next match of head
    /\ Back("seqT") /\ Running /\ NoReport
    /\ IF RetOk
       THEN Return(Iter(Top.d, Top.st, RetIt.e, << Top.its[1], RetIt >>, <<>>, 0))
       ELSE Goto(PopStk \o << Frame("seqH", Top.d, Top.st), BtF(Top.its[1]) >>)
NextSeq ==        \* exhaust the tail first
    /\ Fresh("bt") /\ IsSeq /\ Running /\ NoReport
    /\ LET it == Top.its[1] IN
       Goto(PopStk \o << FrameI("seqT", Top.d, Top.st, << it.ks[1] >>, <<>>), BtF(it.ks[2]) >>)

-----------------------------------------------------------------------------
(* Alternation and option: an either; for ?, the right side is node 0.     *)
IsAlt == N.op \in {"alt", "opt"}
RightOf(n) == IF n.op = "opt" THEN 0 ELSE n.k[2]
StartAlt ==
    /\ Fresh("pi") /\ IsAlt /\ Running /\ NoReport
    /\ Goto(PopStk \o << Frame("altL", Top.d, Top.st), PiF(N.k[1], Top.st) >>)
AltLeft ==        \* left has another match, or the right side takes over
    /\ Back("altL") /\ Running /\ NoReport
    /\ IF RetOk THEN Return(Iter(Top.d, Top.st, RetIt.e, <<RetIt>>, <<>>, 0))
       ELSE Goto(PopStk \o << Frame("altR", Top.d, Top.st), PiF(RightOf(N), Top.st) >>)
AltRight ==
    /\ Back("altR") /\ Running /\ NoReport
    /\ IF RetOk THEN Return(Iter(Top.d, Top.st, RetIt.e, <<RetIt>>, <<>>, 1)) ELSE Failed
NextAlt ==
    /\ Fresh("bt") /\ IsAlt /\ Running /\ NoReport
    /\ LET it == Top.its[1] IN
       Goto(PopStk \o << Frame(IF it.w = 0 THEN "altL" ELSE "altR", Top.d, Top.st), BtF(it.ks[1]) >>)

-----------------------------------------------------------------------------
(* Repetition.  A frame holds the stacks of pattern iterators (its) and    *)
(* separator iterators (ss); they alternate, pattern first.                *)
IsRep == N.op \in RepOps
PatternNext(its, ss) == Len(its) = Len(ss)
RepEnd(st, its, ss) == IF its = <<>> THEN st
                       ELSE IF PatternNext(its, ss) THEN ss[Len(ss)].e ELSE its[Len(its)].e
\* The last item and separator together matched no text.
EmptyRound(st, ss) ==
    CASE Len(ss) = 0 -> FALSE
      [] Len(ss) = 1 -> ss[1].e = st
      [] OTHER -> ss[Len(ss)].e = ss[Len(ss) - 1].e
RepYields(n, its, ss) == (its = <<>> \/ ~PatternNext(its, ss)) /\ Len(its) >= RepMinOf(n)

StartRep ==
    /\ Fresh("pi") /\ IsRep /\ Running /\ NoReport
    /\ Goto(PopStk \o << Frame("repAdv", Top.d, Top.st) >>)
RepAdvance ==     \* Mode::Advance: start the next item or separator
    /\ Fresh("repAdv") /\ Running /\ NoReport
    /\ LET its == Top.its  ss == Top.ss IN
       IF PatternNext(its, ss) /\ EmptyRound(Top.st, ss)
       THEN Goto(PopStk \o << [Top EXCEPT !.f = "repYield"] >>)
       ELSE Goto(PopStk \o << [Top EXCEPT !.f = "repWait"],
                    PiF(IF PatternNext(its, ss) THEN N.k[1] ELSE RepSepOf(N),
                        RepEnd(Top.st, its, ss)) >>)
RepStarted ==     \* it started: go on; it failed: what we have may be a match
    /\ Back("repWait") /\ Running /\ NoReport
    /\ IF ~RetOk THEN Goto(PopStk \o << [Top EXCEPT !.f = "repYield"] >>)
       ELSE Goto(PopStk \o << IF PatternNext(Top.its, Top.ss)
                              THEN [Top EXCEPT !.f = "repAdv", !.its = Append(@, RetIt)]
                              ELSE [Top EXCEPT !.f = "repAdv", !.ss = Append(@, RetIt)] >>)
RepYield ==       \* Mode::YieldThenBacktrack
    /\ Fresh("repYield") /\ Running /\ NoReport
    /\ IF RepYields(N, Top.its, Top.ss)
       THEN Return(Iter(Top.d, Top.st, RepEnd(Top.st, Top.its, Top.ss), Top.its, Top.ss, 0))
       ELSE Goto(PopStk \o << [Top EXCEPT !.f = "repBack"] >>)
RepBack ==        \* Mode::BacktrackTopIter
    /\ Fresh("repBack") /\ Running /\ NoReport
    /\ LET its == Top.its  ss == Top.ss IN
       IF its = <<>> THEN Failed
       ELSE IF PatternNext(its, ss)
       THEN Goto(PopStk \o << [Top EXCEPT !.f = "repTop", !.ss = SubSeq(ss, 1, Len(ss) - 1)],
                              BtF(ss[Len(ss)]) >>)
       ELSE Goto(PopStk \o << [Top EXCEPT !.f = "repTop", !.its = SubSeq(its, 1, Len(its) - 1)],
                              BtF(its[Len(its)]) >>)
RepTop ==         \* the top iterator moved (advance again) or is exhausted (pop it)
    /\ Back("repTop") /\ Running /\ NoReport
    /\ IF ~RetOk THEN Goto(PopStk \o << [Top EXCEPT !.f = "repYield"] >>)
       ELSE Goto(PopStk \o << IF PatternNext(Top.its, Top.ss)
                              THEN [Top EXCEPT !.f = "repAdv", !.its = Append(@, RetIt)]
                              ELSE [Top EXCEPT !.f = "repAdv", !.ss = Append(@, RetIt)] >>)
NextRep ==
    /\ Fresh("bt") /\ IsRep /\ Running /\ NoReport
    /\ LET it == Top.its[1] IN
       Goto(PopStk \o << FrameI("repBack", Top.d, Top.st, it.ks, it.ss) >>)

-----------------------------------------------------------------------------
(* One-child nodes that add nothing to the search: group, map, string,     *)
(* collections, rule references; and the entry of a rule set, which first  *)
(* registers its rules in the current context.                             *)
Registered(n) == n.a[1] \in Cx.rules
StartWrap ==
    /\ Fresh("pi") /\ N.op \in WrapOps /\ (N.op = "ref" => Registered(N))
    /\ Running /\ NoReport
    /\ Goto(PopStk \o << Frame("wrap", Top.d, Top.st), PiF(N.k[1], Top.st) >>)
StartRuleSet ==
    /\ Fresh("pi") /\ N.op = "rs" /\ Running /\ UNCHANGED far
    /\ ctxs' = [ctxs EXCEPT ![Len(ctxs)].rules = @ \cup {N.a[1]}]
    /\ Goto(PopStk \o << Frame("wrap", Top.d, Top.st), PiF(N.k[1], Top.st) >>)
UnknownRule ==    \* "internal error: rule set not registered"
    /\ Fresh("pi") /\ N.op = "ref" /\ ~Registered(N)
    /\ phase' = "panic" /\ UNCHANGED << job, stk, ret, ctxs, out, far >>
WrapBack ==
    /\ Back("wrap") /\ Running /\ NoReport
    /\ IF RetOk THEN Return(Iter(Top.d, Top.st, RetIt.e, <<RetIt>>, <<>>, Cx.lo)) ELSE Failed
NextWrap ==
    /\ Fresh("bt") /\ N.op \in WrapOps \cup {"rs"} /\ Running /\ NoReport
    /\ Goto(PopStk \o << Frame("wrap", Top.d, Top.st), BtF(Top.its[1].ks[1]) >>)

-----------------------------------------------------------------------------
(* Regions.                                                                *)
IsReg == N.op \in {"line", "section"}
RegionRefuses ==  \* not at a start, or nothing left
    /\ Fresh("pi") /\ IsReg /\ Running
    /\ LET at == Cx.lo + Top.st IN
       /\ (AtStart(N.op, src, Cx.lo, at) => at = Cx.hi)
       /\ Failed
       /\ IF ~AtStart(N.op, src, Cx.lo, at) THEN ReportAt(Top.st, <<BadStart(N.op), Top.d>>)
          ELSE ReportAt(Cx.hi - Cx.lo, <<NoRegion(N.op), Top.d>>)
RegionEnter ==    \* with_slice: new context, rules move in
    /\ Fresh("pi") /\ IsReg /\ Running /\ UNCHANGED far
    /\ LET at == Cx.lo + Top.st IN
       /\ AtStart(N.op, src, Cx.lo, at) /\ at < Cx.hi
       /\ LET re == RegionEnd(N.op, src, at, Cx.hi) IN
          /\ ctxs' = Append([ctxs EXCEPT ![Len(ctxs)].rules = {}], Ctx(at, re[1], Cx.rules))
          /\ Goto(PopStk \o << Frame("reg", Top.d, Top.st), PiF(N.k[1], 0) >>)
\* Leaving a slice: rules move out; a failure is reported outside, translated.
LeaveOk  == LET o == Len(ctxs) - 1 IN [SubSeq(ctxs, 1, o) EXCEPT ![o].rules = Cx.rules]
LeaveErr == LET o == Len(ctxs) - 1
            IN  Report(LeaveOk, Cx.err.l + (Cx.lo - ctxs[o].lo), Cx.err.x)
RegionPartial ==  \* a match, but not of the whole region
    /\ Back("reg") /\ RetOk /\ RetIt.e # Cx.hi - Cx.lo /\ Running
    /\ ReportAt(RetIt.e, <<Partial(N.op), Top.d>>)
    /\ Goto(Append(stk, BtF(RetIt)))
RegionOk ==
    /\ Back("reg") /\ RetOk /\ RetIt.e = Cx.hi - Cx.lo /\ Running /\ UNCHANGED far
    /\ LET outer == ctxs[Len(ctxs) - 1]
           re == RegionEnd(N.op, src, Cx.lo, outer.hi) IN
       Return(Iter(Top.d, Top.st, re[2] - outer.lo, <<RetIt>>, <<>>, 0))
    /\ ctxs' = LeaveOk
RegionFails ==
    /\ Back("reg") /\ ~RetOk /\ Running /\ UNCHANGED far
    /\ IF Cx.err.l = -1       \* "a parse error should have been reported"
       THEN FALSE ELSE ctxs' = LeaveErr /\ Failed
NextRegion ==     \* a region has one match only
    /\ Fresh("bt") /\ IsReg /\ Running /\ NoReport /\ Failed

-----------------------------------------------------------------------------
(* User-written parsers around another one.                                *)
StartProbe ==
    /\ Fresh("pi") /\ N.op = "probe" /\ Running /\ NoReport
    /\ Goto(PopStk \o << Frame("prb", Top.d, Top.st), PiF(N.k[1], Top.st) >>)
ProbeSees ==      \* what there is to see of p
    /\ Back("prb") /\ Running
    /\ IF N.s = "not"
       THEN IF RetOk THEN Failed /\ ReportAt(Top.st, <<"exp", Top.d>>)
            ELSE Return(Iter(Top.d, Top.st, Top.st, <<>>, <<>>, 0)) /\ NoReport
       ELSE /\ NoReport
            /\ IF RetOk
               THEN Return(Iter(Top.d, Top.st, IF N.s = "ahead" THEN Top.st ELSE RetIt.e,
                                <<RetIt>>, <<>>, 0))
               ELSE Failed
NextProbe ==
    /\ Fresh("bt") /\ N.op = "probe" /\ Running /\ NoReport
    /\ IF N.s = "odd"
       THEN Goto(PopStk \o << Frame("prbSkip", Top.d, Top.st), BtF(Top.its[1].ks[1]) >>)
       ELSE Failed
ProbeSkips ==     \* leave out every other match
    /\ Back("prbSkip") /\ Running /\ NoReport
    /\ IF RetOk THEN Goto(PopStk \o << Frame("prb", Top.d, Top.st), BtF(RetIt) >>) ELSE Failed

-----------------------------------------------------------------------------
(* parse_raw.                                                              *)
TopPartial ==
    /\ phase = "run" /\ stk = <<>> /\ ret # <<>> /\ RetOk /\ RetIt.e # Len(src) /\ Running
    /\ ReportAt(RetIt.e, <<"extra", 1>>)
    /\ Goto(<< BtF(RetIt) >>)
Accept ==
    /\ phase = "run" /\ stk = <<>> /\ ret # <<>> /\ RetOk /\ RetIt.e = Len(src)
    /\ phase' = "conv" /\ UNCHANGED << job, stk, ret, ctxs, out, far >>
Reject ==
    /\ phase = "run" /\ stk = <<>> /\ ret # <<>> /\ ~RetOk
    /\ phase' = IF Cx.err.l = -1 THEN "panic" ELSE "err"
    /\ out' = [m |-> FALSE, e |-> Cx.err.l, r |-> <<>>, c |-> <<>>, x |-> Cx.err.x]
    /\ UNCHANGED << job, stk, ret, ctxs, far >>

(* convert(): walk the accepted iterator tree.  [r |-> raw output, c |->   *)
(* closure calls in order].                                                *)
\* Leaves need the slice they were matched in; lo, hi are carried down.
RECURSIVE ConvAt(_, _, _, _)
ConvAt(j, it, lo, hi) ==
    LET n == NodeAt(j.g, it.d)
        kid(i) == ConvAt(j, it.ks[i], lo, hi) IN
    CASE n.op \in LeafOps ->
            [r |-> LeafMatches(n, j.src, hi, lo + it.st)[it.w].r, c |-> <<>>]
      [] n.op \in {"seq", "pair"} ->
            LET a == kid(1)  b == kid(2) IN
            [r |-> IF n.op = "seq" THEN a.r \o b.r ELSE <<User(a.r), User(b.r)>>,
             c |-> a.c \o b.c]
      [] n.op = "alt" -> LET a == kid(1) IN [a EXCEPT !.r = <<User(@)>>]
      [] n.op = "opt" -> IF it.w = 1 THEN [r |-> <<NoneV>>, c |-> <<>>]
                         ELSE LET a == kid(1) IN [a EXCEPT !.r = <<SomeV(User(@))>>]
      [] n.op \in RepOps ->
            LET as == [i \in 1..Len(it.ks) |-> kid(i)] IN
            [r |-> << VecV([i \in 1..Len(as) |-> User(as[i].r)]) >>,
             c |-> FoldLeft(LAMBDA acc, a : acc \o a.c, <<>>, as)]
      [] n.op = "string" ->
            [r |-> << StrV(Text(j.src, it.w + it.st, it.w + it.e)) >>, c |-> <<>>]
      [] n.op \in WrapOps ->
            LET a == kid(1) IN [r |-> WrapRaw(n, a.r, <<>>), c |-> WrapCalls(n, a.r, a.c)]
      [] n.op = "probe" /\ n.s = "not" -> [r |-> <<UnitV>>, c |-> <<>>]
      [] n.op \in {"rs", "probe"} -> LET a == kid(1) IN [a EXCEPT !.r = <<User(@)>>]
      [] n.op \in {"line", "section"} ->
            LET a == ConvAt(j, it.ks[1], lo + it.st, RegionEnd(n.op, j.src, lo + it.st, hi)[1])
            IN  [a EXCEPT !.r = <<User(@)>>]

Convert ==
    /\ phase = "conv"
    /\ LET v == ConvAt(job, RetIt, 0, Len(src))
       IN  out' = [m |-> TRUE, e |-> Len(src), r |-> v.r, c |-> v.c, x |-> NoReason]
    /\ phase' = "ok"
    /\ UNCHANGED << job, stk, ret, ctxs, far >>

-----------------------------------------------------------------------------
InitAt(j, st) ==
    /\ job = j /\ stk = << PiF(1, st) >> /\ ret = <<>>
    /\ ctxs = << Ctx(0, Len(j.src), {}) >>
    /\ phase = "run" /\ far = -1
    /\ out = [m |-> FALSE, e |-> -1, r |-> <<>>, c |-> <<>>, x |-> NoReason]
InitWith(j) == InitAt(j, 0)

\* Steps inside parse_iter and backtrack, whoever called them.
Inner == \/ StartLeaf \/ NextLeaf \/ StartSaying \/ NextSaying
         \/ StartSeq \/ SeqHead \/ SeqTail \/ NextSeq
         \/ StartAlt \/ AltLeft \/ AltRight \/ NextAlt
         \/ StartRep \/ RepAdvance \/ RepStarted \/ RepYield \/ RepBack \/ RepTop \/ NextRep
         \/ StartWrap \/ StartRuleSet \/ UnknownRule \/ WrapBack \/ NextWrap
         \/ RegionRefuses \/ RegionEnter \/ RegionPartial \/ RegionOk \/ RegionFails \/ NextRegion
         \/ StartProbe \/ ProbeSees \/ NextProbe \/ ProbeSkips
Next == Inner \/ TopPartial \/ Accept \/ Reject \/ Convert

Terminal == phase \in {"ok", "err", "panic"}

-----------------------------------------------------------------------------
(* Invariants.                                                             *)

\* The machine computes the declared meaning (P01-P04, P06-P09, P11, P15, P16):
\* result, error position and reason, closure calls.
Meaning == Terminal => out = Outcome(job)

\* P05: it never gets stuck, and never panics for want of a reported error
\* or a registered rule set.
NeverStuck == Terminal \/ ENABLED Next
NoPanic    == phase # "panic"

\* P09: the reported position is the furthest one any failure was seen at,
\* although errors inside regions that did match are forgotten.
Foremost1  == phase = "err" => out.e = far

\* P08: nothing is converted before the whole input is matched.
ConvertLast == phase \in {"run", "err"} => out.r = <<>> /\ out.c = <<>>
AcceptedAll == phase \in {"conv", "ok"} => stk = <<>> /\ ret[1] = "ok" /\ ret[2].e = Len(src)

\* A context in which a failure is about to be returned has an error recorded,
\* or is still going to look at its left-over text.
ErrBeforeFail == (stk = <<>> /\ ret = <<"err">>) => Cx.err.l >= 0

\* Contexts nest, and the rule registrations are in the innermost one.
CtxShape == /\ Len(ctxs) >= 1 /\ ctxs[1].lo = 0 /\ ctxs[1].hi = Len(src)
            /\ \A i \in 2..Len(ctxs) :
                  /\ ctxs[i-1].lo <= ctxs[i].lo /\ ctxs[i].hi <= ctxs[i-1].hi
                  /\ ctxs[i-1].rules = {}
            /\ \A i \in 1..Len(ctxs) : ctxs[i].err.l <= ctxs[i].hi - ctxs[i].lo
\* Number of region frames under way = number of inner contexts.
CtxPerRegion == Cardinality({ i \in 1..Len(stk) : stk[i].f = "reg" }) = Len(ctxs) - 1

\* Iterators describe adjacent pieces of text.
RECURSIVE ItOK(_)
ItOK(it) ==
    LET n == NodeAt(g, it.d) IN
    /\ it.st <= it.e
    /\ CASE n.op \in LeafOps -> it.ks = <<>>
         [] n.op \in {"seq", "pair"} ->
               it.ks[1].st = it.st /\ it.ks[2].st = it.ks[1].e /\ it.e = it.ks[2].e
         [] n.op \in RepOps ->
               /\ Len(it.ks) - Len(it.ss) \in {0, 1}
               /\ \A i \in 1..Len(it.ks) :
                     it.ks[i].st = IF i = 1 THEN it.st ELSE it.ss[i-1].e
               /\ \A i \in 1..Len(it.ss) : it.ss[i].st = it.ks[i].e
         [] n.op \in {"line", "section"} -> it.ks[1].st = 0
         [] n.op = "probe" -> /\ (n.s = "not") = (it.ks = <<>>)
                              /\ it.ks # <<>> => it.ks[1].st = it.st
                              /\ it.e = IF n.s \in {"ahead", "not"} THEN it.st ELSE it.ks[1].e
         [] OTHER -> it.ks[1].st = it.st /\ it.e = it.ks[1].e
    /\ \A i \in 1..Len(it.ks) : ItOK(it.ks[i])
    /\ \A i \in 1..Len(it.ss) : ItOK(it.ss[i])
IteratorsOK == /\ ret # <<>> /\ ret[1] = "ok" => ItOK(ret[2])
               /\ \A i \in 1..Len(stk) : \A k \in 1..Len(stk[i].its) : ItOK(stk[i].its[k])
=============================================================================
