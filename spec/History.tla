--------------------------------- MODULE History ---------------------------------
(***************************************************************************)
(* Lives of parser objects: they are built, made part of larger parsers by *)
(* reference, moved, dropped, and applied to texts, on several threads, and *)
(* also while another parse is under way on the same thread: while it      *)
(* matches (from a user-written parser) or while it converts (from a       *)
(* closure).                                                               *)
(*                                                                         *)
(* A parser with rules owns rule sets, each identified by an address that  *)
(* is unique only while the parser is alive.  A parse looks rules up by    *)
(* address in its own context.  `Resolves` says that every rule name a     *)
(* parse can run into leads to the rule set it was defined in; hence       *)
(* (`Result`) what a parse computes is a function of definition and text.  *)
(*                                                                         *)
(* The operations, in order, are `hist`: what the test harness carries out *)
(* on the real library.                                                    *)
(***************************************************************************)
EXTENDS Objects, FiniteSets, Json, IOUtils

CONSTANTS Threads, Handles, Addrs, MaxDepth, MaxOps, MaxTexts, AnyAddr, Record, Used, Times, Script

\* Kinds of operations a history may consist of, in order; <<>>: any.
FreeScript == <<>>
ManyBuilds == <<"build", "churn", "build", "wrap", "begin", "conv", "end">>
ManyTurns == <<"build", "build", "spin", "begin", "conv", "end", "begin", "conv", "end">>
ManyParses == <<"build", "drill", "begin", "conv", "end", "build", "wrap", "begin", "conv", "end">>

\* [g |-> pattern, texts |-> texts], ...
Pool == ndJsonDeserialize(IOEnv.POOL)

VARIABLES objs, stacks, hist
vars == <<objs, stacks, hist>>
Bare == <<objs, stacks>>           \* view for model checking

Dead == [live |-> FALSE, def |-> <<>>, texts |-> <<>>, owner |-> 0, parts |-> {}, sets |-> {}]

Frames(t) == stacks[t]
AllFrames == UNION { { stacks[t][i] : i \in 1..Len(stacks[t]) } : t \in Threads }
Live(t) == { h \in Handles : objs[h].live /\ objs[h].owner = t }
FreeHandles == { h \in Handles : ~objs[h].live }
UsedAddrs == UNION { objs[h].sets : h \in { x \in Handles : objs[x].live } }

RECURSIVE Reach(_)
\* All objects a parse with h may use.
Reach(h) == {h} \cup UNION { Reach(p) : p \in objs[h].parts }
ReachSets(h) == UNION { objs[x].sets : x \in Reach(h) }

Borrowed(h) == \E x \in Handles : objs[x].live /\ h \in objs[x].parts
InUse(h) == \E f \in AllFrames : h \in Reach(f.h)

SetsIn(g) == Cardinality({ d \in 1..Len(g) : g[d].op = "rs" })
\* Addresses for n new rule sets: any that no live parser has.
Fresh(n) == LET free == Addrs \ UsedAddrs IN
            IF AnyAddr THEN { s \in SUBSET free : Cardinality(s) = n }
            ELSE { { a \in free : Cardinality({ b \in free : b < a }) < n } }

Note(op) == hist' = IF Record THEN Append(hist, op) ELSE hist
Op(o, t, h, x, y, s, src) == [o |-> o, t |-> t, h |-> h, x |-> x, y |-> y, s |-> s, src |-> src]
Smallest(S) == CHOOSE x \in S : \A y \in S : x <= y

Create(t, def, texts, parts, own) ==
    LET h == Smallest(FreeHandles) IN
    \E a \in Fresh(own) :
        objs' = [objs EXCEPT ![h] = [live |-> TRUE, def |-> def, texts |-> texts, owner |-> t, parts |-> parts, sets |-> a]]

Kind(k) == IF Script = <<>> THEN TRUE ELSE Len(hist) < Len(Script) /\ Script[Len(hist) + 1] = k

Build(t) ==
    /\ Kind("build")
    /\ FreeHandles # {}
    /\ \E p \in { q \in 1..Len(Pool) : t \in Threads } :
         /\ Create(t, Pool[p].g, Pool[p].texts, {}, SetsIn(Pool[p].g))
         /\ Note(Op("build", t, Smallest(FreeHandles), p, 0, "", <<>>))
    /\ UNCHANGED stacks

Wrap(t) ==
    /\ Kind("wrap")
    /\ FreeHandles # {}
    /\ \E sh \in Used, h1 \in Live(t), h2 \in Live(t) :
         /\ sh \in TwoPart \/ h1 = h2
         /\ Len(objs[h1].def) + Len(objs[h2].def) <= 40
         /\ Len(TextsAround(sh, objs[h1].texts, objs[h2].texts)) >= 2
         /\ Create(t, Around(sh, objs[h1].def, objs[h2].def), TextsAround(sh, objs[h1].texts, objs[h2].texts),
                   {h1, h2}, IF sh = "list" THEN 1 ELSE 0)
         /\ Note(Op("wrap", t, Smallest(FreeHandles), h1, h2, sh, <<>>))
    /\ UNCHANGED stacks

Move(t) ==
    /\ Kind("move")
    /\ \E h \in Live(t) : ~Borrowed(h) /\ ~InUse(h) /\ Note(Op("move", t, h, 0, 0, "", <<>>))
    /\ UNCHANGED <<objs, stacks>>

Drop(t) ==
    /\ Kind("drop")
    /\ \E h \in Live(t) :
         /\ ~Borrowed(h) /\ ~InUse(h)
         /\ objs' = [objs EXCEPT ![h] = Dead]
         /\ Note(Op("drop", t, h, 0, 0, "", <<>>))
    /\ UNCHANGED stacks

\* Many parsers are built and dropped, one after another; every address they
\* had may be given out again.
Churn(t) ==
    /\ Kind("churn")
    /\ \E p \in 1..Len(Pool) : \E k \in Times : Note(Op("churn", t, 0, p, k, "", <<>>))
    /\ UNCHANGED <<objs, stacks>>

\* A text is parsed many times over.
Drill(t) ==
    /\ Kind("drill")
    /\ \E h \in Live(t) : \E i \in { k \in 1..MaxTexts : k <= Len(objs[h].texts) } : \E k \in Times :
          Note(Op("drill", t, h, 0, k, "", objs[h].texts[i]))
    /\ UNCHANGED <<objs, stacks>>

\* Two parsers take turns at a text, many times over.
Spin(t) ==
    /\ Kind("spin")
    /\ \E h1, h2 \in Live(t) : \E i \in { k \in 1..MaxTexts : k <= Len(objs[h1].texts) } : \E k \in Times :
          h1 < h2 /\ Note(Op("spin", t, h1, h2, k, "", objs[h1].texts[i]))
    /\ UNCHANGED <<objs, stacks>>

Owner(a) == CHOOSE h \in Handles : objs[h].live /\ a \in objs[h].sets

Begin(t) ==
    /\ Kind("begin")
    /\ Len(stacks[t]) < MaxDepth
    /\ \E h \in Live(t) : \E i \in { k \in 1..MaxTexts : k <= Len(objs[h].texts) } : \E calls \in BOOLEAN :
         LET src == objs[h].texts[i]
         IN  /\ stacks' = [stacks EXCEPT ![t] = Append(@,
                   [h |-> h, src |-> src, ctx |-> [a \in ReachSets(h) |-> Owner(a)],
                    calls |-> calls, phase |-> "match"])]
             /\ Note(Op("begin", t, h, 0, 0, "", src))
    /\ UNCHANGED objs

Top(t) == stacks[t][Len(stacks[t])]
\* The first conversion closure of the innermost parse runs (if the parse
\* matches and has any: `calls` is what turns out later).
Convert(t) ==
    /\ Kind("conv")
    /\ stacks[t] # <<>> /\ Top(t).phase = "match" /\ Top(t).calls
    /\ stacks' = [stacks EXCEPT ![t][Len(stacks[t])].phase = "conv"]
    /\ Note(Op("conv", t, 0, 0, 0, "", <<>>))
    /\ UNCHANGED objs

\* The innermost parse returns.
End(t) ==
    /\ Kind("end")
    /\ stacks[t] # <<>> /\ (Top(t).phase = "conv" \/ ~Top(t).calls)
    /\ stacks' = [stacks EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
    /\ Note(Op("end", t, 0, 0, 0, "", <<>>))
    /\ UNCHANGED objs

Init == objs = [h \in Handles |-> Dead] /\ stacks = [t \in Threads |-> <<>>] /\ hist = <<>>
Act(t) == Build(t) \/ Wrap(t) \/ Move(t) \/ Drop(t) \/ Begin(t) \/ Begin(t) \/ Convert(t) \/ End(t)
          \/ Churn(t) \/ Drill(t) \/ Spin(t)
\* Only for generating histories: one that is long enough is complete.
Stop == Len(hist) = MaxOps /\ Note(Op("stop", 0, 0, 0, 0, "", <<>>)) /\ UNCHANGED <<objs, stacks>>
Next == \/ Len(hist) < MaxOps /\ \E t \in Threads : Act(t)
        \/ Stop
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Distinct == \A x, y \in Handles : x # y /\ objs[x].live /\ objs[y].live => objs[x].sets \cap objs[y].sets = {}
\* Whatever is used is alive.
Alive == /\ \A h \in Handles : objs[h].live => \A p \in objs[h].parts : objs[p].live
         /\ \A f \in AllFrames : \A x \in Reach(f.h) : objs[x].live
\* Rule names lead to their own rule set, in every parse under way.
Resolves == \A f \in AllFrames : \A x \in Reach(f.h) : \A a \in objs[x].sets :
               a \in DOMAIN f.ctx /\ f.ctx[a] = x
\* A thread's parses are not affected by what other threads do.
Local == [][\A t \in Threads : stacks'[t] # stacks[t] =>
              \A u \in Threads \ {t} : stacks'[u] = stacks[u]]_vars

Emit == IF Len(hist) = MaxOps + 1 THEN PrintT("HIST " \o ToJson(SubSeq(hist, 1, MaxOps))) ELSE TRUE
=============================================================================
