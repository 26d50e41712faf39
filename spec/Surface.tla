--------------------------------- MODULE Surface ---------------------------------
(***************************************************************************)
(* The meaning of the parser! macro: its documented syntax, and which      *)
(* pattern (Patterns.tla) each form stands for.  Results recorded from     *)
(* compiled parser! programs are judged against that meaning.              *)
(*                                                                         *)
(* Abstract syntax (all records have all fields):                          *)
(*   program [defs |-> <<def, ...>>]        the last def is the one parsed *)
(*   def     [n |-> name, kind |-> "parser"/"str"/"chr"/"num",             *)
(*            a |-> code points, or the number, of a constant,             *)
(*            rules |-> <<[n |-> name, e |-> expr], ...>>, e |-> expr]     *)
(*                                  let n = parser!(rule ..; .. e);        *)
(*   expr    [terms |-> <<lterm, ...>>, conv |-> tag or 0, use |-> labels] *)
(*                                  t1 t2 ... => f(tag, use)               *)
(*   lterm   [label |-> name or "", q |-> <<"*" or "+" or "?", ...>>,      *)
(*            p |-> prim]        each quantifier applies to all before it  *)
(*   prim    [p |-> kind, n |-> name, a |-> integers, args |-> exprs]      *)
(*      lit, chr   exact text a            group  ( args[1] )              *)
(*      alt        { args[1], ... }        name   n                        *)
(*      num        a number (argument)     call   n ( args[1], ... )       *)
(***************************************************************************)
EXTENDS Judge, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

-----------------------------------------------------------------------------
(* Patterns as trees; flattened into the arena of Patterns.tla afterwards. *)
Tr(op, k, a, s) == [op |-> op, k |-> k, a |-> a, s |-> s]

Builtin(n) ==
    CASE n \in {"alpha", "alnum", "upper", "lower", "digit", "digit_bin", "digit_hex"} -> Tr("cls", <<>>, <<>>, n)
      [] n = "any_char" -> Tr("cls", <<>>, <<>>, "any")
      [] n \in {"f32", "f64"} -> Tr("float", <<>>, <<>>, n)
      [] n = "bool" -> Tr("bool", <<>>, <<>>, "")
      [] OTHER -> Tr("int", <<>>, <<10>>, n)

\* Functions defined by the test programs themselves:
\*   tagged(n, p)   p with a conversion        boxed(p)   p as one value
\*   nothing()      matches ""                 three(a, b, c)  nested pairs
\*   five(m, p, n, q, s)   pair(p, q) then s, converted with 10 m + n
CallTree(n, as) ==
    CASE n \in {"string", "line", "section"} -> Tr(n, as, <<>>, "")
      [] n = "lines" -> Tr("star", << Tr("line", as, <<>>, "") >>, <<>>, n)
      [] n = "sections" -> Tr("star", << Tr("section", as, <<>>, "") >>, <<>>, n)
      [] n = "repeat_sep" -> Tr("repsep", as, <<>>, "")
      [] n \in {"hash_set", "btree_set", "hash_map", "btree_map", "vec_deque"} -> Tr("coll", as, <<>>, n)
      [] n = "char_of" -> Tr("charof", <<>>, as[1].a, "")
      [] n = "tagged" -> Tr("map", << as[2] >>, as[1].a, "")
      [] n = "five" -> Tr("map", << Tr("seq", << Tr("pair", << as[2], as[4] >>, <<>>, ""), as[5] >>, <<>>, "") >>,
                          << 10 * as[1].a[1] + as[3].a[1] >>, "")
      [] n = "boxed" -> Tr("grp", as, <<>>, "")
      [] n = "nothing" -> Tr("empty", <<>>, <<>>, "")
      [] n = "three" -> Tr("pair", << as[1], Tr("pair", << as[2], as[3] >>, <<>>, "") >>, <<>>, "")

QuantOp(q) == CASE q = "*" -> "star" [] q = "+" -> "plus" [] q = "?" -> "opt"
Quantified(qs, t) == FoldLeft(LAMBDA x, q : Tr(QuantOp(q), <<x>>, <<>>, ""), t, qs)

RECURSIVE Chain(_, _)
Chain(op, ts) == IF Len(ts) = 1 THEN ts[1]
                 ELSE Tr(op, << ts[1], Chain(op, SubSeq(ts, 2, Len(ts))) >>, <<>>, "")

LabelAt(terms, u) == CHOOSE i \in 1..Len(terms) : terms[i].label = u

RECURSIVE ExprTree(_, _), PrimTree(_, _)
\* env: name -> tree
ExprTree(env, e) ==
    LET ts == [i \in 1..Len(e.terms) |-> Quantified(e.terms[i].q, PrimTree(env, e.terms[i].p))] IN
    IF e.conv = 0 THEN Chain("seq", ts)
    ELSE Tr("mapl", << Chain("pair", ts) >>,
            << e.conv, Len(ts) >> \o [i \in 1..Len(e.use) |-> LabelAt(e.terms, e.use[i])], "")
PrimTree(env, p) ==
    CASE p.p = "lit" -> Tr("lit", <<>>, p.a, "")
      [] p.p = "chr" -> Tr("chr", <<>>, p.a, "")
      [] p.p = "num" -> Tr("num", <<>>, p.a, "")
      [] p.p = "name" -> IF p.n \in DOMAIN env THEN env[p.n] ELSE Builtin(p.n)
      [] p.p = "group" -> Tr("grp", << ExprTree(env, p.args[1]) >>, <<>>, "")
      [] p.p = "alt" ->
            LET arms == [i \in 1..Len(p.args) |-> ExprTree(env, p.args[i])] IN
            IF Len(arms) = 1 THEN Tr("grp", arms, <<>>, "")
            ELSE FoldLeft(LAMBDA acc, x : Tr("alt", <<acc, x>>, <<>>, ""), arms[1], Tail(arms))
      [] p.p = "call" ->
            LET as == [i \in 1..Len(p.args) |-> ExprTree(env, p.args[i])]
            IN  CallTree(p.n, as)

\* The i-th def in the environment of those before it.
DefTree(env, d, i) ==
    CASE d.kind = "str" -> Tr("lit", <<>>, d.a, "")
      [] d.kind = "chr" -> Tr("chr", <<>>, d.a, "")
      [] d.kind = "num" -> Tr("num", <<>>, d.a, "")
      [] OTHER ->
           IF d.rules = <<>> THEN Tr("grp", << ExprTree(env, d.e) >>, <<>>, "")
           ELSE LET names == [r \in 1..Len(d.rules) |-> d.rules[r].n]
                    inner == [x \in { names[r] : r \in 1..Len(names) } |->
                                Tr("ref", <<>>, << i, CHOOSE r \in 1..Len(names) : names[r] = x >>, "")] @@ env
                IN  Tr("grp", << Tr("rs", << ExprTree(inner, d.e) >>
                                          \o [r \in 1..Len(d.rules) |-> ExprTree(inner, d.rules[r].e)],
                                    << i >>, "") >>, <<>>, "")
RECURSIVE Env(_, _)
Env(defs, upto) == IF upto = 0 THEN <<>>
                   ELSE LET env == Env(defs, upto - 1)
                        IN  (defs[upto].n :> DefTree(env, defs[upto], upto)) @@ env
ProgramTree(p) == LET n == Len(p.defs) IN DefTree(Env(p.defs, n - 1), p.defs[n], n)

-----------------------------------------------------------------------------
RECURSIVE Flat(_, _)
\* The nodes of tree x, its root being number base + 1.
Flat(x, base) ==
    LET r == FoldLeft(LAMBDA acc, kid :
                        LET b == base + 1 + Len(acc.nodes)
                        IN  [nodes |-> acc.nodes \o Flat(kid, b), k |-> Append(acc.k, b + 1)],
                      [nodes |-> <<>>, k |-> <<>>], x.k)
    IN  << [x EXCEPT !.k = r.k] >> \o r.nodes
\* Rule names point to the bodies of their set.
Linked(g) ==
    [d \in 1..Len(g) |->
       IF g[d].op # "ref" THEN g[d]
       ELSE LET rs == CHOOSE r \in 1..Len(g) : g[r].op = "rs" /\ g[r].a[1] = g[d].a[1]
            IN  [g[d] EXCEPT !.k = << g[rs].k[g[d].a[2] + 1] >>]]
Desugar(p) == Linked(Flat(ProgramTree(p), 0))

-----------------------------------------------------------------------------
VARIABLES t, verdict

Relevant == {"returns", "accept", "value", "calls", "loc"}
Init == t \in 1..Len(Cases) /\ verdict = {"todo"}
Next == /\ verdict = {"todo"}
        /\ verdict' = Verdict(Cases[t], Desugar(Cases[t].syn)) \cap Relevant
        /\ IF verdict' = {} THEN TRUE ELSE PrintT(<<"VERDICT", t, verdict'>>)
        /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, verdict>>
Conforms == verdict \in {{}, {"todo"}}
=============================================================================
