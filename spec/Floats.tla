------------------------------- MODULE Floats -------------------------------
(***************************************************************************)
(* The value of a decimal numeral as a binary floating-point number: the   *)
(* number of the type that is nearest to the exact value, ties to even.    *)
(* TLC's integers have 32 bits, so the arithmetic is on sequences of limbs *)
(* (base 2^12, least significant first).                                   *)
(*                                                                         *)
(* A value is  V("f", <<kind, sign, hi, lo, q>>)  with kind 0 for the      *)
(* finite number (hi * 2^24 + lo) * 2^q, 1 for infinity and 2 for nan.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Chars, Numbers

Base == 4096

\* a * m + c for small m, c (a * m < 2^31 per limb).
MulAdd(a, m, c) ==
    LET st == FoldLeft(LAMBDA acc, x : LET y == x * m + acc[2]
                                       IN  <<Append(acc[1], y % Base), y \div Base>>, <<<<>>, c>>, a)
        RECURSIVE Carry(_)
        Carry(k) == IF k = 0 THEN <<>> ELSE <<k % Base>> \o Carry(k \div Base)
    IN  st[1] \o Carry(st[2])
\* <<quotient, remainder>> of a divided by small m.
DivMod(a, m) ==
    LET st == FoldRight(LAMBDA x, acc : LET y == acc[2] * Base + x
                                        IN  <<<<y \div m>> \o acc[1], y % m>>, a, <<<<>>, 0>>)
    IN  st
P5(k) == CASE k = 0 -> 1 [] k = 1 -> 5 [] k = 2 -> 25 [] k = 3 -> 125 [] k = 4 -> 625
           [] k = 5 -> 3125 [] k = 6 -> 15625 [] k = 7 -> 78125 [] OTHER -> 390625

RECURSIVE TimesPow5(_, _)
TimesPow5(a, k) == IF k = 0 THEN a ELSE IF k >= 8 THEN TimesPow5(MulAdd(a, 390625, 0), k - 8) ELSE MulAdd(a, P5(k), 0)
\* <<quotient, something was left over>>
RECURSIVE OverPow5(_, _, _)
OverPow5(a, k, sticky) ==
    IF k = 0 THEN <<a, sticky>>
    ELSE LET j == IF k >= 8 THEN 8 ELSE k
             d == DivMod(a, P5(j))
         IN  OverPow5(d[1], k - j, sticky \/ d[2] # 0)

\* The natural number written in decimal digits ds.
FromDigits(ds) == FoldLeft(LAMBDA acc, d : MulAdd(acc, 10, d), <<>>, ds)

\* Binary digits, most significant first, without leading zeros.
Bits12(x) == [i \in 1..12 |-> (x \div (2 ^ (12 - i))) % 2]
RECURSIVE DropZeros(_, _)
DropZeros(s, i) == IF i > Len(s) THEN <<>> ELSE IF s[i] # 0 THEN SubSeq(s, i, Len(s)) ELSE DropZeros(s, i + 1)
BitsOf(a) == DropZeros(FoldLeft(LAMBDA acc, x : Bits12(x) \o acc, <<>>, a), 1)

Prec(ty) == IF ty = "f32" THEN 24 ELSE 53
QMin(ty) == IF ty = "f32" THEN -149 ELSE -1074
QMax(ty) == IF ty = "f32" THEN 104 ELSE 971

Infinite(neg) == <<1, neg, 0, 0, 0>>
Zero(ty, neg) == <<0, neg, 0, 0, QMin(ty)>>
Natural(bits) == FoldLeft(LAMBDA acc, b : 2 * acc + b, 0, bits)
Finite(neg, bits, q) ==
    LET l == Len(bits)
        cut == IF l <= 24 THEN 0 ELSE l - 24
    IN  <<0, neg, Natural(SubSeq(bits, 1, cut)), Natural(SubSeq(bits, cut + 1, l)), q>>

RECURSIVE Increment(_, _)
Increment(bits, i) == IF i = 0 THEN <<1>> \o bits
                      ELSE IF bits[i] = 0 THEN [bits EXCEPT ![i] = 1]
                      ELSE Increment([bits EXCEPT ![i] = 0], i - 1)
ZeroBits(n) == [i \in 1..n |-> 0]

\* The float nearest to  bits * 2^q  (a little more than that if sticky).
Nearest(ty, neg, bits, q, sticky) ==
    LET l    == Len(bits)
        p    == Prec(ty)
        want == q + l - p
        Q    == IF want < QMin(ty) THEN QMin(ty) ELSE want
        drop == Q - q
        keep == IF drop <= 0 THEN bits \o ZeroBits(0 - drop)
                ELSE IF drop >= l THEN <<>> ELSE SubSeq(bits, 1, l - drop)
        half == drop > 0 /\ drop <= l /\ bits[l - drop + 1] = 1
        rest == sticky \/ (drop > 0 /\ \E i \in (IF drop > l THEN 1 ELSE l - drop + 2)..l : bits[i] = 1)
        odd  == keep # <<>> /\ keep[Len(keep)] = 1
        up   == half /\ (rest \/ odd)
        m0   == IF up THEN Increment(keep, Len(keep)) ELSE keep
        m    == IF Len(m0) > p THEN SubSeq(m0, 1, p) ELSE m0
        qq   == IF Len(m0) > p THEN Q + 1 ELSE Q
    IN  IF m = <<>> THEN Zero(ty, neg)
        ELSE IF qq > QMax(ty) THEN Infinite(neg)
        ELSE Finite(neg, m, qq)

\* The float nearest to  (digits ds) * 10^e.
Decimal(ty, neg, ds, e) ==
    LET d == DropZeros(ds, 1) IN
    IF d = <<>> THEN Zero(ty, neg)
    ELSE IF Len(d) + e > 310 THEN Infinite(neg)
    ELSE IF Len(d) + e < -325 THEN Zero(ty, neg)
    ELSE IF e >= 0 THEN Nearest(ty, neg, BitsOf(TimesPow5(FromDigits(d), e)), e, FALSE)
    ELSE LET s == (0 - e) \div 5 + 6
             r == OverPow5([i \in 1..s |-> 0] \o FromDigits(d), 0 - e, FALSE)
         IN  Nearest(ty, neg, BitsOf(r[1]), e - 12 * s, r[2])

-----------------------------------------------------------------------------
(* The value of the text src[st+1 .. e], which ScanFloat accepted.         *)
Small(ds) == FoldLeft(LAMBDA acc, d : IF acc > 99999 THEN acc ELSE 10 * acc + d, 0, ds)

FloatN(ty, src, st, e) ==
    LET sgn == IsSign(src[st + 1])
        neg == IF sgn /\ src[st + 1] = 45 THEN 1 ELSE 0
        p   == IF sgn THEN st + 1 ELSE st
        i   == SkipDigits(src, 10, p, e)
        dot == i < e /\ src[i + 1] = 46
        f   == IF dot THEN SkipDigits(src, 10, i + 1, e) ELSE i
        ds(a, b) == [k \in 1..(b - a) |-> DigitVal(src[a + k])]
        xs  == f + 1 < e /\ IsSign(src[f + 2])
        x   == IF f >= e THEN 0
               ELSE IF xs THEN (IF src[f + 2] = 45 THEN 0 - 1 ELSE 1) * Small(ds(f + 2, e))
               ELSE Small(ds(f + 1, e))
    IN  IF Lower(src[p + 1]) = 105 THEN Infinite(neg)
        ELSE IF Lower(src[p + 1]) = 110 THEN <<2, 0, 0, 0, 0>>
        ELSE Decimal(ty, neg, ds(p, i) \o (IF dot THEN ds(i + 1, f) ELSE <<>>),
                     x - (IF dot THEN f - (i + 1) ELSE 0))
=============================================================================
