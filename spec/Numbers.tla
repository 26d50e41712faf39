------------------------------- MODULE Numbers -------------------------------
(***************************************************************************)
(* Lexical syntax and range of the numeric patterns.  Numerals have        *)
(* arbitrary length, so a magnitude is a sequence of digits, most          *)
(* significant first, without leading zeros (zero is <<0>>), and "fits the *)
(* type" is a comparison of digit sequences.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, Chars

-----------------------------------------------------------------------------
(* Types.  bits = 0 means unbounded.                                       *)
Widths == [ u8 |-> 8, u16 |-> 16, u32 |-> 32, u64 |-> 64, u128 |-> 128, usize |-> 64,
            i8 |-> 8, i16 |-> 16, i32 |-> 32, i64 |-> 64, i128 |-> 128, isize |-> 64,
            big_int |-> 0, big_uint |-> 0 ]
Signed == { "i8", "i16", "i32", "i64", "i128", "isize", "big_int" }
BaseTypes == DOMAIN Widths
Radixes == { 2, 10, 16 }

(* Digit sequences in any radix.                                           *)
RECURSIVE Double(_, _, _, _)
\* Double of digits ds (radix rx), from the right, with carry.
Double(ds, rx, i, carry) ==
    IF i = 0 THEN IF carry = 0 THEN <<>> ELSE <<carry>>
    ELSE LET x == 2 * ds[i] + carry
         IN  Append(Double(ds, rx, i - 1, x \div rx), x % rx)
RECURSIVE Pow2(_, _)
Pow2(n, rx) == IF n = 0 THEN <<1>>
               ELSE LET h == Pow2(n - 1, rx) IN Double(h, rx, Len(h), 0)
RECURSIVE MinusOne(_, _, _)
MinusOne(ds, rx, i) == IF ds[i] > 0 THEN [ds EXCEPT ![i] = @ - 1]
                       ELSE MinusOne([ds EXCEPT ![i] = rx - 1], rx, i - 1)
RECURSIVE Strip0(_)
Strip0(ds) == IF Len(ds) > 1 /\ ds[1] = 0 THEN Strip0(Tail(ds)) ELSE ds

RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) == IF i > Len(a) THEN TRUE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLeq(a, b, i + 1)
MagLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b, 1))

\* Largest magnitude of type ty for a numeral of the given sign.
MaxMag(ty, neg, rx) ==
    IF ty \in Signed
    THEN IF neg THEN Pow2(Widths[ty] - 1, rx)
         ELSE LET p == Pow2(Widths[ty] - 1, rx) IN Strip0(MinusOne(p, rx, Len(p)))
    ELSE LET p == Pow2(Widths[ty], rx) IN Strip0(MinusOne(p, rx, Len(p)))
\* computed once per type and radix
MaxTable == [ ty \in BaseTypes, neg \in BOOLEAN, rx \in Radixes |->
                 IF Widths[ty] = 0 THEN <<>> ELSE MaxMag(ty, neg, rx) ]
Fits(ty, neg, rx, mag) == Widths[ty] = 0 \/ MagLeq(mag, MaxTable[ty, neg, rx])

-----------------------------------------------------------------------------
(* Scanning.  All scanners look at src between positions st and hi and     *)
(* return the position just after what they accept.                        *)
RECURSIVE SkipDigits(_, _, _, _)
SkipDigits(src, rx, st, hi) ==
    IF st < hi /\ IsDigitIn(rx, src[st + 1]) THEN SkipDigits(src, rx, st + 1, hi) ELSE st

IsSign(c) == c \in {43, 45}

\* [ok, e, neg, mag] of the numeral at st.
ScanInt(src, ty, rx, st, hi) ==
    LET sgn == ty \in Signed /\ st < hi /\ IsSign(src[st + 1])
        d0  == IF sgn THEN st + 1 ELSE st
        e   == SkipDigits(src, rx, d0, hi)
        neg == sgn /\ src[st + 1] = 45
    IN  IF e = d0 THEN [ok |-> FALSE, e |-> st, neg |-> FALSE, mag |-> <<>>]
        ELSE [ok |-> TRUE, e |-> e, neg |-> neg,
              mag |-> Strip0([i \in 1..(e - d0) |-> DigitVal(src[d0 + i])])]

\* Canonical representation of the value: sign (0 for zero and positive), digits.
IntN(neg, mag) == << IF neg /\ mag # <<0>> THEN 1 ELSE 0 >> \o mag

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
RECURSIVE MatchWordFrom(_, _, _, _, _)
MatchWordFrom(src, w, i, st, hi) ==
    IF i > Len(w) THEN TRUE
    ELSE st + i <= hi /\ Lower(src[st + i]) = w[i] /\ MatchWordFrom(src, w, i + 1, st, hi)
MatchWord(src, w, st, hi) == MatchWordFrom(src, w, 1, st, hi)

W_infinity == <<105, 110, 102, 105, 110, 105, 116, 121>>
W_inf      == <<105, 110, 102>>
W_nan      == <<110, 97, 110>>
W_true     == <<116, 114, 117, 101>>
W_false    == <<102, 97, 108, 115, 101>>

\* Exponent part at st, or st when absent or incomplete.
ScanExp(src, st, hi) ==
    IF st < hi /\ Lower(src[st + 1]) = 101
    THEN LET d0 == IF st + 1 < hi /\ IsSign(src[st + 2]) THEN st + 2 ELSE st + 1
             e  == SkipDigits(src, 10, d0, hi)
         IN  IF e > d0 THEN e ELSE st
    ELSE st

\* [ok, e] of the float at st.
ScanFloat(src, st, hi) ==
    LET p == IF st < hi /\ IsSign(src[st + 1]) THEN st + 1 ELSE st IN
    IF MatchWord(src, W_infinity, p, hi) THEN [ok |-> TRUE, e |-> p + 8]
    ELSE IF MatchWord(src, W_inf, p, hi) \/ MatchWord(src, W_nan, p, hi)
         THEN [ok |-> TRUE, e |-> p + 3]
    ELSE LET i == SkipDigits(src, 10, p, hi)          \* after integer digits
             dot == i < hi /\ src[i + 1] = 46
             f == IF dot THEN SkipDigits(src, 10, i + 1, hi) ELSE i
         IN  IF i > p THEN [ok |-> TRUE, e |-> ScanExp(src, f, hi)]
             ELSE IF dot /\ f > i + 1 THEN [ok |-> TRUE, e |-> ScanExp(src, f, hi)]
             ELSE [ok |-> FALSE, e |-> st]

HasPrefix(src, w, st, hi) ==
    st + Len(w) <= hi /\ \A i \in 1..Len(w) : src[st + i] = w[i]
ScanBool(src, st, hi) ==
    IF HasPrefix(src, W_true, st, hi) THEN [ok |-> TRUE, e |-> st + 4, v |-> TRUE]
    ELSE IF HasPrefix(src, W_false, st, hi) THEN [ok |-> TRUE, e |-> st + 5, v |-> FALSE]
    ELSE [ok |-> FALSE, e |-> st, v |-> FALSE]
=============================================================================
