-------------------------------- MODULE Chars --------------------------------
(***************************************************************************)
(* Characters and text.  Text is a sequence of Unicode code points; all    *)
(* positions in this specification count characters, 0 = before the first  *)
(* one.  ByteOff converts a position to the UTF-8 byte offset the library  *)
(* reports; LineCol to the human-readable coordinates it prints.           *)
(*                                                                         *)
(* The character classes follow Rust's char::is_alphabetic and friends on  *)
(* the finite sample of code points the conformance generator draws from   *)
(* (all of ASCII, and KnownNonAscii).                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

NL == 10

Utf8Width(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2
                ELSE IF c < 65536 THEN 3 ELSE 4

\* UTF-8 byte offset of character position pos.
ByteOff(src, pos) == FoldLeft(LAMBDA acc, c : acc + Utf8Width(c), 0, SubSeq(src, 1, pos))

\* The set of byte offsets that are character boundaries.
Boundaries(src) == { ByteOff(src, p) : p \in 0..Len(src) }

\* 1-based line and column (in characters) of position pos.
LineCol(src, pos) ==
    LET at == FoldLeft(LAMBDA acc, c : IF c = NL THEN <<acc[1] + 1, 1>> ELSE <<acc[1], acc[2] + 1>>,
                       <<1, 1>>, SubSeq(src, 1, pos))
    IN  at

-----------------------------------------------------------------------------
IsAsciiUpper(c) == c \in 65..90
IsAsciiLower(c) == c \in 97..122
IsAsciiAlpha(c) == IsAsciiUpper(c) \/ IsAsciiLower(c)
IsAsciiDigit(c) == c \in 48..57
IsAsciiHex(c)   == IsAsciiDigit(c) \/ c \in 65..70 \/ c \in 97..102

\* Non-ASCII sample: all of Latin-1 and one or more of each kind elsewhere
\* (letters outside the L categories, numbers that are letters, title case,
\* modifiers, marks, private and unassigned characters, every UTF-8 length).
\* From the Unicode properties Uppercase, Lowercase, Alphabetic (not cased)
\* and the categories N*.  Read by lib/model.py, too.
NAUpper  == { 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207,
    208, 209, 210, 211, 212, 213, 214, 216, 217, 218, 219, 220, 221, 222, 304, 376, 880, 913,
    1012, 1329, 4256, 5024, 7838, 8486, 8490, 8491, 8544, 8551, 9398, 42560, 42786, 65313,
    66560, 68736, 119808, 119964, 125184, 127280 }
NALower  == { 170, 181, 186, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235,
    236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 248, 249, 250, 251, 252, 253, 254,
    255, 305, 312, 383, 591, 688, 837, 890, 945, 962, 1072, 4304, 7468, 8305, 8560, 8567, 9424,
    11388, 43888, 64256, 65345, 66600, 125218 }
NAOtherL == { 453, 456, 660, 710, 1456, 1488, 1600, 2048, 2307, 2367, 2369, 3585, 4352, 6277, 8072,
    8124, 8584, 12293, 12295, 12321, 12354, 19968, 19977, 20140, 44032, 63744, 64286, 65438,
    65536, 65856, 66369, 131072 }
\* some of these are letters, too
NANum    == { 178, 179, 185, 188, 189, 190, 1632, 1635, 1984, 2406, 3056, 3664, 3891, 8304,
    8320, 8528, 8544, 8551, 8560, 8567, 8584, 9312, 9321, 11517, 12295, 12321, 65296, 65799,
    65856, 66369, 66720, 120792, 120831, 127232 }
NAOther  == { 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143,
    144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161,
    162, 163, 164, 165, 166, 167, 168, 169, 171, 172, 173, 174, 175, 176, 177, 180, 182, 183,
    184, 187, 191, 215, 247, 768, 769, 776, 811, 865, 1154, 1155, 1757, 2047, 2381, 3647, 5760, 6158, 8192, 8203, 8205,
    8232, 8233, 8419, 9372, 12288, 55295, 57344, 64976, 65039, 65279, 65533, 65535, 127995, 128512, 128514,
    917760, 1114109, 1114111 }
NAAlpha  == NAUpper \cup NALower \cup NAOtherL
NAAlnum  == NAAlpha \cup NANum
KnownNonAscii == NAAlnum \cup NAOther

Known(c) == c < 128 \/ c \in KnownNonAscii

InClass(cls, c) ==
    CASE cls = "any"       -> TRUE
      [] cls = "alpha"     -> IsAsciiAlpha(c) \/ c \in NAAlpha
      [] cls = "alnum"     -> IsAsciiAlpha(c) \/ IsAsciiDigit(c)
                              \/ c \in NAAlnum
      [] cls = "upper"     -> IsAsciiUpper(c) \/ c \in NAUpper
      [] cls = "lower"     -> IsAsciiLower(c) \/ c \in NALower
      [] cls = "digit"     -> IsAsciiDigit(c)
      [] cls = "digit_bin" -> c \in {48, 49}
      [] cls = "digit_hex" -> IsAsciiHex(c)

\* Numeric value of an ASCII digit in any radix up to 16.
DigitVal(c) == IF c \in 48..57 THEN c - 48
               ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
IsDigitIn(radix, c) == CASE radix = 2  -> c \in {48, 49}
                         [] radix = 10 -> IsAsciiDigit(c)
                         [] radix = 16 -> IsAsciiHex(c)
=============================================================================
