-------------------------------- MODULE Str --------------------------------
(***************************************************************************)
(* Text for the URL specification.                                         *)
(*                                                                         *)
(* A string is a sequence of Unicode code points (naturals, surrogates     *)
(* included, exactly what a Python str can hold); a byte sequence is a     *)
(* sequence over 0..255.  "No value" is the empty sequence and "value v"   *)
(* is <<v>> (TLC cannot compare values of different kinds).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

(*--------------------------- literals ------------------------------------*)
ASCIIPrintable ==
  " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

\* (Built with @@ so that TLC holds an explicit table.)
CodeOf == FoldLeft(LAMBDA f, i : f @@ (SubSeq(ASCIIPrintable, i, i) :> 31 + i),
                   ("" :> 0) @@ ("\t" :> 9) @@ ("\n" :> 10), [i \in 1..95 |-> i])

S(str) == IF Len(str) = 0 THEN <<>>
          ELSE [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]] \o <<>>

EOFC == -1
cTAB == 9    cLF == 10    cCR == 13    cSP == 32
cHASH == 35  cPCT == 37   cAMP == 38   cPLUS == 43
cDASH == 45  cDOT == 46   cSL == 47    c0 == 48
cCOLON == 58 cSEMI == 59  cEQ == 61    cQ == 63
cAT == 64    cLB == 91    cBS == 92    cRB == 93
cBAR == 124  cFFFD == 65533

(*--------------------------- classes --------------------------------------*)
IsDigit(c)  == c >= 48 /\ c <= 57
IsUpper(c)  == c >= 65 /\ c <= 90
IsLower(c)  == c >= 97 /\ c <= 122
IsAlpha(c)  == IsUpper(c) \/ IsLower(c)
IsAlnum(c)  == IsAlpha(c) \/ IsDigit(c)
IsHex(c)    == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c)   == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
IsSurrogate(c) == c >= 55296 /\ c <= 57343
IsHighSurr(c)  == c >= 55296 /\ c <= 56319
IsLowSurr(c)   == c >= 56320 /\ c <= 57343
IsC0OrSpace(c) == c >= 0 /\ c <= 32

(*--------------------------- sequences ------------------------------------*)
Ch(s, i) == IF i <= Len(s) THEN s[i] ELSE EOFC

From(s, i) == SubSeq(s, i, Len(s))

LowerC(c) == IF IsUpper(c) THEN c + 32 ELSE c
\* TLC keeps [i \in D |-> e] unevaluated; concatenation makes it a tuple.
Force(f) == f \o <<>>
Lower(s) == IF \A i \in 1..Len(s) : ~IsUpper(s[i]) THEN s
            ELSE Force([i \in 1..Len(s) |-> LowerC(s[i])])

\* First index >= i whose element is in the set, or Len(s)+1.
ScanTo(s, i, stop) ==
  LET k == SelectInSubSeq(s, i, Len(s), LAMBDA c : c \in stop)
  IN  IF k = 0 THEN Len(s) + 1 ELSE k

AllIn(s, set) == \A i \in 1..Len(s) : s[i] \in set
HasC(s, c)    == \E i \in 1..Len(s) : s[i] = c

StartsWithAt(s, i, t) ==
  /\ i + Len(t) - 1 <= Len(s)
  /\ \A k \in 1..Len(t) : s[i + k - 1] = t[k]

RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, i, sep, acc) ==
  LET j == ScanTo(s, i, {sep})
      part == SubSeq(s, i, j - 1)
  IN  IF j > Len(s) THEN Append(acc, part)
      ELSE SplitFrom(s, j + 1, sep, Append(acc, part))
\* Strict split: always at least one part.
Split(s, sep) == SplitFrom(s, 1, sep, <<>>)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(parts, i, sep) ==
  IF i > Len(parts) THEN <<>>
  ELSE IF i = Len(parts) THEN parts[i]
  ELSE parts[i] \o sep \o JoinFrom(parts, i + 1, sep)
Join(parts, sep) == JoinFrom(parts, 1, sep)

Copies(x, n) == IF n <= 0 THEN <<>> ELSE Force([i \in 1..n |-> x])

CountC(s, c) == FoldLeft(LAMBDA a, d : IF d = c THEN a + 1 ELSE a, 0, s)

Filter(s, bad) == SelectSeq(s, LAMBDA c : c \notin bad)

(*--------------------------- numbers --------------------------------------*)
RECURSIVE DecDigits(_)
DecDigits(n) == IF n < 10 THEN <<48 + n>>
                ELSE Append(DecDigits(n \div 10), 48 + (n % 10))

HexLower(d) == IF d < 10 THEN 48 + d ELSE 87 + d
HexUpper(d) == IF d < 10 THEN 48 + d ELSE 55 + d

RECURSIVE HexDigits(_)
HexDigits(n) == IF n < 16 THEN <<HexLower(n)>>
                ELSE Append(HexDigits(n \div 16), HexLower(n % 16))

\* Saturating value of a digit string in radix r (r <= 16), cap < 2^27.
SatVal(s, r, cap) ==
  FoldLeft(LAMBDA a, c : IF a >= cap THEN cap
                         ELSE LET v == a * r + HexVal(c)
                              IN  IF v >= cap THEN cap ELSE v, 0, s)

(*--------------------------- UTF-16 / UTF-8 -------------------------------*)
\* Scalar value string: surrogate pairs are joined, lone surrogates become
\* U+FFFD.
RECURSIVE NormFrom(_, _, _)
NormFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF ~IsSurrogate(s[i]) THEN NormFrom(s, i + 1, Append(acc, s[i]))
  ELSE IF IsHighSurr(s[i]) /\ i < Len(s) /\ IsLowSurr(s[i + 1])
       THEN NormFrom(s, i + 2,
              Append(acc, 65536 + (s[i] - 55296) * 1024 + (s[i + 1] - 56320)))
       ELSE NormFrom(s, i + 1, Append(acc, cFFFD))
Norm(s) == IF \E i \in 1..Len(s) : IsSurrogate(s[i])
           THEN NormFrom(s, 1, <<>>) ELSE s

Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64),
                           128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64),
         128 + ((c \div 64) % 64), 128 + (c % 64)>>

AllAscii(s) == \A i \in 1..Len(s) : s[i] < 128

Utf8Encode(s) ==
  LET n == Norm(s)
  IN  IF AllAscii(n) THEN n
      ELSE FoldLeft(LAMBDA a, c : IF c < 128 THEN Append(a, c)
                                  ELSE a \o Utf8(c), <<>>, n)

\* UTF-8 decode without BOM handling, errors replaced (one U+FFFD per
\* maximal subpart, as the Encoding Standard decoder does).
IsCont(s, i, lo, hi) == i <= Len(s) /\ s[i] >= lo /\ s[i] <= hi

RECURSIVE DecFrom(_, _, _)
DecFrom(b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE LET x == b[i] IN
    IF x < 128 THEN DecFrom(b, i + 1, Append(acc, x))
    ELSE IF x >= 194 /\ x <= 223 THEN
      IF IsCont(b, i + 1, 128, 191)
      THEN DecFrom(b, i + 2, Append(acc, (x - 192) * 64 + (b[i + 1] - 128)))
      ELSE DecFrom(b, i + 1, Append(acc, cFFFD))
    ELSE IF x >= 224 /\ x <= 239 THEN
      LET lo == IF x = 224 THEN 160 ELSE 128
          hi == IF x = 237 THEN 159 ELSE 191
      IN IF ~IsCont(b, i + 1, lo, hi)
         THEN DecFrom(b, i + 1, Append(acc, cFFFD))
         ELSE IF ~IsCont(b, i + 2, 128, 191)
         THEN DecFrom(b, i + 2, Append(acc, cFFFD))
         ELSE DecFrom(b, i + 3, Append(acc, (x - 224) * 4096
                + (b[i + 1] - 128) * 64 + (b[i + 2] - 128)))
    ELSE IF x >= 240 /\ x <= 244 THEN
      LET lo == IF x = 240 THEN 144 ELSE 128
          hi == IF x = 244 THEN 143 ELSE 191
      IN IF ~IsCont(b, i + 1, lo, hi)
         THEN DecFrom(b, i + 1, Append(acc, cFFFD))
         ELSE IF ~IsCont(b, i + 2, 128, 191)
         THEN DecFrom(b, i + 2, Append(acc, cFFFD))
         ELSE IF ~IsCont(b, i + 3, 128, 191)
         THEN DecFrom(b, i + 3, Append(acc, cFFFD))
         ELSE DecFrom(b, i + 4, Append(acc, (x - 240) * 262144
                + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64
                + (b[i + 3] - 128)))
    ELSE DecFrom(b, i + 1, Append(acc, cFFFD))
Utf8Decode(b) == IF AllAscii(b) THEN b ELSE DecFrom(b, 1, <<>>)

(*--------------------------- percent-decoding -----------------------------*)
RECURSIVE PDecFrom(_, _, _)
PDecFrom(b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE IF b[i] = cPCT /\ i + 2 <= Len(b) /\ IsHex(b[i + 1]) /\ IsHex(b[i + 2])
       THEN PDecFrom(b, i + 3,
              Append(acc, HexVal(b[i + 1]) * 16 + HexVal(b[i + 2])))
       ELSE PDecFrom(b, i + 1, Append(acc, b[i]))
PercentDecode(b) == IF HasC(b, cPCT) THEN PDecFrom(b, 1, <<>>) ELSE b

StringPercentDecode(s) == PercentDecode(Utf8Encode(s))

(*--------------------------- UTF-16 code unit order ------------------------*)
Units(s) ==
  FoldLeft(LAMBDA a, c :
     IF c < 65536 THEN Append(a, c)
     ELSE a \o <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>,
     <<>>, s)

RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE LexLess(a, b, i + 1)
CodeUnitLess(a, b) == LexLess(Units(a), Units(b), 1)
=============================================================================
