------------------------------ MODULE Percent ------------------------------
(***************************************************************************)
(* Percent-encode sets, URL code points / URL units, percent-encode after  *)
(* encoding, and the application/x-www-form-urlencoded codec.              *)
(***************************************************************************)
EXTENDS Str, Enc

SetOf(str) == {CodeOf[SubSeq(str, i, i)] : i \in 1..Len(str)}

\* Code points below U+0080 that each set percent-encodes (every code point
\* above U+007E is in every set).
C0Set        == (0..31) \cup {127}
FragmentSet  == C0Set \cup SetOf(" \"<>`")
QuerySet     == C0Set \cup SetOf(" \"#<>")
SpQuerySet   == QuerySet \cup SetOf("'")
PathSet      == QuerySet \cup SetOf("?`{}")
UserinfoSet  == PathSet \cup SetOf("/:;=@[\\]^|")
ComponentSet == UserinfoSet \cup SetOf("$%&+,")
FormSet      == ComponentSet \cup SetOf("!'()~")

NeedsEnc(c, set) == c > 126 \/ c \in set

PctByte(b) == <<cPCT, HexUpper(b \div 16), HexUpper(b % 16)>>
PctBytes(bs) == FoldLeft(LAMBDA a, b : a \o PctByte(b), <<>>, bs)

\* UTF-8 percent-encode a string using an encode set.
PctEnc(s, set) ==
  LET n == Norm(s)
  IN  IF \A i \in 1..Len(n) : ~NeedsEnc(n[i], set) THEN n
      ELSE FoldLeft(LAMBDA a, c : IF NeedsEnc(c, set)
                                  THEN a \o PctBytes(Utf8(c))
                                  ELSE Append(a, c), <<>>, n)

(*--------------------- legacy encoders (tables in Enc) ---------------------*)
\* ASCII is the identity in all of them; EncTable(e) maps a scalar value above
\* U+007F to its bytes, or has no entry for it.
IsUtf(e) == e = "utf-8"

sRefOpen == S("%26%23")
sRefClose == S("%3B")
CharRef(c) == sRefOpen \o DecDigits(c) \o sRefClose

EncByte(y, set) == IF y < 127 /\ y \notin set THEN <<y>> ELSE PctByte(y)
\* Percent-encode after encoding.  A byte that is ASCII and outside the set
\* is kept; everything else is %XX; an unmappable code point becomes a
\* percent-encoded numeric character reference.
PctEncWith(s, set, enc) ==
  IF IsUtf(enc) THEN PctEnc(s, set)
  ELSE LET n == Norm(s)
           t == EncTable(enc)
       IN FoldLeft(LAMBDA a, c :
            IF c < 128 THEN a \o EncByte(c, set)
            ELSE IF c \in DOMAIN t
            THEN FoldLeft(LAMBDA z, y : z \o EncByte(y, set), a, t[c])
            ELSE a \o CharRef(c), <<>>, n)
\* Code points for which the declared tables do not say what a multi-byte
\* encoder does.
OutsideTables(s, enc) == enc \in MultiByte /\
                         LET n == Norm(s) IN
                         \E i \in 1..Len(n) : n[i] > 127 /\ n[i] \notin MBKnown

(*--------------------- URL code points and units --------------------------*)
UrlAsciiPunct == SetOf("!$&'()*+,-./:;=?@_~")
IsUrlCodePoint(c) ==
  \/ IsAlnum(c)
  \/ c \in UrlAsciiPunct
  \/ /\ c >= 160 /\ c <= 1114109
     /\ ~IsSurrogate(c)
     /\ ~(c >= 64976 /\ c <= 65007)
     /\ c % 65536 < 65534

BadPercentAt(s, i) ==
  s[i] = cPCT /\ ~(i + 2 <= Len(s) /\ IsHex(s[i + 1]) /\ IsHex(s[i + 2]))

\* Number of invalid-URL-unit validation errors for s[i..j] inside s.
UnitErrs(s, i, j) ==
  FoldLeft(LAMBDA a, k :
     LET p == i + k - 1
     IN  IF s[p] = cPCT THEN (IF BadPercentAt(s, p) THEN a + 1 ELSE a)
         ELSE IF IsUrlCodePoint(s[p]) THEN a ELSE a + 1,
     0, [k \in 1..(j - i + 1) |-> k])

IsUrlUnits(s) == UnitErrs(s, 1, Len(s)) = 0

(*--------------------- application/x-www-form-urlencoded -------------------*)
FormEncStr(s, enc) ==
  LET e == PctEncWith(s, FormSet \ {cSP}, enc)
  IN  IF HasC(e, cSP)
      THEN Force([i \in 1..Len(e) |-> IF e[i] = cSP THEN cPLUS ELSE e[i]])
      ELSE e

FormEncode(pairs, enc) ==
  Join([i \in 1..Len(pairs) |->
          FormEncStr(pairs[i][1], enc) \o <<cEQ>> \o FormEncStr(pairs[i][2], enc)],
       <<cAMP>>)

PlusToSpace(b) == IF HasC(b, cPLUS)
                  THEN Force([i \in 1..Len(b) |-> IF b[i] = cPLUS THEN cSP ELSE b[i]])
                  ELSE b
FormDecStr(b) == Utf8Decode(PercentDecode(PlusToSpace(b)))

FormDecode(bytes) ==
  LET parts == SelectSeq(Split(bytes, cAMP), LAMBDA p : Len(p) > 0)
      Pair(p) == LET e == ScanTo(p, 1, {cEQ})
                 IN  <<FormDecStr(SubSeq(p, 1, e - 1)),
                       FormDecStr(SubSeq(p, e + 1, Len(p)))>>
  IN  IF Len(parts) = 0 THEN <<>> ELSE Force([i \in 1..Len(parts) |-> Pair(parts[i])])
=============================================================================
