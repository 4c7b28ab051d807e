-------------------------------- MODULE Idna --------------------------------
(***************************************************************************)
(* Domain to ASCII / domain to Unicode.                                    *)
(*                                                                         *)
(* UTS #46 needs the Unicode tables, which belong to the environment (ICU).*)
(* The specification has its own complete rules for domains over ASCII and *)
(* over a small declared sub-alphabet of non-ASCII code points (KnownCP),  *)
(* including Punycode, the Bidi rule, CONTEXTJ and STD3/DNS-length, and    *)
(* takes the environment's answer (a table `env` of ICU results, obtained  *)
(* by the recorder straight from ICU with the flags the URL Standard       *)
(* mandates) for every other domain.                                       *)
(***************************************************************************)
EXTENDS Percent

(*----------------------- mapping table for KnownCP ------------------------*)
ValidL == {223, 225, 228, 233, 241, 246, 252, 946, 954, 962, 1080, 1103, 1073,
           26085, 26412, 28857, 9731, 127752, 12354, 128169}
ValidR == {1488, 1489, 1513}
MapTo ==
  (193 :> <<225>>) @@ (201 :> <<233>>) @@ (220 :> <<252>>) @@
  (914 :> <<946>>) @@ (1041 :> <<1073>>) @@
  (65313 :> <<97>>) @@ (65345 :> <<97>>) @@ (65336 :> <<120>>) @@
  (65296 :> <<48>>) @@ (65297 :> <<49>>) @@ (65303 :> <<55>>) @@
  (65294 :> <<46>>) @@ (12290 :> <<46>>) @@ (65377 :> <<46>>) @@
  (64257 :> <<102, 105>>) @@ (65285 :> <<37>>) @@ (65295 :> <<47>>) @@
  (65283 :> <<35>>) @@ (65306 :> <<58>>) @@ (65312 :> <<64>>) @@
  (65311 :> <<63>>) @@ (65340 :> <<92>>) @@ (65339 :> <<91>>) @@
  (8490 :> <<107>>) @@ (8481 :> <<116, 101, 108>>) @@ (178 :> <<50>>) @@
  (9312 :> <<49>>) @@ (160 :> <<32>>) @@ (12288 :> <<32>>) @@
  (170 :> <<97>>) @@ (8457 :> <<176, 102>>)
Ignored    == {173, 8203, 65039, 8288}
Disallowed == {65533, 65535, 8206, 57344, 128, 888}
Joiners    == {8204, 8205}

KnownCP == ValidL \cup ValidR \cup DOMAIN MapTo \cup Ignored \cup Disallowed
             \cup Joiners \cup {176}

StdLetters == {cDASH} \cup (48..57) \cup (97..122) \cup {cDOT}

MapC(c) == IF c < 128 THEN <<LowerC(c)>>
           ELSE IF c \in Ignored THEN <<>>
           ELSE IF c \in DOMAIN MapTo THEN MapTo[c]
           ELSE <<c>>
MapDomain(d) == IF AllAscii(d) THEN Lower(d)
                ELSE FoldLeft(LAMBDA a, c : a \o MapC(c), <<>>, d)

(*------------------------------ Punycode ----------------------------------*)
Adapt(delta, numpoints, first) ==
  LET d0 == IF first THEN delta \div 700 ELSE delta \div 2
      d1 == d0 + (d0 \div numpoints)
      RECURSIVE Loop(_, _)
      Loop(d, k) == IF d > 455 THEN Loop(d \div 35, k + 36)
                    ELSE k + ((36 * d) \div (d + 38))
  IN  Loop(d1, 0)

PDigit(d) == IF d < 26 THEN 97 + d ELSE 22 + d
PThr(k, bias) == IF k <= bias + 1 THEN 1 ELSE IF k >= bias + 26 THEN 26 ELSE k - bias

RECURSIVE PVar(_, _, _, _)
PVar(q, k, bias, out) ==
  LET t == PThr(k, bias)
  IN  IF q < t THEN Append(out, PDigit(q))
      ELSE PVar((q - t) \div (36 - t), k + 36, bias,
                Append(out, PDigit(t + ((q - t) % (36 - t)))))

MinFrom(s, n) ==
  LET big == SelectSeq(s, LAMBDA c : c >= n)
  IN  FoldLeft(LAMBDA a, c : IF c < a THEN c ELSE a, 2000000, big)

\* One pass over the input for code point n: state = [delta, bias, h, out].
PPass(s, n, b, st) ==
  FoldLeft(LAMBDA a, c :
     IF c < n THEN [a EXCEPT !.delta = @ + 1]
     ELSE IF c = n THEN
       [delta |-> 0,
        bias  |-> Adapt(a.delta, a.h + 1, a.h = b),
        h     |-> a.h + 1,
        out   |-> PVar(a.delta, 36, a.bias, a.out)]
     ELSE a, st, s)

RECURSIVE PEnc(_, _, _, _)
PEnc(s, n, b, st) ==
  IF st.h >= Len(s) THEN st.out
  ELSE LET m  == MinFrom(s, n)
           st1 == [st EXCEPT !.delta = @ + (m - n) * (st.h + 1)]
           st2 == PPass(s, m, b, st1)
       IN  PEnc(s, m + 1, b, [st2 EXCEPT !.delta = @ + 1])

PunyEncode(s) ==
  LET basic == SelectSeq(s, LAMBDA c : c < 128)
      b == Len(basic)
      out0 == IF b > 0 THEN Append(basic, cDASH) ELSE <<>>
  IN  PEnc(s, 128, b, [delta |-> 0, bias |-> 72, h |-> b, out |-> out0])

\* Decoding: <<>> on failure, <<label>> otherwise.
PDigVal(c) == IF IsDigit(c) THEN c - 22 ELSE IF IsLower(c) THEN c - 97 ELSE -1

RECURSIVE PInt(_, _, _, _, _, _)
PInt(s, i, w, k, bias, acc) ==      \* returns <<newIndex, acc>>, <<0,0>> = bad
  IF i > Len(s) THEN <<0, 0>>
  ELSE LET d == PDigVal(s[i]) t == PThr(k, bias)
       IN  IF d < 0 \/ acc > 40000000 \/ w > 20000000 THEN <<0, 0>>
           ELSE IF d < t THEN <<i + 1, acc + d * w>>
           ELSE PInt(s, i + 1, w * (36 - t), k + 36, bias, acc + d * w)

RECURSIVE PDec(_, _, _, _, _, _)
PDec(s, i, n, pos, bias, out) ==
  IF i > Len(s) THEN <<out>>
  ELSE LET r == PInt(s, i, 1, 36, bias, pos)
           np == Len(out) + 1
           n2 == n + (r[2] \div np)
           p2 == r[2] % np
       IN  IF r[1] = 0 \/ n2 > 1114111 \/ n2 < 128 THEN <<>>
           ELSE PDec(s, r[1], n2, p2 + 1, Adapt(r[2] - pos, np, pos = 0),
                     SubSeq(out, 1, p2) \o <<n2>> \o SubSeq(out, p2 + 1, Len(out)))

PunyDecode(s) ==
  LET d == SelectLastInSeq(s, LAMBDA c : c = cDASH)
      basic == IF d > 1 THEN SubSeq(s, 1, d - 1) ELSE <<>>
      start == IF d > 0 THEN d + 1 ELSE 1
  IN  PDec(s, start, 128, 0, 72, basic)

ACE == S("xn--")
IsAce(l) == StartsWithAt(l, 1, ACE)

(*------------------------------ Bidi rule ---------------------------------*)
BidiClass(c) ==
  IF c \in ValidR THEN "R"
  ELSE IF IsDigit(c) THEN "EN"
  ELSE IF IsAlpha(c) THEN "L"
  ELSE IF c \in {43, 45} THEN "ES"
  ELSE IF c \in {35, 36, 37, 176} THEN "ET"
  ELSE IF c \in {44, 46, 47, 58} THEN "CS"
  ELSE IF c \in {9731, 127752, 128169} THEN "ON"
  ELSE IF c \in (9..13) \cup (28..32) THEN "WS"        \* B, S and WS
  ELSE IF c < 32 \/ c = 127 THEN "BN"
  ELSE IF c < 128 THEN "ON"
  ELSE "L"

LabelBidiOk(l) ==
  IF Len(l) = 0 THEN TRUE
  ELSE LET cls == Force([i \in 1..Len(l) |-> BidiClass(l[i])])
           used == {cls[i] : i \in 1..Len(l)}
       IN  IF cls[1] = "R"
           THEN /\ used \subseteq {"R", "EN", "ES", "CS", "ET", "ON", "BN"}
                /\ cls[Len(l)] \in {"R", "EN"}
           ELSE IF cls[1] = "L"
           THEN /\ used \subseteq {"L", "EN", "ES", "CS", "ET", "ON", "BN"}
                /\ cls[Len(l)] \in {"L", "EN"}
           ELSE FALSE

(*------------------------------ processing --------------------------------*)
\* Result: known (FALSE: outside what the specification models), bad (a
\* recorded error other than hyphens and DNS length), a (the result), len (a
\* DNS length error), u (the ToUnicode result).
DecodeLabel(l) == IF IsAce(l) THEN PunyDecode(SubSeq(l, 5, Len(l))) ELSE <<l>>

LabelKnown(l) == \A i \in 1..Len(l) : l[i] < 128 \/ l[i] \in KnownCP

Process(d, strict) ==
  LET m      == MapDomain(d)
      labels == Split(m, cDOT)
      n      == Len(labels)
      dec    == Force([i \in 1..n |-> DecodeLabel(labels[i])])
      okDec  == \A i \in 1..n : Len(dec[i]) = 1
      un     == Force([i \in 1..n |-> IF Len(dec[i]) = 1 THEN dec[i][1] ELSE <<>>])
      \* (ICU refuses to convert very long labels: the environment's answer)
      known  == /\ Len(d) <= 400
                /\ \A i \in 1..Len(d) : d[i] < 128 \/ d[i] \in KnownCP
                /\ \A i \in 1..n : LabelKnown(un[i])
                /\ \A i \in 1..n : IsAce(labels[i]) =>
                     /\ AllAscii(labels[i])
                     /\ ~AllAscii(un[i])
      aceBad(i) == IsAce(labels[i]) /\
                     \/ MapDomain(un[i]) # un[i]
                     \/ PunyEncode(un[i]) # SubSeq(labels[i], 5, Len(labels[i]))
      badC(c) == \/ c \in Disallowed \/ c \in Joiners
                 \/ strict /\ c < 128 /\ c \notin StdLetters
      bidi   == \E i \in 1..n : \E k \in 1..Len(un[i]) : un[i][k] \in ValidR
      bad    == \/ ~okDec
                \/ \E i \in 1..n : aceBad(i)
                \/ \E i \in 1..n : \E k \in 1..Len(un[i]) : badC(un[i][k])
                \/ bidi /\ \E i \in 1..n : ~LabelBidiOk(un[i])
      asc    == Force([i \in 1..n |-> IF AllAscii(un[i]) THEN un[i]
                                      ELSE ACE \o PunyEncode(un[i])])
      a      == Join(asc, <<cDOT>>)
      lenBad == \/ \E i \in 1..n : Len(asc[i]) > 63
                \/ \E i \in 1..n : Len(asc[i]) = 0 /\ ~(i = n /\ n > 1)
                \/ Len(a) > (IF n > 1 /\ Len(asc[n]) = 0 THEN 254 ELSE 253)
  IN  [known |-> known, bad |-> bad, a |-> a, len |-> lenBad,
       u |-> Join(un, <<cDOT>>)]

\* Fast path: plain ASCII without an ACE label.
PlainAscii(d) == AllAscii(d) /\
                 ~\E i \in 1..(Len(d) - 3) : LowerC(d[i]) = 120 /\ d[i+2] = 45 /\ d[i+3] = 45
                     /\ LowerC(d[i + 1]) = 110

EnvLookup(env, d, strict) ==
  SelectSeq(env, LAMBDA r : r.d = d /\ r.strict = strict)

\* domain to ASCII: st = "ok" | "fail" | "refuse" (the environment cannot do
\* it) | "unknown".
DomainToASCII(d0, strict, env) ==
  LET d == Norm(d0) IN
  IF PlainAscii(d) /\ ~strict
  THEN IF Len(d) = 0 THEN [st |-> "fail", a |-> <<>>]
       ELSE [st |-> "ok", a |-> Lower(d)]
  ELSE LET hit == EnvLookup(env, d, strict) IN
       IF Len(hit) > 0
       THEN [st |-> IF hit[1].refuse THEN "refuse"
                    ELSE IF hit[1].bad \/ (strict /\ hit[1].len) \/ Len(hit[1].a) = 0
                    THEN "fail" ELSE "ok",
             a |-> hit[1].a]
       ELSE LET p == Process(d, strict) IN
            [st |-> IF ~p.known THEN "unknown"
                    ELSE IF p.bad \/ (strict /\ p.len) \/ Len(p.a) = 0
                    THEN "fail" ELSE "ok",
             a |-> p.a]

\* domain to Unicode: [known, bad, u].  Hyphen and DNS-length problems are not
\* errors; bad means the processing recorded another error.
DomainToUnicode(d0, strict, env) ==
  LET d == Norm(d0)
      hit == EnvLookup(env, d, strict) IN
  IF Len(hit) > 0
  THEN [known |-> TRUE, bad |-> hit[1].ubad, u |-> hit[1].u]
  ELSE LET p == Process(d, strict)
       IN  [known |-> p.known, bad |-> p.bad, u |-> p.u]
=============================================================================
