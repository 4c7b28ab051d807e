-------------------------------- MODULE Host --------------------------------
(***************************************************************************)
(* Hosts: IPv4 and IPv6 parsers and serializers, opaque hosts, the host    *)
(* parser.  A host is [k, v]: k = "none" (null), "str" (domain, opaque or  *)
(* empty host; v is the text), "v4" (v = <<high 16 bits, low 16 bits>>) or *)
(* "v6" (v = eight 16-bit pieces).                                         *)
(***************************************************************************)
EXTENDS Idna

NullHost == [k |-> "none", v |-> <<>>]
StrHost(s) == [k |-> "str", v |-> s]
EmptyHost == StrHost(<<>>)

ForbiddenHost   == {0, 9, 10, 13} \cup SetOf(" #/:<>?@[\\]^|")
ForbiddenDomain == ForbiddenHost \cup (0..31) \cup {37, 127}

(*------------------------------ IPv4 --------------------------------------*)
\* The IPv4 number parser.  [ok, err (non-decimal), n = <<hi, lo>>]; hi
\* saturates at 2^24, far above every limit that is compared with it.
Num(s, r) ==
  FoldLeft(LAMBDA a, c :
     LET lo == a[2] * r + HexVal(c)
         hi == a[1] * r + (lo \div 65536)
     IN  <<IF hi > 16777216 THEN 16777216 ELSE hi, lo % 65536>>, <<0, 0>>, s)

DigitOk(c, r) == CASE r = 10 -> IsDigit(c)
                   [] r = 8  -> c >= 48 /\ c <= 55
                   [] r = 16 -> IsHex(c)

IPv4Number(s) ==
  IF Len(s) = 0 THEN [ok |-> FALSE, err |-> FALSE, n |-> <<0, 0>>]
  ELSE LET r == IF Len(s) >= 2 /\ s[1] = 48 /\ s[2] \in {120, 88} THEN 16
                ELSE IF Len(s) >= 2 /\ s[1] = 48 THEN 8 ELSE 10
           d == IF r = 16 THEN From(s, 3) ELSE IF r = 8 THEN From(s, 2) ELSE s
       IN  IF Len(d) = 0 THEN [ok |-> TRUE, err |-> TRUE, n |-> <<0, 0>>]
           ELSE IF \E i \in 1..Len(d) : ~DigitOk(d[i], r)
           THEN [ok |-> FALSE, err |-> TRUE, n |-> <<0, 0>>]
           ELSE [ok |-> TRUE, err |-> r # 10, n |-> Num(d, r)]

EndsInNumber(s) ==
  LET parts0 == Split(s, cDOT)
      n0 == Len(parts0)
  IN  IF Len(parts0[n0]) = 0 /\ n0 = 1 THEN FALSE
      ELSE LET last == IF Len(parts0[n0]) = 0 THEN parts0[n0 - 1] ELSE parts0[n0]
           IN  \/ Len(last) > 0 /\ \A i \in 1..Len(last) : IsDigit(last[i])
               \/ IPv4Number(last).ok

\* Host parser results: [ok, h, errs, fail, known].
HOk(h, errs) == [ok |-> TRUE, h |-> h, errs |-> errs, fail |-> "", known |-> TRUE]
HFail(cls, errs) == [ok |-> FALSE, h |-> NullHost, errs |-> errs, fail |-> cls,
                     known |-> TRUE]
\* The specification needs the environment's answer for domain d.
HUnknown(d) == [ok |-> FALSE, h |-> NullHost, errs |-> <<d>>, fail |-> "unknown",
                known |-> FALSE]

IPv4Parse(s) ==
  LET parts0 == Split(s, cDOT)
      n0 == Len(parts0)
      e0 == IF Len(parts0[n0]) = 0 THEN <<"IPv4-empty-part">> ELSE <<>>
      parts == IF Len(parts0[n0]) = 0 /\ n0 > 1 THEN SubSeq(parts0, 1, n0 - 1)
               ELSE parts0
      n == Len(parts)
  IN  IF n > 4 THEN HFail("IPv4AddressParseError", Append(e0, "IPv4-too-many-parts"))
      ELSE
      LET nums == Force([i \in 1..n |-> IPv4Number(parts[i])])
          firstBad == SelectInSeq(nums, LAMBDA x : ~x.ok)
          upto == IF firstBad = 0 THEN n ELSE firstBad - 1
          e1 == e0 \o Copies("IPv4-non-decimal-part",
                 FoldLeft(LAMBDA a, x : IF x.err THEN a + 1 ELSE a, 0,
                          SubSeq(nums, 1, upto)))
          over(x) == x.n[1] > 0 \/ x.n[2] > 255
          e2 == IF \E i \in 1..n : over(nums[i])
                THEN Append(e1, "IPv4-out-of-range-part") ELSE e1
          last == nums[n].n
          lastTooBig == CASE n = 1 -> last[1] > 65535
                          [] n = 2 -> last[1] > 255
                          [] n = 3 -> last[1] > 0
                          [] n = 4 -> last[1] > 0 \/ last[2] > 255
      IN  IF firstBad # 0
          THEN HFail("IPv4AddressParseError", Append(e1, "IPv4-non-numeric-part"))
          ELSE IF \E i \in 1..(n - 1) : over(nums[i])
          THEN HFail("IPv4AddressParseError", Append(e2, "undefined"))
          ELSE IF lastTooBig
          THEN HFail("IPv4AddressParseError", Append(e2, "undefined"))
          ELSE LET b(i) == IF i < n THEN nums[i].n[2] ELSE 0
                   hi == b(1) * 256 + (IF n > 1 THEN b(2) ELSE 0) + last[1]
                   lo == (IF n > 2 THEN b(3) * 256 ELSE 0) + last[2]
               IN  HOk([k |-> "v4", v |-> <<hi, lo>>], e2)

IPv4Ser(v) ==
  DecDigits(v[1] \div 256) \o <<cDOT>> \o DecDigits(v[1] % 256) \o <<cDOT>>
  \o DecDigits(v[2] \div 256) \o <<cDOT>> \o DecDigits(v[2] % 256)

(*------------------------------ IPv6 --------------------------------------*)
\* The pointer machine of the standard.  State: p pointer, n pieceIndex,
\* comp compress (0 = null, otherwise pieceIndex + 1), a pieces.
SetPiece(a, n, v) == [a EXCEPT ![n + 1] = v]

RECURSIVE V6Hex(_, _, _, _)
V6Hex(s, p, len, val) ==
  IF len < 4 /\ p <= Len(s) /\ IsHex(s[p])
  THEN V6Hex(s, p + 1, len + 1, val * 16 + HexVal(s[p]))
  ELSE <<p, len, val>>

V6Fail(m, e) == [m EXCEPT !.done = TRUE, !.fail = e]

RECURSIVE V6Dec(_, _, _)
V6Dec(s, p, val) ==        \* one decimal IPv4 piece: <<p, value, error>>; -1 null
  IF p <= Len(s) /\ IsDigit(s[p]) THEN
    LET number == s[p] - 48
    IN  IF val = -1 THEN V6Dec(s, p + 1, number)
        ELSE IF val = 0 THEN <<p, 0, "IPv4-in-IPv6-invalid-code-point">>
        ELSE IF val * 10 + number > 255
        THEN <<p, 0, "IPv4-in-IPv6-out-of-range-part">>
        ELSE V6Dec(s, p + 1, val * 10 + number)
  ELSE <<p, val, "">>

RECURSIVE V6V4(_, _, _)
V6V4(s, m, seen) ==        \* the embedded IPv4 loop
  IF m.p > Len(s) THEN
    IF seen # 4 THEN V6Fail(m, "IPv4-in-IPv6-too-few-parts")
    ELSE [m EXCEPT !.done = TRUE]
  ELSE
    LET dotOk == seen > 0 /\ s[m.p] = cDOT /\ seen < 4
        p1 == IF seen > 0 THEN m.p + 1 ELSE m.p
    IN  IF seen > 0 /\ ~dotOk THEN V6Fail(m, "IPv4-in-IPv6-invalid-code-point")
        ELSE IF p1 > Len(s) \/ ~IsDigit(s[p1])
        THEN V6Fail(m, "IPv4-in-IPv6-invalid-code-point")
        ELSE LET r == V6Dec(s, p1, -1)
             IN  IF r[3] # "" THEN V6Fail(m, r[3])
                 ELSE V6V4(s,
                   [m EXCEPT !.p = r[1],
                             !.a = SetPiece(m.a, m.n, m.a[m.n + 1] * 256 + r[2]),
                             !.n = IF seen + 1 \in {2, 4} THEN m.n + 1 ELSE m.n],
                   seen + 1)

\* One iteration of the main loop.
V6Step(s, m) ==
  IF m.p > Len(s) THEN [m EXCEPT !.done = TRUE]
  ELSE IF m.n = 8 THEN V6Fail(m, "IPv6-too-many-pieces")
  ELSE IF s[m.p] = cCOLON THEN
    IF m.comp # 0 THEN V6Fail(m, "IPv6-multiple-compression")
    ELSE [m EXCEPT !.p = @ + 1, !.n = @ + 1, !.comp = m.n + 2]
  ELSE
    LET h == V6Hex(s, m.p, 0, 0)
        p == h[1] c == Ch(s, p)
    IN  IF c = cDOT THEN
          IF h[2] = 0 THEN V6Fail(m, "IPv4-in-IPv6-invalid-code-point")
          ELSE IF m.n > 6 THEN V6Fail(m, "IPv4-in-IPv6-too-many-pieces")
          ELSE V6V4(s, m, 0)
        ELSE IF c = cCOLON /\ p = Len(s) THEN V6Fail(m, "IPv6-invalid-code-point")
        ELSE IF c # cCOLON /\ c # EOFC THEN V6Fail(m, "IPv6-invalid-code-point")
        ELSE [m EXCEPT !.p = IF c = cCOLON THEN p + 1 ELSE p,
                       !.a = SetPiece(m.a, m.n, h[3]), !.n = @ + 1]

RECURSIVE V6Run(_, _)
V6Run(s, m) == IF m.done THEN m ELSE V6Run(s, V6Step(s, m))

V6Start == [p |-> 1, n |-> 0, comp |-> 0, a |-> <<0,0,0,0,0,0,0,0>>,
            done |-> FALSE, fail |-> ""]

\* Move the pieces after the compression point to the end.
V6Expand(m) ==
  LET c == m.comp - 1                  \* pieceIndex where zeros start
      tail == m.n - c                  \* pieces after it
  IN  [i \in 1..8 |-> IF i <= c THEN m.a[i]
                      ELSE IF i > 8 - tail THEN m.a[c + i - (8 - tail)]
                      ELSE 0]

IPv6Parse(s) ==
  LET bad0 == Ch(s, 1) = cCOLON /\ Ch(s, 2) # cCOLON
      m0 == IF Ch(s, 1) = cCOLON THEN [V6Start EXCEPT !.p = 3, !.n = 1, !.comp = 2]
            ELSE V6Start
      m == V6Run(s, m0)
      F(e) == HFail("IPv6AddressParseError", <<e>>)
  IN  IF bad0 THEN F("IPv6-invalid-compression")
      ELSE IF m.fail # "" THEN F(m.fail)
      ELSE IF m.comp # 0 THEN HOk([k |-> "v6", v |-> Force(V6Expand(m))], <<>>)
      ELSE IF m.n # 8 THEN F("IPv6-too-few-pieces")
      ELSE HOk([k |-> "v6", v |-> m.a], <<>>)

\* Serializer: the first longest run of at least two zero pieces is "::".
ZeroRun(v, i) == IF v[i] # 0 THEN 0
                 ELSE CHOOSE n \in 1..(9 - i) :
                        /\ \A k \in i..(i + n - 1) : v[k] = 0
                        /\ i + n = 9 \/ v[i + n] # 0
CompressAt(v) ==
  LET runs == [i \in 1..8 |-> ZeroRun(v, i)]
      best == CHOOSE m \in 0..8 : (\E i \in 1..8 : runs[i] = m)
                                   /\ \A i \in 1..8 : runs[i] <= m
  IN  IF best < 2 THEN <<0, 0>>
      ELSE <<CHOOSE i \in 1..8 : runs[i] = best /\ \A k \in 1..(i-1) : runs[k] < best,
             best>>
Pieces(v, i, j) == IF j < i THEN <<>>
                   ELSE Join([k \in 1..(j - i + 1) |-> HexDigits(v[i + k - 1])],
                             <<cCOLON>>)
IPv6Ser(v) ==
  LET c == CompressAt(v)
  IN  IF c[1] = 0 THEN Pieces(v, 1, 8)
      ELSE Pieces(v, 1, c[1] - 1) \o <<cCOLON, cCOLON>>
           \o Pieces(v, c[1] + c[2], 8)

(*------------------------------ host parser -------------------------------*)
OpaqueHostParse(s) ==
  IF \E i \in 1..Len(s) : s[i] \in ForbiddenHost
  THEN HFail("HostParseError", <<"host-invalid-code-point">>)
  ELSE \* at most one error for code points and one for percent signs
       HOk(StrHost(PctEnc(s, C0Set)),
           (IF \E i \in 1..Len(s) : ~(s[i] = cPCT \/ IsUrlCodePoint(s[i]))
            THEN <<"invalid-URL-unit">> ELSE <<>>)
           \o (IF \E i \in 1..Len(s) : BadPercentAt(s, i) THEN <<"invalid-URL-unit">> ELSE <<>>))

HostParse(s, notSpecial, env) ==
  IF Len(s) = 0 THEN HOk(EmptyHost, <<>>)
  ELSE IF s[1] = cLB THEN
    IF s[Len(s)] # cRB THEN HFail("IPv6AddressParseError", <<"IPv6-unclosed">>)
    ELSE IPv6Parse(SubSeq(s, 2, Len(s) - 1))
  ELSE IF notSpecial THEN OpaqueHostParse(s)
  ELSE
    LET domain == Utf8Decode(StringPercentDecode(s))
        r == DomainToASCII(domain, FALSE, env)
    IN  IF r.st = "unknown" THEN HUnknown(domain)
        ELSE IF r.st = "refuse" THEN HFail("IDNAError", <<"domain-to-ASCII">>)
        ELSE IF r.st = "fail" THEN HFail("HostParseError", <<"domain-to-ASCII">>)
        ELSE IF \E i \in 1..Len(r.a) : r.a[i] \in ForbiddenDomain
        THEN HFail("HostParseError", <<"domain-invalid-code-point">>)
        ELSE IF EndsInNumber(r.a) THEN IPv4Parse(r.a)
        ELSE HOk(StrHost(r.a), <<>>)

HostSer(h) == CASE h.k = "none" -> <<>>
                [] h.k = "str" -> h.v
                [] h.k = "v4" -> IPv4Ser(h.v)
                [] h.k = "v6" -> <<cLB>> \o IPv6Ser(h.v) \o <<cRB>>

(* Everything that can be wrong with an IPv6 address. *)
IPv6Errors == {"IPv6-unclosed", "IPv6-invalid-compression", "IPv6-too-many-pieces",
               "IPv6-multiple-compression", "IPv6-invalid-code-point",
               "IPv6-too-few-pieces", "IPv4-in-IPv6-too-many-pieces",
               "IPv4-in-IPv6-invalid-code-point", "IPv4-in-IPv6-out-of-range-part",
               "IPv4-in-IPv6-too-few-parts"}
=============================================================================
