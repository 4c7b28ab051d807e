-------------------------------- MODULE MCHost --------------------------------
(***************************************************************************)
(* Hosts: every sequence of at most Depth tokens of the mode's alphabet    *)
(* goes through the host parser (special and not), the serializer and the  *)
(* validators.                                                             *)
(***************************************************************************)
EXTENDS Wf, Json

CONSTANTS Mode, Depth, Emit

Toks(strs) == {S(strs[k]) : k \in 1..Len(strs)}
V4Tokens == Toks(<<"0", "1", "9", "x", "X", "f", ".", "255", "256", "08", "4294967295", "4294967296", "65536">>)
V6Tokens == Toks(<<":", "::", "0", "1", "ffff", "F", ".", "255", "256", "g", "1:2:3:", "0:0:">>)
DomTokens == Toks(<<"a", "B", ".", "-", "%41", "%2e", "%", "%00", "1", "0x", " ", "/", "xn--", "_", "<", "%C3%A9">>)
             \cup {<<233>>, <<8490>>, <<173>>, <<65294>>, <<1488>>, <<12290>>, <<55356>>}
IdnTokens == {<<97>>, <<66>>, <<46>>, <<45>>, <<49>>, <<233>>, <<201>>, <<223>>, <<1488>>, <<8204>>, <<65297>>,
              <<12290>>, <<173>>, <<26085>>, <<65533>>, <<120, 110, 45, 45>>, <<57, 99, 97>>, <<95>>, <<32>>}
OpqTokens == Toks(<<"a", "A", ".", "%", "4", "g", " ", "^", "|", "<", "\t", "[", "]", "'", "\\", "~">>)
             \cup {<<233>>, <<55356>>, <<0>>, <<127>>}
Tokens == CASE Mode = "v4" -> V4Tokens [] Mode = "v6" -> V6Tokens [] Mode = "dom" -> DomTokens
            [] Mode = "idn" -> IdnTokens [] Mode = "opq" -> OpqTokens
Wrap(s) == IF Mode = "v6" THEN <<cLB>> \o s \o <<cRB>> ELSE s

VARIABLES mhS, mhN
vars == <<mhS, mhN>>

Exp(r) == [ok |-> r.ok, cls |-> IF r.ok THEN "" ELSE r.fail, errs |-> r.errs, log |-> LogOf(r.errs, ~r.ok),
           h |-> IF r.ok THEN r.h ELSE NullHost, ser |-> IF r.ok THEN HostSer(r.h) ELSE <<>>]
Valid(s) ==
  [host |-> HostErr(s, <<>>), domain |-> DomainErr(s, <<>>), v4 |-> [known |-> TRUE, errs |-> IPv4StrictErr(s)],
   v6 |-> [known |-> TRUE, errs |-> IPv6Parse(s).errs], opaque |-> [known |-> TRUE, errs |-> OpaqueErr(s)]]
Fns == CASE Mode = "v4" -> <<"host", "v4">> [] Mode = "v6" -> <<"v6", "opaque">> [] Mode = "dom" -> <<"host", "domain">>
         [] Mode = "idn" -> <<"domain">> [] Mode = "opq" -> <<"opaque">>
ValidFn(s, fn) == CASE fn = "host" -> HostErr(s, <<>>) [] fn = "domain" -> DomainErr(s, <<>>)
                    [] fn = "v4" -> [known |-> TRUE, errs |-> IPv4StrictErr(s)]
                    [] fn = "v6" -> [known |-> TRUE, errs |-> IPv6Parse(s).errs]
                    [] fn = "opaque" -> [known |-> TRUE, errs |-> OpaqueErr(s)]

EmitAll(s) ==
  LET w == Wrap(s)
      a == HostParse(w, FALSE, <<>>)
      b == HostParse(w, TRUE, <<>>)
      d == DomainToASCII(s, FALSE, <<>>)
      u == DomainToUnicode(s, FALSE, <<>>)
      one(k, x) == PrintT("BEHAVIOUR " \o ToJson([k |-> k] @@ x))
  IN  /\ a.known => one("host", [s |-> w, ns |-> FALSE, exp |-> Exp(a)])
      /\ (b.known /\ Mode \in {"v6", "opq"}) => one("host", [s |-> w, ns |-> TRUE, exp |-> Exp(b)])
      /\ (Mode = "idn" /\ d.st # "unknown" /\ u.known) =>
           one("idna", [d |-> s, strict |-> FALSE,
                        exp |-> [ok |-> d.st = "ok", a |-> IF d.st = "ok" THEN d.a ELSE <<>>,
                                 ubad |-> u.bad, u |-> u.u]])
      /\ \A i \in 1..Len(Fns) :
           LET v == ValidFn(s, Fns[i]) IN
           v.known => one("hval", [fn |-> Fns[i], s |-> s,
                                   exp |-> [valid |-> Len(v.errs) = 0, errs |-> v.errs]])

Init == mhS = <<>> /\ mhN = 0
Next == /\ mhN < Depth
        /\ \E t \in Tokens : mhS' = mhS \o t
        /\ mhN' = mhN + 1
        /\ Emit => EmitAll(mhS')
Spec == Init /\ [][Next]_vars

(*------------------------------- properties -------------------------------*)
A == HostParse(Wrap(mhS), FALSE, <<>>)
Bo == HostParse(Wrap(mhS), TRUE, <<>>)
Url(sch, h) == [EmptyURL EXCEPT !.scheme = sch, !.host = h]
\* What comes out is a host of a well-formed URL ...
InvWf == /\ A.known /\ A.ok => HostOk(Url(sHttp, A.h))
         /\ Bo.known /\ Bo.ok => HostOk(Url(S("foo"), Bo.h))
\* ... whose serialization is that host again.
InvIdem == /\ A.known /\ A.ok =>
                LET r == HostParse(HostSer(A.h), FALSE, <<>>) IN ~r.known \/ (r.ok /\ r.h = A.h /\ r.errs = <<>>)
           /\ Bo.ok => LET r == HostParse(HostSer(Bo.h), TRUE, <<>>) IN r.ok /\ r.h = Bo.h
\* (Validity is of the string as written; a domain may still map to an IPv4 number.)
MapsToNumber(s) == LET d == DomainToASCII(s, FALSE, <<>>) IN
                   d.st = "ok" /\ EndsInNumber(d.a) /\ ~EndsInNumber(s)
\* A valid host string parses, without validation errors.
InvValid == /\ LET v == HostErr(Wrap(mhS), <<>>) IN
                 v.known /\ A.known /\ Len(v.errs) = 0 /\ Len(mhS) > 0 /\ ~HasC(mhS, cPCT) /\ ~MapsToNumber(mhS)
                   => A.ok /\ A.errs = <<>>
            /\ Len(OpaqueErr(Wrap(mhS))) = 0 => Bo.ok /\ Bo.errs = <<>>
            /\ Len(IPv4StrictErr(mhS)) = 0 => A.ok /\ A.h.k = "v4"
            /\ (Bo.ok /\ Bo.h.k = "v6") => Len(OpaqueErr(Wrap(mhS))) = 0
\* Failures say why.
InvFail == /\ A.known /\ ~A.ok => Len(A.errs) > 0 /\ A.fail # ""
           /\ ~Bo.ok => Len(Bo.errs) > 0 /\ Bo.fail # ""
\* Domain to ASCII is idempotent and its result is ASCII without upper case.
InvIdna == LET d == DomainToASCII(mhS, FALSE, <<>>) IN
  d.st = "ok" => /\ AllAscii(d.a) /\ \A i \in 1..Len(d.a) : ~IsUpper(d.a[i])
                 /\ LET e == DomainToASCII(d.a, FALSE, <<>>) IN e.st = "unknown" \/ (e.st = "ok" /\ e.a = d.a)
                 /\ LET w == DomainToUnicode(mhS, FALSE, <<>>) IN
                    w.known /\ ~w.bad =>
                      LET e == DomainToASCII(w.u, FALSE, <<>>) IN e.st = "unknown" \/ (e.st = "ok" /\ e.a = d.a)
=============================================================================
