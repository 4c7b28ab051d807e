------------------------------- MODULE MCCodec -------------------------------
(***************************************************************************)
(* The text codecs: application/x-www-form-urlencoded, percent-encoding    *)
(* with every encode set and encoding, percent-decoding and UTF-8, over    *)
(* every sequence of at most Depth tokens.                                 *)
(***************************************************************************)
EXTENDS Wf, Json

CONSTANTS Mode, Depth, Emit

\* Code points, or bytes in the modes "fdec" and "u8".
Texts == {<<c>> : c \in {97, 32, 38, 61, 43, 37, 126, 39, 42, 35, 63, 127, 233, 8364, 55356, 57096, 128169, 0}}
         \cup {S("%41"), S("%C3")}
Encodings == <<"utf-8", "windows-1252", "koi8-r", "shift_jis", "gb18030", "us-ascii">>
EncTexts == {<<c>> : c \in {97, 32, 38, 37, 39, 35, 34, 92, 126, 233, 8364, 1103, 12477, 26085, 127752, 55356}}
Bytes == {<<b>> : b \in {97, 38, 61, 43, 37, 52, 195, 169, 226, 130, 172, 255}}
Utf8Bytes == {<<b>> : b \in {65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 237, 239,
                             240, 241, 244, 245, 255}}
Pcts == {S("%"), S("4"), S("f"), S("G"), S("+"), S("%41"), S("%C3%A9"), <<233>>, <<55356>>}
        
Tokens == CASE Mode = "form" -> Texts [] Mode = "enc" -> EncTexts [] Mode = "fdec" -> Bytes
            [] Mode = "u8" -> Utf8Bytes [] Mode = "dec" -> Pcts [] Mode = "set" -> Texts

VARIABLES mcS, mcN
vars == <<mcS, mcN>>
one(x) == PrintT("BEHAVIOUR " \o ToJson(x))
Pairs(s) == <<<<s, S("x")>>, <<S("y"), s>>>>

Schemes == <<"http://h/", "wss://h/", "foo://h/", "foo:x", "file:///">>
EmitAll(s) ==
  CASE Mode = "form" -> /\ one([k |-> "fenc", ps |-> Pairs(s), enc |-> "utf-8", exp |-> FormEncode(Pairs(s), "utf-8")])
                        /\ one([k |-> "frt", ps |-> Pairs(s), exp |-> ListOfPairs(Pairs(s))])
    [] Mode = "enc" -> \A i \in 1..Len(Encodings) :
          ~OutsideTables(s, Encodings[i]) =>
            /\ one([k |-> "fenc", ps |-> Pairs(s), enc |-> Encodings[i], exp |-> FormEncode(Pairs(s), Encodings[i])])
            /\ \A q \in 1..Len(Schemes) :
                 LET full == S(Schemes[q]) \o <<cQ>> \o s
                     m == BasicParse(full, <<>>, Encodings[i], <<>>)
                 IN  one([k |-> "parse", s |-> full, base |-> <<>>, enc |-> Encodings[i],
                          exp |-> [ok |-> TRUE, rec |-> m.url, href |-> Href(m.url)]])
    [] Mode = "fdec" -> one([k |-> "fdec", b |-> s, exp |-> FormDecode(s)])
    [] Mode = "u8" -> one([k |-> "u8d", b |-> s, exp |-> Utf8Decode(s)])
    [] Mode = "dec" -> one([k |-> "dec", s |-> s, exp |-> StringPercentDecode(s)])
    [] Mode = "set" ->
         /\ one([k |-> "u8e", s |-> s, exp |-> Utf8Encode(s)])
         /\ \A q \in 1..Len(Schemes) : \A f \in 1..3 :
              LET full == S(Schemes[q]) \o <<<<>>, <<cQ>>, <<cHASH>>>>[f] \o s
                  m == BasicParse(full, <<>>, "utf-8", <<>>)
              IN  m.st = "done" => one([k |-> "parse", s |-> full, base |-> <<>>, enc |-> "utf-8",
                                        exp |-> [ok |-> TRUE, rec |-> m.url, href |-> Href(m.url)]])

Init == mcS = <<>> /\ mcN = 0
Next == /\ mcN < Depth
        /\ \E t \in Tokens : mcS' = mcS \o t
        /\ mcN' = mcN + 1
        /\ Emit => EmitAll(mcS')
Spec == Init /\ [][Next]_vars

(*------------------------------- properties -------------------------------*)
IsText == Mode \in {"form", "enc", "set", "dec"}
\* Nothing is lost: decoding what was encoded gives the text back.
InvFormRoundTrip == IsText => FormDecode(FormEncode(Pairs(mcS), "utf-8")) = ListOfPairs(Pairs(mcS))
InvPctRoundTrip == IsText =>
  Utf8Decode(StringPercentDecode(PctEnc(mcS, ComponentSet))) = Norm(mcS)
\* The output of every encoder is ASCII outside its set, and encoding twice
\* with a set that does not contain % changes nothing.
Named == {C0Set, FragmentSet, QuerySet, SpQuerySet, PathSet, UserinfoSet}
InvAlphabet == IsText =>
  /\ \A set \in Named : /\ Avoids(PctEnc(mcS, set), set)
                        /\ PctEnc(PctEnc(mcS, set), set) = PctEnc(mcS, set)
  /\ \A i \in 1..Len(Encodings) : Mode = "enc" =>
       /\ Avoids(PctEncWith(mcS, SpQuerySet, Encodings[i]), SpQuerySet)
       /\ LET e == FormEncStr(mcS, Encodings[i]) IN
          \A k \in 1..Len(e) : IsAlnum(e[k]) \/ e[k] \in {42, 45, 46, 95, 43, 37}
\* Decoding is total and yields scalar values.
InvDecode == Mode \in {"fdec", "u8"} =>
  LET d == Utf8Decode(mcS) IN /\ \A i \in 1..Len(d) : ~IsSurrogate(d[i]) /\ d[i] <= 1114111
                              /\ Utf8Decode(Utf8Encode(d)) = d
                              /\ WfList(FormDecode(mcS))
=============================================================================
