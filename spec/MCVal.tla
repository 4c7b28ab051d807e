-------------------------------- MODULE MCVal --------------------------------
(***************************************************************************)
(* A validity state passed to one call after the other: every sequence of  *)
(* at most Depth calls of a pool that has, for every entry point, calls    *)
(* that report nothing, something and that fail.                           *)
(***************************************************************************)
EXTENDS Wf, Json

CONSTANTS Depth, Emit

Reg == {sHttp, sHttps, sFile, sFtp, sWs, sWss}
U(f, s, b) == [f |-> f, s |-> S(s), base |-> b]
Hp(s, ns) == [f |-> "host", s |-> S(s), ns |-> ns]
Hv(fn, s) == [f |-> "hval", fn |-> fn, s |-> S(s)]
Rec(s) == BasicParse(S(s), <<>>, "utf-8", <<>>).url
Urls == <<"http://h/", " http:h/%", "foo:x|", "http://h:x/", "x">>
Pool ==
  {U("parse", Urls[k], <<>>) : k \in 1..Len(Urls)} \cup {U("can", Urls[k], <<>>) : k \in 1..Len(Urls)}
  \cup {U("valid", Urls[k], <<>>) : k \in 1..Len(Urls)}
  \cup {U(f, "a b", <<S("http:/h ")>>) : f \in {"parse", "can", "valid"}}
  \cup {Hp("h", FALSE), Hp("0x1.", FALSE), Hp("a%", TRUE), Hp("[1]", TRUE), Hp("a b", FALSE)}
  \cup {Hv("host", "h"), Hv("host", "1.2.3"), Hv("host", "[::]"), Hv("host", "[:]"), Hv("domain", "a"), Hv("domain", "a_"),
        Hv("v4", "1.2.3.4"), Hv("v4", "1.2.3.04"), Hv("v6", "::1"), Hv("v6", "1"), Hv("opaque", "a"), Hv("opaque", "%"),
        Hv("opaque", "[1]"), Hv("scheme", "http"), Hv("scheme", "foo")}
  \cup {[f |-> "ovr", s |-> S(s), rec |-> Rec("http://h/p"), st |-> "port"] : s \in {"8", "x", "99999"}}

VARIABLES mvHeld, mvEv
vars == <<mvHeld, mvEv>>
Ask(held, e) == VsCall(held, e, Reg, <<>>)
Init == mvHeld = <<>> /\ mvEv = <<>>
Next == /\ Len(mvEv) < Depth
        /\ \E e \in Pool :
             LET r == Ask(mvHeld, e) IN
             /\ mvEv' = Append(mvEv, [c |-> e, ok |-> r.ok, held |-> r.held])
             /\ mvHeld' = r.held
        /\ (Emit /\ Len(mvEv') = Depth) => PrintT("BEHAVIOUR " \o ToJson([k |-> "vs",
              ev |-> [i \in 1..Len(mvEv') |-> mvEv'[i].c],
              exp |-> [ok |-> [i \in 1..Len(mvEv') |-> mvEv'[i].ok], held |-> [i \in 1..Len(mvEv') |-> mvEv'[i].held]]]))
Spec == Init /\ [][Next]_vars

(*------------------------------- properties -------------------------------*)
LastCall == mvEv[Len(mvEv)].c
Before == IF Len(mvEv) < 2 THEN <<>> ELSE mvEv[Len(mvEv) - 1].held
Fresh == Ask(<<>>, LastCall)
\* The answer never depends on what the state held.
InvAnswer == Len(mvEv) > 0 => mvEv[Len(mvEv)].ok = Fresh.ok
\* A validator leaves the errors of its own call only; a parse adds its own.
InvHeld == Len(mvEv) > 0 =>
  mvHeld = (IF LastCall.f \in {"can", "valid", "hval"} THEN <<>> ELSE Before) \o Fresh.held
\* Valid means nothing held.
InvValid == Len(mvEv) > 0 /\ LastCall.f \in {"valid", "hval"} => (mvHeld = <<>>) = mvEv[Len(mvEv)].ok
InvFails == Len(mvEv) > 0 /\ ~mvEv[Len(mvEv)].ok => Len(Fresh.held) > 0
=============================================================================
