-------------------------------- MODULE MCOver --------------------------------
(***************************************************************************)
(* The parser started in a given state on an existing record, for every    *)
(* start state the API setters use, every record of a pool and every       *)
(* sequence of at most Depth tokens.  One transition per parser action.    *)
(***************************************************************************)
EXTENDS Wf, Json

CONSTANTS Depth, Emit

Toks(strs) == {S(strs[k]) : k \in 1..Len(strs)}
Tokens == Toks(<<"h", "http", "file", "foo", ":", "8", "80", "/", "\\", "?", "#", "@", "..", "C|", "[::1]", " ", "\t",
                 "">>) \cup {<<233>>}
StatesOf == <<"scheme start", "host", "hostname", "port", "path start", "query", "fragment", "authority">>
Pool == {BasicParse(u, <<>>, "utf-8", <<>>).url : u \in
           Toks(<<"http://h/a?q#f", "https://u:p@h:81/", "file:///C:/a", "file://h/x", "foo://h:8/p", "foo://u@h",
                  "foo:///p", "foo:/.//p", "foo:x", "ws://1.2.3.4/">>)}
\* What the setters do to the record first.
Prep(u, st) == CASE st = "path start" -> [u EXCEPT !.path = <<>>, !.opq = FALSE]
                 [] st = "query" -> [u EXCEPT !.query = NonEmptyQ]
                 [] st = "fragment" -> [u EXCEPT !.frag = NonEmptyQ]
                 [] OTHER -> u
Usable(u, st) == IF u.opq THEN st \in {"scheme start", "query", "fragment"} ELSE
                 st \notin {"port", "authority"} \/ ~CannotHaveCreds(u)

VARIABLES moIn, moN, moU, moSt, moM, moSteps
vars == <<moIn, moN, moU, moSt, moM, moSteps>>
Idle == [Machine("build", EmptyURL) EXCEPT !.i = 0]
Ctx == [inp |-> StripNl(moIn), base |-> <<>>, ovr |-> moSt, enc |-> "utf-8", env |-> <<>>]

Init == moIn = <<>> /\ moN = 0 /\ moU = EmptyURL /\ moSt = "" /\ moM = Idle /\ moSteps = 0
Extend == /\ moM.st = "build" /\ moN < Depth
          /\ \E t \in Tokens : moIn' = moIn \o t
          /\ moN' = moN + 1 /\ UNCHANGED <<moU, moSt, moM, moSteps>>
Start == /\ moM.st = "build"
         /\ \E u \in Pool, k \in 1..Len(StatesOf) :
              /\ Usable(u, StatesOf[k])
              /\ moSt' = StatesOf[k]
              /\ moU' = Prep(u, StatesOf[k])
              /\ moIn' = IF StatesOf[k] = "scheme start" THEN Append(moIn, cCOLON) ELSE moIn
              /\ moM' = [Machine(StatesOf[k], moU') EXCEPT !.errs = NlErrs(moIn')]
         /\ UNCHANGED <<moN, moSteps>>
Act == /\ moM.st \notin {"build", "done", "fail"}
       /\ moM' = Step(Ctx, moM)
       /\ moSteps' = moSteps + 1
       /\ (Emit /\ Halted(moM') /\ moM'.fail # "unknown") =>
            PrintT("BEHAVIOUR " \o ToJson([k |-> "ovr", s |-> moIn, rec |-> moU, st |-> moSt, enc |-> "utf-8",
              exp |-> [ok |-> moM'.st = "done", cls |-> moM'.fail, rec |-> moM'.url, q |-> RecQ(moM'.url), errs |-> moM'.errs]]))
       /\ UNCHANGED <<moIn, moN, moU, moSt>>
Next == Extend \/ Start \/ Act
Spec == Init /\ [][Next]_vars

(*------------------------------- properties -------------------------------*)
Ran == Halted(moM)
InvTerminates == moSteps <= Len(moIn) + 8
\* Only the component the state is about changes.
InvFrame == Ran =>
  LET a == moU b == moM.url IN
  /\ moSt # "scheme start" => a.scheme = b.scheme
  /\ moSt # "authority" => a.user = b.user /\ a.pass = b.pass
  /\ moSt \notin {"host", "hostname", "authority"} => a.host = b.host
  /\ moSt \notin {"host", "port", "scheme start", "authority"} => a.port = b.port
  /\ moSt # "path start" => a.path = b.path
  /\ moSt # "query" => a.query = b.query
  /\ moSt # "fragment" => a.frag = b.frag
  /\ a.opq = b.opq
\* The record stays a well-formed URL that round-trips.
InvWf == Ran => WfUrl(moM.url) /\ RoundTrips(moM.url)
\* A failure leaves the record as it was, except for the path and the host
\* that precede a bad port.
InvFail == moM.st = "fail" => moM.fail # "" /\ (moSt \in {"scheme start", "hostname", "port"} => moM.url = moU)
=============================================================================
