------------------------------- MODULE MCParse -------------------------------
(***************************************************************************)
(* The URL parser as a transition system.  An input is built token by      *)
(* token (every sequence of at most Depth tokens of the mode's alphabet),  *)
(* then the parser machine runs on it, one transition per parser action,   *)
(* against every base URL of the mode.  TLC checks the machine's           *)
(* invariants in every state and the result's in every final state; with   *)
(* Emit it prints every input with what the API must show for it.          *)
(***************************************************************************)
EXTENDS Wf, Json

CONSTANTS Mode, Depth, Emit

uE == <<233>>

Toks(strs) == {S(strs[k]) : k \in 1..Len(strs)}
AbsTokens == Toks(<<"http:", "file:", "foo:", "/", "\\", "?", "#", "@", ":", "a", "..", "C|", "[::1]",
                    "1", " ", "%2E">>)
RelTokens == Toks(<<"http:", "file:", "foo:", "/", "\\", "?", "#", "a", "..", "C|", ".", ":">>)
PathTokens == Toks(<<"/", ".", "..", "%2e", "a", "C:", "\\", "?", "x|">>)
UserTokens == Toks(<<"@", ":", "a", "/", "%", "8", "[", "]", "?", " ", "\t">>)
ValTokens == Toks(<<"/", "?", "#", "%", "4", "g", " ", "\\", "@", ":", "|", "\t", "'">>) \cup {uE, <<55356>>, <<65534>>}
BlobTokens == Toks(<<"blob:", "http:", "https:", "file:", "foo:", "//", "h", ":80", ":443", ":1", "/", "?">>)
UpTokens == Toks(<<"http://", "foo:", "u:p@", "h", ":8", "/", ";", "?", "#", "x">>)

Tokens == CASE Mode = "abs" -> AbsTokens [] Mode = "rel" -> RelTokens [] Mode = "path" -> PathTokens
            [] Mode = "user" -> UserTokens [] Mode = "val" -> ValTokens [] Mode = "blob" -> BlobTokens
            [] Mode = "up" -> UpTokens
Heads == CASE Mode = "path" -> Toks(<<"http://h", "file://", "foo://", "foo:", "file:///C:/">>)
              [] Mode = "user" -> Toks(<<"http://", "foo://", "file:/">>)
              [] Mode = "val" -> Toks(<<"http://h/", "foo:", "http://">>)
              [] OTHER -> {<<>>}
NoBase == <<>>
Base(s) == <<BasicParse(S(s), <<>>, "utf-8", <<>>).url>>
Bases == IF Mode = "rel"
         THEN {NoBase, Base("http://u:p@h:1/a/b?q#f"), Base("file:///C:/a/b?q"), Base("file://h/x"),
               Base("foo:/a/b?q#f"), Base("foo://h"), Base("foo:x?q#f"), Base("file:///")}
         ELSE {NoBase}

VARIABLES mpIn, mpN, mpM, mpBase, mpSteps
vars == <<mpIn, mpN, mpM, mpBase, mpSteps>>

Idle == [Machine("build", EmptyURL) EXCEPT !.i = 0]
Ctx == [inp |-> StripNl(Trim(mpIn)), base |-> mpBase, ovr |-> "", enc |-> "utf-8", env |-> <<>>]

Init == mpIn \in Heads /\ mpN = 0 /\ mpM = Idle /\ mpBase = NoBase /\ mpSteps = 0
Extend == /\ mpM.st = "build" /\ mpN < Depth
          /\ \E t \in Tokens : mpIn' = mpIn \o t
          /\ mpN' = mpN + 1 /\ UNCHANGED <<mpM, mpBase, mpSteps>>
Start == /\ mpM.st = "build"
         /\ mpBase' \in Bases
         /\ mpM' = [Machine("scheme start", EmptyURL) EXCEPT
                      !.errs = TrimErrs(mpIn) \o NlErrs(Trim(mpIn))]
         /\ UNCHANGED <<mpIn, mpN, mpSteps>>

\* parse_url is given the base as text and reports that text's errors first.
AllErrs(m) == (IF Len(mpBase) = 0 THEN <<>>
               ELSE BasicParse(Href(mpBase[1]), <<>>, "utf-8", <<>>).errs) \o m.errs
Expected(m) ==
  [s |-> mpIn, base |-> IF Len(mpBase) = 0 THEN <<>> ELSE <<Href(mpBase[1])>>,
   exp |-> IF m.st = "fail"
           THEN [ok |-> FALSE, cls |-> m.fail, errs |-> AllErrs(m), log |-> LogOf(AllErrs(m), TRUE)]
           ELSE [ok |-> TRUE, rec |-> m.url, href |-> Href(m.url), hrefnf |-> UrlSer(m.url, TRUE), q |-> RecQ(m.url),
                 errs |-> AllErrs(m), log |-> LogOf(AllErrs(m), FALSE), g |-> Getters(m.url, <<>>), list |-> ListOfQuery(m.url.query),
                 up |-> UrlParseResult(m.url, TRUE), upnf |-> UrlParseResult(m.url, FALSE),
                 origin |-> LET o == Origin(m.url, <<>>) IN
                            IF Len(o) = 0 THEN <<>> ELSE <<<<o[1].scheme, o[1].host, o[1].port>>>>]]
Act == /\ mpM.st \notin {"build", "done", "fail"}
       /\ mpM' = Step(Ctx, mpM)
       /\ mpSteps' = mpSteps + 1
       /\ (Emit /\ Halted(mpM') /\ mpM'.fail # "unknown") =>
            PrintT("BEHAVIOUR " \o ToJson(Expected(mpM')))
       /\ UNCHANGED <<mpIn, mpN, mpBase>>
Next == Extend \/ Start \/ Act
Spec == Init /\ [][Next]_vars

(*------------------------------- properties -------------------------------*)
\* The machine is always somewhere sensible and always gets to the end.
InvMachine == mpM.st # "build" => /\ mpM.i >= 1 /\ mpM.i <= Len(Ctx.inp) + 2
                                  /\ mpM.url.port \in (-1)..65535
InvTerminates == mpSteps <= Len(mpIn) + 12
InvFail == /\ mpM.st = "fail" => mpM.fail # ""
           /\ mpM.st = "done" => mpM.fail = ""
           /\ mpM.st = "fail" /\ mpM.fail # "unknown" => Len(mpM.errs) > 0 \/ mpM.fail = "URLParseError"
InvResult == mpM.st = "done" => WfUrl(mpM.url) /\ Printable(Href(mpM.url))
InvRoundTrip == mpM.st = "done" => RoundTrips(mpM.url)
\* Reparsing the serialization against the base changes nothing either.
InvAbsolute == mpM.st = "done" /\ Len(mpBase) = 1 =>
  LET m == BasicParse(Href(mpM.url), mpBase, "utf-8", <<>>)
  IN  m.fail = "unknown" \/ m.url = mpM.url
\* A failure says why: its last validation error is the one that is fatal.
Fatal == {"missing-scheme-non-relative-URL", "invalid-credentials", "host-missing", "port-out-of-range", "port-invalid",
          "domain-to-ASCII", "domain-invalid-code-point", "host-invalid-code-point", "IPv4-too-many-parts",
          "IPv4-non-numeric-part", "undefined"} \cup IPv6Errors
InvLog == mpM.st = "fail" /\ mpM.fail # "unknown" =>
  Len(mpM.errs) > 0 /\ mpM.errs[Len(mpM.errs)] \in Fatal
\* A relative reference that is only a fragment keeps everything else.
InvFragmentOnly == mpM.st = "done" /\ Len(mpBase) = 1 /\ Ch(Ctx.inp, 1) = cHASH =>
  [mpM.url EXCEPT !.frag = <<>>] = [mpBase[1] EXCEPT !.frag = <<>>]
\* urlparse's parts put together again are the URL.
Recompose(p, u) ==
  LET hasQ == Len(u.query) = 1 /\ Len(u.query[1]) > 0 hasF == Len(u.frag) = 1 /\ Len(u.frag[1]) > 0 IN
  /\ p[1] = u.scheme
  /\ PathSer(u) = p[3] \o (IF Len(p[4]) > 0 THEN <<cSEMI>> \o p[4]
                           ELSE IF HasC(PathSer(u), cSEMI) THEN <<cSEMI>> ELSE <<>>)
  /\ (IF hasQ THEN p[5] = u.query[1] ELSE p[5] = <<>>)
  /\ (IF hasF THEN p[6] = u.frag[1] ELSE p[6] = <<>>)
InvUrlparse == mpM.st = "done" => Recompose(UrlParseResult(mpM.url, TRUE), mpM.url)
\* An origin is opaque or a tuple whose serialization is a URL of that origin.
InvOrigin == mpM.st = "done" =>
  LET o == Origin(mpM.url, <<>>) IN
  Len(o) = 1 =>
    LET m == BasicParse(OriginSer(o), <<>>, "utf-8", <<>>)
    IN  m.fail = "unknown" \/ (m.st = "done" /\ Origin(m.url, <<>>) = o)
=============================================================================
