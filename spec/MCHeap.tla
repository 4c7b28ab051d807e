------------------------------- MODULE MCHeap -------------------------------
(***************************************************************************)
(* The heap of URL and URLSearchParams objects as a transition system: one *)
(* transition per public API call of a menu.  TLC explores every history   *)
(* of at most Depth calls after each start, merging histories that reach   *)
(* the same heap (VIEW), and checks the invariants.  With Emit it prints,  *)
(* for every transition of that graph, a history that takes it and what a  *)
(* program must observe after its last call; the harness replays these     *)
(* into the real code.                                                     *)
(***************************************************************************)
EXTENDS Wf, Json

CONSTANTS Mode, Depth, Emit

None == [k |-> "none"]
New(s) == [op |-> "new", s |-> S(s), b |-> None]
NewOn(s, i) == [op |-> "new", s |-> S(s), b |-> [k |-> "obj", i |-> i]]
NewStr(s, t) == [op |-> "new", s |-> S(s), b |-> [k |-> "str", s |-> S(t)]]
Can(s, i) == [op |-> "can", s |-> S(s), b |-> [k |-> "obj", i |-> i]]
Set(i, a, v) == [op |-> "set", i |-> i, a |-> a, v |-> S(v)]
P0(op) == [op |-> op, n |-> <<>>, v |-> <<>>]
P1(op, n) == [op |-> op, n |-> S(n), v |-> <<>>]
P2(op, n, v) == [op |-> op, n |-> S(n), v |-> <<S(v)>>]
PAt(i) == [op |-> "at", n |-> <<>>, v |-> <<>>, i |-> i]
PSl(i, j, st) == [op |-> "slice", n |-> <<>>, v |-> <<>>, i |-> i, j |-> j, st |-> st]
P3(op, n, v) == [op |-> op, n |-> n, v |-> <<v>>]
UPar(i, p) == [op |-> "upar", i |-> i, p |-> p]
UQry(i, p) == [op |-> "uqry", i |-> i, p |-> p]
Par(i, p) == [op |-> "par", i |-> i, p |-> p]
PQry(i, p) == [op |-> "pqry", i |-> i, p |-> p]
NPar(x) == [op |-> "npar", x |-> x]
NStr(s) == NPar([k |-> "str", s |-> S(s)])
Eq(i, j, x) == [op |-> "eq", i |-> i, j |-> j, x |-> x]
PEq(i, j) == [op |-> "peq", i |-> i, j |-> j]

Sets(i, a, vs) == {Set(i, a, vs[k]) : k \in 1..Len(vs)}

(*------------------------------- menus ------------------------------------*)
SetMenu ==
  Sets(1, "href", <<"http://x/", "x", "file:///C|/?a=1", "foo:y ", "foo://z:1/p#f", "">>)
  \cup Sets(1, "protocol", <<"http", "https:", "file", "foo", "ws", "WSS:x", "", "1", "ftp">>)
  \cup Sets(1, "username", <<"", "u", "a:@/">>)
  \cup Sets(1, "password", <<"", "p", "%41'">>)
  \cup Sets(1, "host", <<"", "x", "x:1", "x:80", "[::1]:443", "1.2", ":9", "a b", "x:y", "localhost", "C:", "x:0">>)
  \cup Sets(1, "hostname", <<"", "y", "y:1", "0x7f.1", "[::", "a/b", "LocalHost", "C|", "x#">>)
  \cup Sets(1, "port", <<"", "0", "80", "443", "21x", "65536", "x", "8\t1">>)
  \cup Sets(1, "pathname", <<"", "/", "//a", "a/../b", "C|/..", "\\x?#", "..//.", "%2e/ ">>)
  \cup Sets(1, "search", <<"", "?", "a=1&b", "'#">>)
  \cup Sets(1, "hash", <<"", "#", "x `">>)
SetStarts == {<<New("http://h/")>>, <<New("https://u:p@h:81/a/b?q#f")>>, <<New("file:///C:/a")>>,
              <<New("file://h/x")>>, <<New("foo://h:8/p?q")>>, <<New("foo:/.//p")>>,
              <<New("foo:x  #f")>>, <<New("ws://1.2.3.4:0/")>>, <<New("foo:///p")>>,
              <<New("foo://u@h")>>}

uE  == <<233>>          \* U+00E9
uHi == <<55356>>        \* a lone high surrogate
ParMuts(F(_)) ==
  {F(P2("append", "a", "1")), F(P2("append", "", "")), F(P3("append", uE, uHi)),
   F(P2("append", "&=+ %", "~'*")), F(P1("delete", "a")), F(P2("delete", "a", "1")),
   F(P2("delete", "b", "1")), F(P1("delete", "")), F(P2("set", "a", "9")), F(P2("set", "z", "%41")),
   F(P2("set", "b", "")), F(P0("sort"))}
ParQrys(F(_)) ==
  {F(P1("get", "a")), F(P1("get", "z")), F(P1("get_all", "a")), F(P1("has", "b")), F(P2("has", "a", "1")),
   F(P2("has", "a", "x")), F(P1("in", "")), F(P0("len")), F(P0("str")), F(P1("add", "&x")),
   F(P0("keys")), F(P0("values")), F(PAt(0)), F(PAt(1)), F(PAt(-2)), F(PAt(3)),
   F(PSl(<<1>>, <<>>, 1)), F(PSl(<<>>, <<-1>>, 1)), F(PSl(<<>>, <<>>, -1)), F(PSl(<<-2>>, <<5>>, 2)), F(PSl(<<2>>, <<0>>, -2))}
SyncMenu ==
  ParMuts(LAMBDA p : UPar(1, p)) \cup ParQrys(LAMBDA p : UQry(1, p))
  \cup Sets(1, "search", <<"", "?", "b=2&a=1&a=%26", "?x y#", "%zz&&=">>)
  \cup Sets(1, "href", <<"http://x/?z=1", "foo:o  ?k", "x", "http://x/">>)
  \cup Sets(1, "hash", <<"", "y">>) \cup Sets(1, "pathname", <<"/z">>)
  \cup Sets(1, "protocol", <<"https">>) \cup Sets(1, "host", <<"q:1">>)
SyncStarts == {<<New("http://h/")>>, <<New("http://h/?b=2&a=1&b=1")>>, <<New("http://h/?#f")>>,
               <<New("foo:x  ?a=1")>>, <<New("foo:x #f")>>, <<New("file:///?%C3%A9='+")>>}

ListMenu == ParMuts(LAMBDA p : Par(1, p)) \cup ParQrys(LAMBDA p : PQry(1, p))
            \cup {NPar([k |-> "pairs", ps |-> <<<<S("a"), S("1")>>, <<S("b"), S("2"), S("3")>>>>]), Par(1, P2("append", "c", "1")), Par(1, P2("delete", "c", "2")),
                  Par(1, P3("append", <<65533>>, <<127752>>)), Par(1, P3("append", <<127752>>, <<49>>)),
                  Par(1, P3("delete", uHi, uE)), Par(1, P3("set", <<55356, 57096>>, <<50>>))}
ListStarts == {<<NPar(None)>>, <<NStr("?b=2&a=1&b=1&c=")>>, <<NStr("??a=%3D+&")>>,
               <<NStr("a=1&b"), NPar([k |-> "pairs", ps |-> <<<<S("a"), S("1")>>, <<S("b")>>>>])>>,
            <<NPar([k |-> "pairs", ps |-> <<<<S("c"), S("3")>>, <<S("a"), S("1")>>, <<S("c"), uE>>>>])>>,
               <<NPar([k |-> "map", ps |-> <<<<S("b"), S("%41+")>>, <<uHi, S("2")>>>>])>>}

HeapMenu ==
  {NewOn(r, i) : r \in {"", "c", "?y=2", "../e", "//k:9", "file:x"}, i \in 1..2}
  \cup UNION {Sets(i, "pathname", <<"/z/..">>) \cup Sets(i, "search", <<"s=1">>)
              \cup Sets(i, "host", <<"k:9">>) \cup Sets(i, "protocol", <<"https">>)
              \cup Sets(i, "href", <<"http://n/?w=1">>) \cup Sets(i, "hash", <<"">>)
              \cup Sets(i, "port", <<"x">>) : i \in 1..3}
  \cup {UPar(i, p) : i \in 1..3, p \in {P2("append", "a", "1"), P1("delete", "x"), P0("sort")}}
  \cup {NPar([k |-> "upar", i |-> 1]), NPar([k |-> "par", i |-> 1]), NStr("q=1")}
  \cup {Par(i, p) : i \in 1..2, p \in {P2("append", "m", "1"), P1("delete", "x")}}
  \cup {Can("c", 1), Eq(1, 2, FALSE), Eq(1, 2, TRUE), PEq(1, 2)}
HeapStarts == {<<New("http://u:p@h:8/a/b?x=1#f")>>, <<New("file:///C:/a/b?x=1")>>,
               <<New("foo:/a/b?x=1")>>, <<New("foo:x?x=1")>>}

EqMenu ==
  UNION {Sets(i, "hash", <<"", "f", "#">>) \cup Sets(i, "search", <<"", "?", "q">>)
         \cup Sets(i, "protocol", <<"https">>) \cup Sets(i, "port", <<"", "80", "443", "8">>)
         \cup Sets(i, "username", <<"", "u">>) \cup Sets(i, "pathname", <<"/", "/a/..">>)
         \cup Sets(i, "hostname", <<"H", "g">>) : i \in 1..2}
  \cup {Eq(i, j, x) : i \in 1..2, j \in 1..2, x \in BOOLEAN}
EqStarts == {<<New("http://h/"), New("http://h/#f")>>, <<New("http://u@h/?q"), New("https://h")>>,
             <<New("foo://h/"), New("foo://h/?")>>}

\* Parsing against bases that only a history of calls produces.
BaseMenu ==
  Sets(1, "protocol", <<"http", "file", "ws", "foo">>) \cup Sets(1, "hostname", <<"", "localhost", "C|", "h">>)
  \cup Sets(1, "pathname", <<"", "//x", "C|/x", "/.//p", "/a/C:/b">>) \cup Sets(1, "port", <<"", "0", "443">>)
  \cup Sets(1, "search", <<"", "?", "q">>) \cup Sets(1, "hash", <<"", "f">>)
  \cup Sets(1, "username", <<"", "u">>) \cup Sets(1, "password", <<"p">>)
  \cup {NewOn(r, 1) : r \in {"", "c", "?y=2", "#z", "..", "../..", "/", "//k:9", "file:x", "C|/..", "/C|", "http:x",
                              "https:x", ".//x", "///x", "file:", "\\x", "//localhost/y", "foo:x", " ", "/.."}}
BaseStarts == {<<New("http://h/a/b?x#f")>>, <<New("https://u:p@h:8/C|/x")>>, <<New("file:///C:/a/b?x")>>,
               <<New("file://h/C|")>>, <<New("foo://h:1/a/b")>>, <<New("foo:/a/b?x")>>, <<New("foo:x ?x#f")>>,
               <<New("foo://u@h")>>, <<New("foo:///C:/x")>>}

\* The low-level API: records made from records and changed in place.
NewRec(s) == [op |-> "new", s |-> S(s), b |-> None, raw |-> TRUE]
NewRecOn(s, i) == [op |-> "new", s |-> S(s), b |-> [k |-> "obj", i |-> i], raw |-> TRUE]
ROvr(i, st, v, p) == [op |-> "rovr", i |-> i, st |-> st, v |-> S(v), prep |-> p]
RecsMenu ==
  {NewRecOn(r, i) : r \in {"", "#z", "?y=2", "c", "..", "//k:9/w", "/C|/v"}, i \in 1..2}
  \cup UNION {{[op |-> "shorten", i |-> i], [op |-> "attach", i |-> i]}
              \cup {ROvr(i, "path start", v, p) : v \in {"/z/y", "..", "C|"}, p \in BOOLEAN}
              \cup {ROvr(i, "query", "w=1", p) : p \in BOOLEAN}
              \cup {ROvr(i, "fragment", "g", p) : p \in BOOLEAN}
              \cup {ROvr(i, "host", "k:9", TRUE), ROvr(i, "hostname", "", TRUE), ROvr(i, "port", "443", TRUE),
                    ROvr(i, "scheme start", "https:", TRUE), ROvr(i, "scheme start", "foo:", TRUE),
                    ROvr(i, "authority", "v:w@n:7", TRUE)} : i \in 1..2}
  \cup {UPar(i, p) : i \in 1..2, p \in {P2("append", "a", "1"), P0("sort")}}
  \cup {Eq(1, 2, FALSE), Eq(1, 2, TRUE)}
RecsStarts == {<<NewRec("http://u:p@h:8/a/b?x=1#f")>>, <<NewRec("file:///C:/a?x=1")>>, <<NewRec("foo:/a/b?x=1")>>,
               <<NewRec("foo:x?x=1")>>, <<NewRec("http://h/")>>}

Menu == CASE Mode = "base" -> BaseMenu [] Mode = "recs" -> RecsMenu [] Mode = "set" -> SetMenu [] Mode = "sync" -> SyncMenu [] Mode = "list" -> ListMenu
          [] Mode = "heap" -> HeapMenu [] Mode = "eq" -> EqMenu
Starts == CASE Mode = "base" -> BaseStarts [] Mode = "recs" -> RecsStarts [] Mode = "set" -> SetStarts [] Mode = "sync" -> SyncStarts [] Mode = "list" -> ListStarts
            [] Mode = "heap" -> HeapStarts [] Mode = "eq" -> EqStarts

(*------------------------------- the system -------------------------------*)
VARIABLES hpW, hpHist, hpN
vars == <<hpW, hpHist, hpN>>
hpView == <<hpW, hpN>>

Enabled(w, e) ==
  LET nu == Len(w.urls) np == Len(w.pars) IN
  CASE e.op \in {"new", "can"} -> (e.b.k = "obj" => e.b.i <= nu) /\ (e.op = "can" \/ nu < 3)
    [] e.op \in {"set", "upar", "uqry", "attach"} -> e.i <= nu
    [] e.op = "shorten" -> e.i <= nu /\ ~w.urls[e.i].u.opq
    [] e.op = "rovr" -> /\ e.i <= nu
                        /\ LET u == w.urls[e.i].u IN
                           /\ e.st \in {"path start", "host", "hostname", "authority"} => ~u.opq
                           /\ e.st \in {"port", "authority"} => ~CannotHaveCreds(u)
                           /\ ~e.prep => (e.st = "query" => Len(u.query) = 1) /\ (e.st = "fragment" => Len(u.frag) = 1)
    [] e.op = "npar" -> np < 2 /\ (e.x.k = "par" => e.x.i <= np) /\ (e.x.k = "upar" => e.x.i <= nu)
    [] e.op \in {"par", "pqry"} -> e.i <= np
    [] e.op = "eq" -> e.i <= nu /\ e.j <= nu
    [] e.op = "peq" -> e.i <= np /\ e.j <= np

RECURSIVE ApplyAll(_, _)
ApplyAll(w, evs) == IF Len(evs) = 0 THEN w ELSE ApplyAll(Apply(w, evs[1], <<>>).w, Tail(evs))

Target(w, e) == IF e.op \in {"set", "upar"} THEN e.i
                ELSE IF e.op = "new" THEN Len(w.urls) ELSE 0
Report(w, r, e) ==
  [ev |-> Append(hpHist, e),
   exp |-> [exc |-> r.exc, ret |-> r.ret, seen |-> Seen(r.w),
            gi |-> IF r.exc = "" THEN Target(r.w, e) ELSE 0,
            g |-> IF r.exc = "" /\ Target(r.w, e) # 0
                  THEN Getters(r.w.urls[Target(r.w, e)].u, <<>>) ELSE [none |-> 0]]]

Init == /\ hpHist \in Starts /\ hpN = 0
        /\ hpW = ApplyAll(EmptyWorld, hpHist)
Call(e) == LET r == Apply(hpW, e, <<>>) IN
           /\ hpN < Depth
           /\ Enabled(hpW, e)
           /\ r.exc # "unknown"
           /\ Emit => PrintT("BEHAVIOUR " \o ToJson(Report(hpW, r, e)))
           /\ hpW' = r.w
           /\ hpHist' = Append(hpHist, e)
           /\ hpN' = hpN + 1
Next == \E e \in Menu : Call(e)
Spec == Init /\ [][Next]_vars

(*------------------------------- properties -------------------------------*)
InvObjects == \A i \in 1..Len(hpW.urls) : WfObj(hpW.urls[i])
InvRoundTrip == \A i \in 1..Len(hpW.urls) : RoundTrips(hpW.urls[i].u)
InvLists == \A i \in 1..Len(hpW.pars) : WfList(hpW.pars[i])
\* Equality is an equivalence that equal serializations decide, and is
\* coarser without fragments.
InvEq == \A i, j \in 1..Len(hpW.urls) :
  LET a == hpW.urls[i].u b == hpW.urls[j].u IN
  /\ (Href(a) = Href(b)) => (UrlSer(a, TRUE) = UrlSer(b, TRUE))
  /\ (RtExempt(a) \/ RtExempt(b) \/ (Href(a) = Href(b)) = (a = b))

\* A record the low-level API was used on: every part is well formed, even
\* where the whole is no URL any more.
InvParts == \A i \in 1..Len(hpW.urls) :
  LET u == hpW.urls[i].u IN
  SchemeOk(u.scheme) /\ PathOk([u EXCEPT !.scheme = <<102>>]) /\ QueryOk(u) /\ FragOk(u) /\ u.port \in (-1)..65535
  /\ Avoids(u.user, UserinfoSet) /\ Avoids(u.pass, UserinfoSet)

\* Frame: a call changes at most the object it is made on, and a call that
\* raises changes nothing but what the standard lets a failed setter leave.
LastCall == hpHist'[Len(hpHist')]
Frame ==
  /\ \A i \in 1..Len(hpW.urls) :
       hpW'.urls[i] # hpW.urls[i] => LastCall.op \in {"set", "upar", "rovr", "shorten", "attach"} /\ LastCall.i = i
  /\ \A i \in 1..Len(hpW.pars) :
       hpW'.pars[i] # hpW.pars[i] => LastCall.op = "par" /\ LastCall.i = i
  /\ Len(hpW'.urls) >= Len(hpW.urls) /\ Len(hpW'.pars) >= Len(hpW.pars)
\* Setting one component leaves the unrelated ones alone.
Keeps ==
  LastCall.op = "set" /\ LastCall.a # "href" =>
    LET a == hpW.urls[LastCall.i].u b == hpW'.urls[LastCall.i].u at == LastCall.a IN
    /\ at # "protocol" => a.scheme = b.scheme
    /\ at # "username" => a.user = b.user
    /\ at # "password" => a.pass = b.pass
    /\ at \notin {"host", "hostname"} => a.host = b.host
    /\ at \notin {"host", "port", "protocol"} => a.port = b.port
    /\ at \notin {"pathname", "search", "hash"} => a.path = b.path
    /\ at # "search" => a.query = b.query
    /\ at # "hash" => a.frag = b.frag
    /\ a.opq = b.opq
PropFrame == [][Frame /\ Keeps]_vars
=============================================================================
