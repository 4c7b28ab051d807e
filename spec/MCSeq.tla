-------------------------------- MODULE MCSeq --------------------------------
(***************************************************************************)
(* A program's run: calls of every entry point one after the other, in     *)
(* every order, many of them about the same text and differing in one      *)
(* argument, the first one made again at the end.  A call answers out of   *)
(* its arguments: msSeen, the answers the program has had, never gets two  *)
(* for one call.                                                           *)
(***************************************************************************)
EXTENDS Wf, Json

CONSTANTS Depth, Emit

Reg == {sHttp, sHttps, sFile, sFtp, sWs, sWss}
Pc(s, b, enc) == [k |-> "parse", s |-> s, base |-> b, enc |-> enc]
Hc(s, ns) == [k |-> "host", s |-> S(s), ns |-> ns]
Hv(fn, s) == [k |-> "hval", fn |-> fn, s |-> S(s)]
Eacute == <<233, 38, 8364>>
Oc(s, rec, st) == [k |-> "ovr", s |-> S(s), rec |-> BasicParse(S(rec), <<>>, "utf-8", <<>>).url, st |-> st, enc |-> "utf-8"]
New(s) == [op |-> "new", s |-> S(s), b |-> [k |-> "none"]]
Hist(s, more) == [k |-> "hist", ev |-> <<New(s)>> \o more]
SetE(a, v) == [op |-> "set", i |-> 1, a |-> a, v |-> S(v)]
Par(op, n, v) == [op |-> "upar", i |-> 1, p |-> [op |-> op, n |-> S(n), v |-> v]]
Pool == <<
  Pc(S("http://h/?") \o Eacute, <<>>, "utf-8"), Pc(S("http://h/?") \o Eacute, <<>>, "windows-1252"),
  Pc(S("foo://h/?") \o Eacute, <<>>, "windows-1252"), Pc(S("http://h/?") \o Eacute, <<>>, "us-ascii"),
  Pc(S("?") \o Eacute, <<S("http://h/a")>>, "utf-8"), Pc(S("?") \o Eacute, <<S("ws://h/a")>>, "utf-8"),
  Pc(S("x/../y"), <<>>, "utf-8"), Pc(S("x/../y"), <<S("http://h/a/b")>>, "utf-8"), Pc(S("x/../y"), <<S("foo:/a/b")>>, "utf-8"),
  Pc(S("x/../y"), <<S("mailto:a")>>, "utf-8"), Pc(S("X/../y"), <<S("http://h/a/b")>>, "utf-8"),
  Pc(S("//h:80/C|/.."), <<S("http://i/")>>, "utf-8"), Pc(S("//h:80/C|/.."), <<S("file:///D:/")>>, "utf-8"),
  Pc(S("//h/C|/.."), <<S("file:///D:/")>>, "utf-8"),
  Pc(S("foo:a b "), <<>>, "utf-8"), Pc(S("foo:a b ?"), <<>>, "utf-8"),
  Hc("0x1.2", FALSE), Hc("0x1.2", TRUE), Hc("[::1]", FALSE), Hc("[::1]", TRUE), Hc("a%41b", FALSE), Hc("a%41b", TRUE), Hc("A_", FALSE),
  Hv("host", "0x1.2"), Hv("host", "[::1]"), Hv("opaque", "0x1.2"), Hv("opaque", "[::1]"), Hv("v4", "1.2.3.4"), Hv("v6", "1.2.3.4"),
  Hv("host", "1.2.3.4"), Hv("domain", "a_"), Hv("scheme", "http"), Hv("scheme", "HTTP"), Hv("scheme", "foo"),
  [k |-> "dec", s |-> S("a%41%C3%A9")], [k |-> "dec", s |-> S("a%4")], [k |-> "u8d", b |-> <<97, 195, 169>>], [k |-> "u8d", b |-> <<97, 195>>],
  [k |-> "u8e", s |-> Eacute], [k |-> "fenc", ps |-> <<<<Eacute, S("v")>>>>, enc |-> "utf-8"],
  [k |-> "fenc", ps |-> <<<<Eacute, S("v")>>>>, enc |-> "windows-1252"], [k |-> "fenc", ps |-> <<<<S("v"), Eacute>>>>, enc |-> "utf-8"],
  [k |-> "fdec", b |-> S("a=b&a=%41+")], [k |-> "fdec", b |-> S("a=b&A=%41+")], [k |-> "frt", ps |-> <<<<Eacute, S("a b")>>>>],
  Oc("x", "http://h/p?q#f", "path start"), Oc("x", "http://h/p?q#f", "query"), Oc("80", "http://h/p?q#f", "port"), Oc("80", "https://h/p", "port"),
  Oc("x", "foo://h/p", "host"), Oc("8", "http://h/p", "host"),
  Hist("http://h/?a=1", <<>>), Hist("http://h/?a=1", <<Par("append", "b", <<S("2")>>)>>),
  Hist("http://h/?a=1", <<SetE("search", "b"), Par("sort", "", <<>>)>>), Hist("http://h/?a=1", <<SetE("protocol", "ws")>>),
  Hist("foo:x", <<SetE("hash", "a b")>>), Hist("http://h/?a=1", <<Par("delete", "a", <<>>)>>)>>

RunEvents(ev) == LET Go[k \in 0..Len(ev)] == IF k = 0 THEN WRes(EmptyWorld, "", <<>>) ELSE Apply(Go[k - 1].w, ev[k], <<>>) IN Go[Len(ev)]
\* The answer of a call.
Ans(c) ==
  CASE c.k = "parse" -> LET m == ParseUrl(c.s, c.base, c.enc, <<>>) IN
                        IF m.st = "fail" THEN [ok |-> FALSE, cls |-> m.fail, errs |-> m.errs]
                        ELSE [ok |-> TRUE, rec |-> m.url, href |-> Href(m.url), hrefnf |-> UrlSer(m.url, TRUE), errs |-> m.errs]
    [] c.k = "host" -> LET h == HostParse(c.s, c.ns, <<>>) IN
                       IF h.ok THEN [ok |-> TRUE, cls |-> "", errs |-> h.errs, h |-> h.h, ser |-> HostSer(h.h)]
                       ELSE [ok |-> FALSE, cls |-> h.fail, errs |-> h.errs]
    [] c.k = "hval" -> LET v == HvalErr(c.fn, c.s, Reg, <<>>) IN [valid |-> Len(v.errs) = 0, errs |-> v.errs]
    [] c.k = "ovr" -> LET m == OverrideParse(c.s, c.rec, c.st, c.enc, <<>>) IN
                      [ok |-> m.st = "done", cls |-> m.fail, rec |-> m.url, errs |-> m.errs]
    [] c.k = "dec" -> StringPercentDecode(c.s)
    [] c.k = "u8d" -> Utf8Decode(c.b)
    [] c.k = "u8e" -> Utf8Encode(c.s)
    [] c.k = "fenc" -> FormEncode(c.ps, c.enc)
    [] c.k = "fdec" -> FormDecode(c.b)
    [] c.k = "frt" -> ListOfPairs(c.ps)
    [] c.k = "hist" -> LET r == RunEvents(c.ev) IN [exc |-> r.exc, ret |-> r.ret, gi |-> 0, seen |-> Seen(r.w)]
Answers == [i \in 1..Len(Pool) |-> Ans(Pool[i])]

VARIABLES msRun, msSeen
vars == <<msRun, msSeen>>
Init == msRun = <<>> /\ msSeen = {}
Closed == Append(msRun', msRun'[1])
Next == /\ Len(msRun) < Depth
        /\ \E i \in 1..Len(Pool) :
             /\ msRun' = Append(msRun, i)
             /\ msSeen' = msSeen \cup {<<Pool[i], Answers[i]>>}
        /\ (Emit /\ Len(msRun') = Depth) =>
             PrintT("BEHAVIOUR " \o ToJson([k |-> "seq", cs |-> [j \in 1..Len(Closed) |-> Pool[Closed[j]]],
                                            exp |-> [j \in 1..Len(Closed) |-> Answers[Closed[j]]]]))
Spec == Init /\ [][Next]_vars

(*------------------------------- properties -------------------------------*)
InvSame == \A x, y \in msSeen : x[1] = y[1] => x[2] = y[2]
\* Nothing in the pool waits for the environment.
InvKnown == \A i \in 1..Len(Pool) : Pool[i].k \in {"parse", "host", "ovr"} => Answers[i].ok \/ Answers[i].cls # "unknown"
=============================================================================
