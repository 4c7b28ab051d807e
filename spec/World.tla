-------------------------------- MODULE World --------------------------------
(***************************************************************************)
(* A program's heap of urlstd objects: w = [urls, pars], the URL objects   *)
(* (each [u, list]) and the standalone URLSearchParams objects (each a     *)
(* list), in creation order.  Apply(w, e, env) is the effect of one public *)
(* API call e: [w, exc, ret].  An operation touches at most one object.    *)
(***************************************************************************)
EXTENDS UrlObject

EmptyWorld == [urls |-> <<>>, pars |-> <<>>]
WRes(w, exc, ret) == [w |-> w, exc |-> exc, ret |-> ret]

\* A base argument: none, a string or another URL object.
ParseWith(w, s, b, env) ==
  CASE b.k = "none" -> BasicParse(s, <<>>, "utf-8", env)
    [] b.k = "str"  -> ParseUrl(s, <<b.s>>, "utf-8", env)
    [] b.k = "obj"  -> BasicParse(s, <<w.urls[b.i].u>>, "utf-8", env)

\* The low-level parser run on the record itself; prep: as the documentation
\* says, the component is emptied first (otherwise the run adds to it).
PrepRec(u, st) ==
  CASE st = "path start" -> [u EXCEPT !.path = <<>>, !.opq = FALSE]
    [] st = "query" -> [u EXCEPT !.query = NonEmptyQ]
    [] st = "fragment" -> [u EXCEPT !.frag = NonEmptyQ]
    [] OTHER -> u

InitList(w, x) ==
  CASE x.k = "none"  -> <<>>
    [] x.k = "str"   -> ListOfStr(x.s)
    [] x.k = "pairs" -> ListOfPairs(x.ps)
    [] x.k = "map"   -> ListOfMap(x.ps)
    [] x.k = "par"   -> ListOfStr(LStr(w.pars[x.i]))
    [] x.k = "upar"  -> ListOfStr(LStr(w.urls[x.i].list))

Apply(w, e, env) ==
  CASE e.op = "new" ->
         LET m == ParseWith(w, e.s, e.b, env)
         IN  IF m.fail = "unknown" THEN WRes(w, "unknown", m.errs[Len(m.errs)])
             ELSE IF m.st = "fail" THEN WRes(w, m.fail, <<>>)
             ELSE WRes([w EXCEPT !.urls = Append(@, NewObj(m))], "", <<>>)
    [] e.op = "can" ->
         LET m == ParseWith(w, e.s, e.b, env)
         IN  IF m.fail = "unknown" THEN WRes(w, "unknown", m.errs[Len(m.errs)])
             ELSE WRes(w, "", B(m.st # "fail"))
    [] e.op = "set" ->
         LET r == SetAttr(w.urls[e.i], e.a, e.v, env)
         IN  WRes([w EXCEPT !.urls[e.i] = r.o], r.exc, r.ret)
    [] e.op = "upar" ->
         WRes([w EXCEPT !.urls[e.i] = ParamsOp(@, e.p)], "", <<>>)
    [] e.op = "uqry" -> WRes(w, "", ListQuery(w.urls[e.i].list, e.p))
    [] e.op = "shorten" ->
         WRes([w EXCEPT !.urls[e.i].u = Shorten(@)], "", <<>>)
    [] e.op = "rovr" ->
         LET u == w.urls[e.i].u
             r == FromRun(w.urls[e.i], OverrideParse(e.v, IF e.prep THEN PrepRec(u, e.st) ELSE u,
                                                     e.st, "utf-8", env))
         IN  WRes([w EXCEPT !.urls[e.i] = r.o], r.exc, r.ret)
    [] e.op = "attach" ->
         WRes([w EXCEPT !.urls[e.i].list = ListOfQuery(w.urls[e.i].u.query)], "", <<>>)
    [] e.op = "npar" ->
         IF e.x.k = "pairs" /\ \E k \in 1..Len(e.x.ps) : Len(e.x.ps[k]) # 2
         THEN WRes(w, "ValueError", <<>>)        \* not a sequence of pairs
         ELSE WRes([w EXCEPT !.pars = Append(@, InitList(w, e.x))], "", <<>>)
    [] e.op = "par" ->
         WRes([w EXCEPT !.pars[e.i] = ListOp(@, e.p)], "", <<>>)
    [] e.op = "pqry" -> WRes(w, "", ListQuery(w.pars[e.i], e.p))
    [] e.op = "eq" ->
         WRes(w, "", B(UrlSer(w.urls[e.i].u, e.x) = UrlSer(w.urls[e.j].u, e.x)))
    [] e.op = "peq" -> WRes(w, "", B(w.pars[e.i] = w.pars[e.j]))

\* What a program can see of the heap.
Seen(w) == [urls |-> [i \in 1..Len(w.urls) |->
                        [href |-> Href(w.urls[i].u), list |-> w.urls[i].list]] \o <<>>,
            pars |-> w.pars]

(*--------------------------- validity states ------------------------------*)
\* What a validator reports: [known, errs].
HvalErr(fn, s, reg, env) ==
  CASE fn = "host" -> HostErr(s, env)
    [] fn = "domain" -> DomainErr(s, env)
    [] fn = "v4" -> [known |-> TRUE, errs |-> IPv4StrictErr(s)]
    [] fn = "v6" -> [known |-> TRUE, errs |-> IPv6Parse(s).errs]
    [] fn = "opaque" -> [known |-> TRUE, errs |-> OpaqueErr(s)]
    [] fn = "scheme" -> [known |-> TRUE, errs |->
          IF SchemeRegistered(s, reg) THEN <<>> ELSE <<"undefined">>]
\* Errors the URL validator reports: parse errors plus the scheme registry.
ParseValErrs(m, reg) == IF m.st = "fail" THEN m.errs
                        ELSE IF SchemeRegistered(m.url.scheme, reg) THEN m.errs
                        ELSE Append(m.errs, "undefined")

\* A validity state holds a list of validation errors, oldest first.  A call
\* that is given one adds its errors; validators and can_parse empty it first.
\* [known, d, strict (the environment query when not known), ok, held]
VsCall(held, e, reg, env) ==
  LET res(ok, h) == [known |-> TRUE, d |-> <<>>, strict |-> FALSE, ok |-> ok, held |-> h]
      need(d, st) == [known |-> FALSE, d |-> d, strict |-> st, ok |-> FALSE, held |-> held]
      m == IF e.f = "ovr" THEN OverrideParse(e.s, e.rec, e.st, "utf-8", env)
           ELSE ParseUrl(e.s, e.base, "utf-8", env)
  IN  CASE e.f = "host" ->
             LET h == HostParse(e.s, e.ns, env)
             IN  IF h.known THEN res(h.ok, held \o h.errs) ELSE need(h.errs[Len(h.errs)], FALSE)
        [] e.f = "hval" ->
             LET v == HvalErr(e.fn, e.s, reg, env)
             IN  IF v.known THEN res(Len(v.errs) = 0, v.errs) ELSE need(Norm(e.s), TRUE)
        [] OTHER ->
             IF m.fail = "unknown" THEN need(m.errs[Len(m.errs)], FALSE)
             ELSE IF e.f = "can" THEN res(m.st = "done", m.errs)
             ELSE IF e.f = "valid"
             THEN LET x == ParseValErrs(m, reg) IN res(m.st = "done" /\ Len(x) = 0, x)
             ELSE res(m.st = "done", held \o m.errs)
=============================================================================
