-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* Conformance: behaviours recorded from the real code are checked against *)
(* the specification.  A case is an operation (or a history of operations) *)
(* with its arguments and everything observed at the public API; the       *)
(* specification computes what must be observed and every clause that      *)
(* differs is a mismatch.                                                  *)
(*                                                                         *)
(* Cases come from the file named by the environment variable CASES (one   *)
(* JSON object per line).  Each case is one behaviour of length two        *)
(* (pending, then checked), so TLC's workers check cases in parallel and   *)
(* its state count says how many were really checked.                      *)
(***************************************************************************)
EXTENDS World, IOUtils, Json

Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
Registry == LET r == ndJsonDeserialize(IOEnv.REGISTRY)[1].schemes
            IN  {r[i] : i \in 1..Len(r)}

(*---------------------------- helpers -------------------------------------*)
T(cond, tag) == IF cond THEN <<>> ELSE <<tag>>
Has(c, cl) == \E i \in 1..Len(c.cl) : c.cl[i] = cl
When(c, cl, cond) == IF Has(c, cl) THEN T(cond, cl) ELSE <<>>

Rev(s) == IF Len(s) = 0 THEN <<>> ELSE Force([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
\* The kind of an IPv6 failure depends on the order of the checks, which the
\* standard does not make observable: any IPv6 error counts as "IPv6".
Loose(errs) == IF Len(errs) = 0 THEN <<>>
               ELSE Force([i \in 1..Len(errs) |->
                             IF errs[i] \in IPv6Errors THEN "IPv6" ELSE errs[i]])
SameErrs(model, obs) == Loose(model) = Loose(obs)

\* Validation errors are logged: one record each, in order, whatever caused a
\* failure as an error and everything else as information; nothing when the
\* caller's validity state says so.
SameLog(o, fatal, errs) ==
  LET L == LogOf(errs, fatal)
      same(x, y) == x.l = y.l /\ Loose(x.t) = Loose(y.t)
  IN  /\ same(o.log, L) /\ same(o.logon, L) /\ o.logsame
      /\ o.logoff = [l |-> <<>>, t |-> <<>>]
      /\ same(o.logerr, IF fatal /\ Len(errs) > 0 THEN [l |-> <<"E">>, t |-> <<errs[Len(errs)]>>]
                        ELSE [l |-> <<>>, t |-> <<>>])

\* Verdict of a case: [skip, tags, exp].
V(tags, exp) == [skip |-> FALSE, tags |-> tags, exp |-> exp]
\* Not decidable without the environment's answer for domain d.
Skip(d, strict) == [skip |-> TRUE, tags |-> <<>>, exp |-> [d |-> d, strict |-> strict]]
Need(m) == Skip(m.errs[Len(m.errs)], FALSE)

OptOrigin(u, env) ==
  LET o == Origin(u, env)
  IN  IF Len(o) = 0 THEN <<>> ELSE <<<<o[1].scheme, o[1].host, o[1].port>>>>

(*---------------------------- whole-URL parsing ---------------------------*)
\* Errors the validator reports: parse errors plus the scheme registry.
ValErrs(m) == ParseValErrs(m, Registry)

\* The environment's answer the origin of a blob URL needs: optional domain.
OriginNeed(u, env) ==
  IF u.scheme # sBlob THEN <<>>
  ELSE LET m == BasicParse(PathSer(u), <<>>, "utf-8", env)
       IN  IF m.fail = "unknown" THEN <<m.errs[Len(m.errs)]>> ELSE <<>>

CheckParse(c) ==
  LET m == ParseUrl(c.s, c.base, c.enc, c.env)
      o == c.obs
      ok == m.st = "done"
      u == m.url
      exp == [ok |-> ok, fail |-> m.fail, url |-> u, errs |-> m.errs,
              href |-> IF ok THEN Href(u) ELSE <<>>]
      tags ==
        IF ok # o.ok THEN <<"ok">>
        ELSE IF ~ok THEN
          When(c, "cls", o.cls = m.fail)
          \o When(c, "errs", SameErrs(m.errs, o.errs))
          \o When(c, "log", SameLog(o.log, TRUE, m.errs))
          \o When(c, "valid", ~o.valid /\ SameErrs(ValErrs(m), o.verrs))
          \o When(c, "can", ~o.can)
        ELSE
          When(c, "rec", o.rec = u)
          \o When(c, "href", o.href = Href(u))
          \o When(c, "hrefnf", o.hrefnf = UrlSer(u, TRUE))
          \o When(c, "g", o.g = Getters(u, c.env))
          \o When(c, "list", o.list = ListOfQuery(u.query))
          \o When(c, "errs", SameErrs(m.errs, o.errs))
          \o When(c, "log", SameLog(o.log, FALSE, m.errs))
          \o When(c, "valid", /\ o.valid = (Len(ValErrs(m)) = 0)
                              /\ SameErrs(ValErrs(m), o.verrs))
          \o When(c, "can", o.can)
          \o When(c, "q", o.q = RecQ(u))
          \o When(c, "origin", o.origin = OptOrigin(u, c.env))
          \o When(c, "up", o.up = UrlParseResult(u, TRUE))
          \o When(c, "upnf", o.upnf = UrlParseResult(u, FALSE))
          \* relational: the implementation against itself
          \o When(c, "rt", o.rt.ok /\ o.rt.rec = o.rec /\ o.rt.href = o.href)
  IN  IF m.fail = "unknown" THEN Need(m)
      ELSE IF ok /\ (Has(c, "g") \/ Has(c, "origin")) /\ Len(OriginNeed(u, c.env)) = 1
      THEN Skip(OriginNeed(u, c.env)[1], FALSE)
      ELSE V(tags, exp)

(*---------------------------- state override ------------------------------*)
CheckOvr(c) ==
  LET m == OverrideParse(c.s, c.rec, c.st, c.enc, c.env)
      o == c.obs
      ok == m.st = "done"
      exp == [ok |-> ok, fail |-> m.fail, url |-> m.url]
      tags == T(ok = o.ok, "ok") \o T(o.rec = m.url, "rec")
              \o When(c, "cls", ok \/ o.cls = m.fail)
              \o When(c, "q", o.q = RecQ(m.url))
              \o When(c, "errs", SameErrs(m.errs, o.errs))
              \o When(c, "log", SameLog(o.log, ~ok /\ c.st # "scheme start", m.errs))
  IN  IF m.fail = "unknown" THEN Need(m) ELSE V(tags, exp)

(*---------------------------- hosts ---------------------------------------*)
CheckHost(c) ==
  LET r == HostParse(c.s, c.ns, c.env)
      o == c.obs
      tags == IF r.ok # o.ok THEN <<"ok">>
              ELSE IF ~r.ok THEN When(c, "cls", o.cls = r.fail)
                                 \o When(c, "errs", SameErrs(r.errs, o.errs))
                                 \o When(c, "log", SameLog(o.log, TRUE, r.errs))
              ELSE When(c, "log", SameLog(o.log, FALSE, r.errs)) \o T(o.h = r.h, "h") \o T(o.ser = HostSer(r.h), "ser")
                   \o When(c, "errs", SameErrs(r.errs, o.errs))
                   \o When(c, "idem", o.again.ok /\ o.again.h = r.h)
  IN  IF ~r.known THEN Need(r)
      ELSE V(tags, [r EXCEPT !.known = TRUE])

CheckHval(c) ==
  LET r == HvalErr(c.fn, c.s, Registry, c.env)
  IN  IF ~r.known THEN Skip(Norm(c.s), TRUE)
      ELSE V(T(c.obs.valid = (Len(r.errs) = 0), "valid")
             \o T(c.obs.plain = c.obs.valid, "plain")
             \o When(c, "errs", SameErrs(r.errs, c.obs.errs)), r)

CheckV6Ser(c) == V(T(c.obs.s = IPv6Ser(c.v), "ser")
                   \o T(c.obs.back.ok /\ c.obs.back.h = [k |-> "v6", v |-> c.v], "back"),
                   IPv6Ser(c.v))
CheckV4Ser(c) == V(T(c.obs.s = IPv4Ser(c.v), "ser")
                   \o T(c.obs.back.ok /\ c.obs.back.h = [k |-> "v4", v |-> c.v], "back"),
                   IPv4Ser(c.v))

CheckIdna(c) ==
  LET r == DomainToASCII(c.d, c.strict, c.env)
      w == DomainToUnicode(c.d, c.strict, c.env)
      m == DomainToASCII(c.d, c.strict, <<>>)
      hit == Len(EnvLookup(c.env, Norm(c.d), c.strict)) > 0
      o == c.obs
      \* What becomes of the erroneous parts of a text only the environment says.
  IN  IF r.st = "unknown" \/ ~w.known \/ (w.bad /\ ~hit) THEN Skip(Norm(c.d), c.strict)
      ELSE V(T(o.ok = (r.st = "ok"), "ok")
             \o T(~o.ok \/ r.st # "ok" \/ o.a = r.a, "ascii")
             \o T(m.st \in {"unknown", r.st} \/ (r.st = "refuse"), "model")
             \o T(o.ubad = w.bad, "uerr")
             \o T(o.u = w.u, "unicode"), [a |-> r, u |-> w])

(*---------------------------- codecs --------------------------------------*)
\* Unreserved marks that are never encoded by the percent-encoding functions.
AlwaysSafe == {45, 46, 95, 126}
SafeToSet(safe) == {c \in 0..127 : ~IsAlnum(c) /\ c \notin AlwaysSafe
                                   /\ \A i \in 1..Len(safe) : safe[i] # c}
CheckPct(c) ==
  LET plus(s) == IF c.plus THEN Force([i \in 1..Len(s) |-> IF s[i] = cSP THEN cPLUS ELSE s[i]])
                 ELSE s
      set == SafeToSet(c.safe) \ (IF c.plus THEN {cSP} ELSE {})
      e == LET x == PctEncWith(c.s, set, c.enc) IN IF Len(x) = 0 THEN x ELSE plus(x)
  IN  V(T(c.obs = e, "enc"), e)
CheckDec(c) == V(T(c.obs = StringPercentDecode(c.s), "dec"), StringPercentDecode(c.s))
CheckU8d(c) == V(T(c.obs = Utf8Decode(c.b), "u8d"), Utf8Decode(c.b))
CheckU8e(c) == V(T(c.obs = Utf8Encode(c.s), "u8e"), Utf8Encode(c.s))
CheckFenc(c) == LET e == FormEncode(c.ps, c.enc) IN V(T(c.obs = e, "fenc"), e)
CheckFdec(c) == LET e == FormDecode(c.b) IN V(T(c.obs = e, "fdec"), e)
\* parse_qsl(urlencode(l)) is l with surrogates normalised.
CheckFrt(c) == LET e == ListOfPairs(c.ps) IN V(T(c.obs = e, "frt"), e)

(*---------------------------- origins, equality ---------------------------*)
SameOrigin(a, b) == a.scheme = b.scheme /\ a.host = b.host /\ a.port = b.port
\* dom: optional domain
SameOriginDomain(a, b, da, db) ==
  IF Len(da) = 1 /\ Len(db) = 1 THEN a.scheme = b.scheme /\ da = db
  ELSE Len(da) = 0 /\ Len(db) = 0 /\ SameOrigin(a, b)
CheckOrg(c) ==
  LET m1 == BasicParse(c.s, <<>>, "utf-8", c.env)
      m2 == BasicParse(c.t, <<>>, "utf-8", c.env)
      a == Origin(m1.url, c.env)
      b == Origin(m2.url, c.env)
      o == c.obs
      both == Len(a) = 1 /\ Len(b) = 1
      so == both /\ SameOrigin(a[1], b[1])
      sod == both /\ SameOriginDomain(a[1], b[1], c.da, c.db)
  IN  IF m1.fail = "unknown" THEN Need(m1)
      ELSE IF m2.fail = "unknown" THEN Need(m2)
      ELSE IF m1.st = "fail" \/ m2.st = "fail" THEN V(T(~o.ok, "ok"), "failure")
      ELSE IF Len(OriginNeed(m1.url, c.env)) = 1 THEN Skip(OriginNeed(m1.url, c.env)[1], FALSE)
      ELSE IF Len(OriginNeed(m2.url, c.env)) = 1 THEN Skip(OriginNeed(m2.url, c.env)[1], FALSE)
      ELSE IF ~o.ok THEN V(<<"ok">>, "parses")
      ELSE V(T(o.o1 = OptOrigin(m1.url, c.env), "origin")
             \o T(o.o2 = OptOrigin(m2.url, c.env), "origin")
             \o T(o.s1 = OriginSer(a), "ser") \o T(o.s2 = OriginSer(b), "ser")
             \o (IF both THEN T(o.so = so, "same") \o T(o.sod = sod, "samedomain")
                 ELSE <<>>),
             [o1 |-> a, o2 |-> b, so |-> so, sod |-> sod])

CheckEq(c) ==
  LET m1 == ParseUrl(c.s, <<>>, "utf-8", c.env)
      m2 == ParseUrl(c.t, <<>>, "utf-8", c.env)
      e == Href(m1.url) = Href(m2.url)
      ef == UrlSer(m1.url, TRUE) = UrlSer(m2.url, TRUE)
      o == c.obs
  IN  IF m1.fail = "unknown" THEN Need(m1)
      ELSE IF m2.fail = "unknown" THEN Need(m2)
      ELSE IF m1.st = "fail" \/ m2.st = "fail" THEN V(T(~o.ok, "ok"), "failure")
      ELSE IF ~o.ok THEN V(<<"ok">>, "parses")
      ELSE V(T(o.eq = e, "eq") \o T(o.ne = ~e, "ne") \o T(o.eqf = e, "equals")
             \o T(o.eqnf = ef, "equalsnf") \o T(o.req = e, "receq")
             \o T(o.reqnf = ef, "receqnf") \o T(o.sym = e, "sym"),
             [eq |-> e, eqnf |-> ef])

(*---------------------------- histories -----------------------------------*)
\* Fold the recorded events through Apply; the first event that differs is
\* the mismatch.
CheckEvent(c, w, e) ==
  LET r == Apply(w, e, c.env)
      o == e.obs
      seen == Seen(r.w)
      same == Len(o.urls) = Len(seen.urls)
      gu == IF o.gi = 0 \/ o.gi > Len(r.w.urls) THEN <<>> ELSE <<r.w.urls[o.gi].u>>
      tags == T(same /\ Len(o.pars) = Len(seen.pars), "objects")
              \o When(c, "raises", (r.exc = "") = (o.exc = ""))
              \o When(c, "cls", (r.exc = "") # (o.exc = "") \/ o.exc = r.exc)
              \o When(c, "ret", o.ret = r.ret)
              \o When(c, "href", same /\ \A k \in 1..Len(seen.urls) :
                                           o.urls[k].href = seen.urls[k].href)
              \o When(c, "list", ~same \/ \A k \in 1..Len(seen.urls) :
                                           o.urls[k].list = seen.urls[k].list)
              \o When(c, "pars", o.pars = seen.pars)
              \o (IF Len(gu) = 0 THEN <<>>
                  ELSE When(c, "g", o.g = Getters(gu[1], c.env))
                       \o When(c, "rt", RtExempt(gu[1]) \/ o.rt))
      need == IF Len(gu) = 0 \/ ~Has(c, "g") THEN <<>> ELSE OriginNeed(gu[1], c.env)
  IN  IF Len(need) = 1
      THEN [w |-> r.w, exc |-> "unknown", tags |-> <<>>, ret |-> need[1], seen |-> seen]
      ELSE
      [w |-> r.w, exc |-> r.exc, tags |-> tags, ret |-> r.ret, seen |-> seen]

RECURSIVE CheckFrom(_, _, _)
CheckFrom(c, w, k) ==
  IF k > Len(c.ev) THEN V(<<>>, <<>>)
  ELSE LET r == CheckEvent(c, w, c.ev[k])
       IN  IF r.exc = "unknown" THEN Skip(r.ret, FALSE)
           ELSE IF Len(r.tags) > 0
           THEN V(r.tags, [at |-> k, exc |-> r.exc, ret |-> r.ret, seen |-> r.seen])
           ELSE CheckFrom(c, r.w, k + 1)
CheckHist(c) == CheckFrom(c, EmptyWorld, 1)

(*---------------------------- records -------------------------------------*)
\* A record as it is; asking it nothing but what it says leaves it unchanged.
CheckRq(c) ==
  LET u == c.rec
      o == c.obs
  IN  IF Has(c, "origin") /\ Len(OriginNeed(u, c.env)) = 1
      THEN Skip(OriginNeed(u, c.env)[1], FALSE)
      ELSE V(T(o.q = RecQ(u), "q") \o T(o.rec = u, "rec")
             \o When(c, "origin", o.origin = OptOrigin(u, c.env))
             \o When(c, "eq", o.eq /\ o.same = (Href(u) = Href(c.alt))
                              /\ o.samenf = (UrlSer(u, TRUE) = UrlSer(c.alt, TRUE))), RecQ(u))

(*---------------------------- validity states -----------------------------*)
RECURSIVE CheckVsFrom(_, _, _)
CheckVsFrom(c, held, k) ==
  IF k > Len(c.ev) THEN V(<<>>, <<>>)
  ELSE LET r == VsCall(held, c.ev[k], Registry, c.env)
           o == c.ev[k].obs
           tags == T(o.ok = r.ok, "ok") \o T(o.plain = r.ok, "plain")
                   \o T(SameErrs(r.held, o.errs), "errs") \o T(o.tidy, "tidy")
       IN  IF ~r.known THEN Skip(r.d, r.strict)
           ELSE IF Len(tags) > 0 THEN V(tags, [at |-> k, ok |-> r.ok, held |-> r.held])
           ELSE CheckVsFrom(c, r.held, k + 1)
CheckVs(c) == CheckVsFrom(c, <<>>, 1)

(*---------------------------- dispatch ------------------------------------*)
Outside(c) ==
  /\ c.k \in {"parse", "ovr", "pct", "fenc"}
  /\ IF c.k = "fenc" THEN \E i \in 1..Len(c.ps) : OutsideTables(c.ps[i][1] \o c.ps[i][2], c.enc)
     ELSE \/ OutsideTables(c.s, c.enc)
          \/ c.k = "parse" /\ Len(c.base) = 1 /\ OutsideTables(c.base[1], c.enc)

\* Calls one after the other, of any kind: each answers as if it were the only
\* one the program ever made (the specification's operators have no state).
RECURSIVE Check(_)
RECURSIVE CheckSeqFrom(_, _)
CheckSeqFrom(c, k) ==
  IF k > Len(c.cs) THEN V(<<>>, <<>>)
  ELSE LET r == Check([c.cs[k] EXCEPT !.env = c.env])
       IN  IF r.skip THEN r
           ELSE IF Len(r.tags) > 0 THEN V(r.tags, [at |-> k, exp |-> r.exp])
           ELSE CheckSeqFrom(c, k + 1)

\* Every public operation is total: it returns or raises what it documents.
Check(c) ==
  CASE c.crash = "" /\ Outside(c) -> Skip(<<>>, FALSE)
    [] c.crash # "" -> V(<<"crash">>, "no exception other than URLParseError")
    [] c.k = "parse" -> CheckParse(c)
    [] c.k = "ovr" -> CheckOvr(c)
    [] c.k = "host" -> CheckHost(c)
    [] c.k = "hval" -> CheckHval(c)
    [] c.k = "v6ser" -> CheckV6Ser(c)
    [] c.k = "v4ser" -> CheckV4Ser(c)
    [] c.k = "idna" -> CheckIdna(c)
    [] c.k = "pct" -> CheckPct(c)
    [] c.k = "dec" -> CheckDec(c)
    [] c.k = "u8d" -> CheckU8d(c)
    [] c.k = "u8e" -> CheckU8e(c)
    [] c.k = "fenc" -> CheckFenc(c)
    [] c.k = "fdec" -> CheckFdec(c)
    [] c.k = "frt" -> CheckFrt(c)
    [] c.k = "org" -> CheckOrg(c)
    [] c.k = "eq" -> CheckEq(c)
    [] c.k = "hist" -> CheckHist(c)
    [] c.k = "rq" -> CheckRq(c)
    [] c.k = "vs" -> CheckVs(c)
    [] c.k = "seq" -> CheckSeqFrom(c, 1)

\* (TLC only pre-evaluates constants when no variable shares a name with a
\* bound identifier of the libraries, so variables have names of their own.)
VARIABLES idx, ph
vars == <<idx, ph>>
Init == idx \in 1..N /\ ph = "pending"
Next == /\ ph = "pending"
        /\ LET v == Check(Cases[idx])
           IN  /\ IF v.skip THEN PrintT("NEED " \o ToString(idx) \o " " \o ToJson(v.exp))
                  ELSE IF Len(v.tags) > 0
                  THEN PrintT("MISMATCH " \o ToString(idx) \o " "
                              \o ToJson([tags |-> v.tags, exp |-> v.exp]))
                  ELSE TRUE
               /\ ph' = IF v.skip THEN "skip" ELSE IF Len(v.tags) > 0 THEN "bad" ELSE "ok"
        /\ idx' = idx
Spec == Init /\ [][Next]_vars
=============================================================================
