------------------------------ MODULE UrlObject ------------------------------
(***************************************************************************)
(* The URL and URLSearchParams classes: a URL object is [u, list], the URL *)
(* record and the list of its live search_params object; a standalone      *)
(* URLSearchParams object is just its list of <<name, value>> pairs.       *)
(* Every operation is a total function from an object and arguments to     *)
(* [o, exc, ret]: the new object, the exception class ("" = none) and the  *)
(* returned value.                                                         *)
(***************************************************************************)
EXTENDS UrlParser

(*------------------------------ the list ----------------------------------*)
ListOfQuery(q) == IF Len(q) = 0 THEN <<>> ELSE FormDecode(Utf8Encode(q[1]))

StripQ(s) == IF Ch(s, 1) = cQ THEN From(s, 2) ELSE s
StripHash(s) == IF Ch(s, 1) = cHASH THEN From(s, 2) ELSE s

ListOfStr(s) == FormDecode(Utf8Encode(StripQ(s)))
ListOfPairs(ps) ==
  IF Len(ps) = 0 THEN <<>>
  ELSE Force([i \in 1..Len(ps) |-> <<Norm(ps[i][1]), Norm(ps[i][2])>>])

\* A mapping: a later key equal after normalisation overwrites the value in
\* the place of the first.
PutPair(l, p) ==
  LET k == SelectInSeq(l, LAMBDA q : q[1] = p[1])
  IN  IF k = 0 THEN Append(l, p) ELSE [l EXCEPT ![k] = p]
ListOfMap(ps) == FoldLeft(PutPair, <<>>, ListOfPairs(ps))

LGetAll(l, n) ==
  LET m == SelectSeq(l, LAMBDA p : p[1] = Norm(n))
  IN  IF Len(m) = 0 THEN <<>> ELSE Force([i \in 1..Len(m) |-> m[i][2]])
LGet(l, n) == LET a == LGetAll(l, n) IN IF Len(a) = 0 THEN <<>> ELSE <<a[1]>>
\* v is optional
LHas(l, n, v) == \E i \in 1..Len(l) : /\ l[i][1] = Norm(n)
                                      /\ Len(v) = 0 \/ l[i][2] = Norm(v[1])
LAppend(l, n, v) == Append(l, <<Norm(n), Norm(v)>>)
LDelete(l, n, v) ==
  SelectSeq(l, LAMBDA p : ~(p[1] = Norm(n) /\ (Len(v) = 0 \/ p[2] = Norm(v[1]))))
LSet(l, n, v) ==
  LET nn == Norm(n)
      k == SelectInSeq(l, LAMBDA p : p[1] = nn)
  IN  IF k = 0 THEN LAppend(l, n, v)
      ELSE SubSeq(l, 1, k - 1) \o <<<<nn, Norm(v)>>>>
           \o SelectSeq(SubSeq(l, k + 1, Len(l)), LAMBDA p : p[1] # nn)

\* Stable insertion by UTF-16 code unit order of the names.
InsertSorted(l, p) ==
  LET k == SelectInSeq(l, LAMBDA q : CodeUnitLess(p[1], q[1]))
  IN  IF k = 0 THEN Append(l, p)
      ELSE SubSeq(l, 1, k - 1) \o <<p>> \o SubSeq(l, k, Len(l))
LSort(l) == FoldLeft(InsertSorted, <<>>, l)

LStr(l) == FormEncode(l, "utf-8")

(*------------------------------ getters -----------------------------------*)
HostGet(u) == IF u.host.k = "none" THEN <<>>
              ELSE HostSer(u.host) \o (IF u.port = -1 THEN <<>>
                                       ELSE <<cCOLON>> \o DecDigits(u.port))
Getters(u, env) ==
  [href |-> Href(u),
   origin |-> OriginSer(Origin(u, env)),
   protocol |-> Append(u.scheme, cCOLON),
   username |-> u.user,
   password |-> u.pass,
   host |-> HostGet(u),
   hostname |-> HostSer(u.host),
   port |-> IF u.port = -1 THEN <<>> ELSE DecDigits(u.port),
   pathname |-> PathSer(u),
   search |-> IF Len(u.query) = 0 \/ u.query = NonEmptyQ THEN <<>>
              ELSE <<cQ>> \o u.query[1],
   hash |-> IF Len(u.frag) = 0 \/ u.frag = NonEmptyQ THEN <<>>
            ELSE <<cHASH>> \o u.frag[1]]

(*------------------------------ setters -----------------------------------*)
RECURSIVE RStripSp(_)
RStripSp(s) == IF Len(s) > 0 /\ s[Len(s)] = cSP THEN RStripSp(SubSeq(s, 1, Len(s) - 1))
               ELSE s
StripOpaque(u) == IF u.opq /\ Len(u.query) = 0 /\ Len(u.frag) = 0
                  THEN [u EXCEPT !.path = <<RStripSp(@[1])>>] ELSE u

Res(o, exc, ret) == [o |-> o, exc |-> exc, ret |-> ret]
\* State after a state-override run: failure is reported as an exception and
\* leaves the part of the record already written.
FromRun(o, m) == Res([o EXCEPT !.u = m.url], m.fail,
                     IF m.fail = "unknown" THEN m.errs[Len(m.errs)] ELSE <<>>)
Noop(o) == Res(o, "", <<>>)

SetterNames == {"href", "protocol", "username", "password", "host", "hostname",
                "port", "pathname", "search", "hash"}

SetAttr(o, attr, v, env) ==
  LET u == o.u IN
  CASE attr = "href" ->
         LET m == BasicParse(v, <<>>, "utf-8", env)
         IN  IF m.fail = "unknown" THEN Res(o, m.fail, m.errs[Len(m.errs)])
             ELSE IF m.st = "fail" THEN Res(o, m.fail, <<>>)
             ELSE Res([u |-> m.url, list |-> ListOfQuery(m.url.query)], "", <<>>)
    [] attr = "protocol" ->
         FromRun(o, OverrideParse(Append(v, cCOLON), u, "scheme start", "utf-8", env))
    [] attr = "username" ->
         IF CannotHaveCreds(u) THEN Noop(o)
         ELSE Res([o EXCEPT !.u.user = PctEnc(v, UserinfoSet)], "", <<>>)
    [] attr = "password" ->
         IF CannotHaveCreds(u) THEN Noop(o)
         ELSE Res([o EXCEPT !.u.pass = PctEnc(v, UserinfoSet)], "", <<>>)
    [] attr = "host" ->
         IF u.opq THEN Noop(o) ELSE FromRun(o, OverrideParse(v, u, "host", "utf-8", env))
    [] attr = "hostname" ->
         IF u.opq THEN Noop(o)
         ELSE FromRun(o, OverrideParse(v, u, "hostname", "utf-8", env))
    [] attr = "port" ->
         IF CannotHaveCreds(u) THEN Noop(o)
         ELSE IF Len(v) = 0 THEN Res([o EXCEPT !.u.port = -1], "", <<>>)
         ELSE FromRun(o, OverrideParse(v, u, "port", "utf-8", env))
    [] attr = "pathname" ->
         IF u.opq THEN Noop(o)
         ELSE FromRun(o, OverrideParse(v, [u EXCEPT !.path = <<>>], "path start",
                                       "utf-8", env))
    [] attr = "search" ->
         LET u1 == IF Len(v) = 0 THEN StripOpaque([u EXCEPT !.query = <<>>])
                   ELSE OverrideParse(StripQ(v), [u EXCEPT !.query = NonEmptyQ],
                                      "query", "utf-8", env).url
         IN  Res([u |-> u1, list |-> ListOfQuery(u1.query)], "", <<>>)
    [] attr = "hash" ->
         LET u1 == IF Len(v) = 0 THEN StripOpaque([u EXCEPT !.frag = <<>>])
                   ELSE OverrideParse(StripHash(v), [u EXCEPT !.frag = NonEmptyQ],
                                      "fragment", "utf-8", env).url
         IN  Res([o EXCEPT !.u = u1], "", <<>>)

(*------------------------------ URLSearchParams ---------------------------*)
\* op = [op, n, v]; v is an optional string.  The mutators.
ListOp(l, op) ==
  CASE op.op = "append" -> LAppend(l, op.n, op.v[1])
    [] op.op = "delete" -> LDelete(l, op.n, op.v)
    [] op.op = "set"    -> LSet(l, op.n, op.v[1])
    [] op.op = "sort"   -> LSort(l)
Mutators == {"append", "delete", "set", "sort"}

\* The URL update steps of a list that belongs to a URL object.
UpdateUrl(u, l) ==
  LET q == LStr(l)
  IN  IF Len(q) > 0 THEN [u EXCEPT !.query = <<q>>]
      ELSE StripOpaque([u EXCEPT !.query = <<>>])

ParamsOp(o, op) ==
  LET l == ListOp(o.list, op)
  IN  [u |-> UpdateUrl(o.u, l), list |-> l]

\* The queries; a result is encoded as a sequence.
B(b) == IF b THEN <<1>> ELSE <<0>>
\* Indexing as Python sequences do it: from 0, negative from the end; <<>>: an
\* IndexError.  A slice l[i:j:st], its bounds and step given or not.
LAt(l, i) == LET k == IF i < 0 THEN i + Len(l) ELSE i
             IN  IF k < 0 \/ k >= Len(l) THEN <<>> ELSE <<l[k + 1]>>
SliceEnd(x, n, up, dflt) ==
  IF Len(x) = 0 THEN dflt
  ELSE LET k == IF x[1] < 0 THEN x[1] + n ELSE x[1]
       IN  IF up THEN (IF k < 0 THEN 0 ELSE IF k > n THEN n ELSE k)
           ELSE (IF k < 0 THEN -1 ELSE IF k >= n THEN n - 1 ELSE k)
LSlice(l, i, j, step) ==
  LET n == Len(l) up == step > 0
      a == SliceEnd(i, n, up, IF up THEN 0 ELSE n - 1)
      z == SliceEnd(j, n, up, IF up THEN n ELSE -1)
      cnt == IF up THEN (IF z > a THEN (z - a + step - 1) \div step ELSE 0)
             ELSE (IF a > z THEN (a - z - step - 1) \div (-step) ELSE 0)
  IN  Force([k \in 1..cnt |-> l[a + (k - 1) * step + 1]])

ListQuery(l, op) ==
  CASE op.op = "get"     -> LGet(l, op.n)
    [] op.op = "get_all" -> LGetAll(l, op.n)
    [] op.op = "has"     -> B(LHas(l, op.n, op.v))
    [] op.op = "in"      -> B(LHas(l, op.n, <<>>))
    [] op.op = "len"     -> <<Len(l)>>
    [] op.op = "str"     -> LStr(l)
    [] op.op = "add"     -> LStr(l) \o op.n
    [] op.op = "keys"    -> Force([i \in 1..Len(l) |-> l[i][1]])
    [] op.op = "values"  -> Force([i \in 1..Len(l) |-> l[i][2]])
    [] op.op = "at"      -> LAt(l, op.i)
    [] op.op = "slice"   -> LSlice(l, op.i, op.j, op.st)

(*------------------------------ construction ------------------------------*)
NewObj(m) == [u |-> m.url, list |-> ListOfQuery(m.url.query)]

(*------------------------------ round trips -------------------------------*)
\* Records a protocol setter can produce (URL Standard) whose serialization
\* does not parse back to the same record: a URL that became a file URL.
RtExempt(u) ==
  /\ u.scheme = sFile
  /\ \/ u.host = LocalHost
     \/ Len(u.path) > 0 /\ IsDrive(u.path[1])

(*------------------------------ urlparse ----------------------------------*)
UrlParseResult(u, allowFrag) ==
  LET netloc == IF u.host.k = "none"
                THEN (IF u.port = -1 THEN <<>> ELSE <<cCOLON>> \o DecDigits(u.port))
                ELSE AuthSer(u)
      p == PathSer(u)
      k == ScanTo(p, 1, {cSEMI})
      path == SubSeq(p, 1, k - 1)
      params == SubSeq(p, k + 1, Len(p))
      query == IF Len(u.query) = 0 THEN <<>> ELSE u.query[1]
      frag == IF Len(u.frag) = 0 THEN <<>> ELSE u.frag[1]
      hf == IF Len(frag) = 0 THEN <<>> ELSE <<cHASH>> \o frag
      where == IF allowFrag THEN "frag" ELSE IF Len(query) > 0 THEN "query"
               ELSE IF Len(params) > 0 THEN "params" ELSE "path"
  IN  <<u.scheme, netloc,
        IF where = "path" THEN path \o hf ELSE path,
        IF where = "params" THEN params \o hf ELSE params,
        IF where = "query" THEN query \o hf ELSE query,
        IF where = "frag" THEN frag ELSE <<>>>>

(*------------------------------ validators --------------------------------*)
\* The registry is data of the environment: `reg` is the set of registered
\* scheme names (lower case).
SchemeRegistered(s, reg) == Lower(s) \in reg

IPv4StrictErr(s) ==
  LET parts == Split(s, cDOT)
      n == Len(parts)
      nums == Force([i \in 1..n |-> IPv4Number(parts[i])])
      badNum(i) == ~nums[i].ok
      badDec(i) == nums[i].ok /\ nums[i].err
      badRange(i) == nums[i].ok /\ ~nums[i].err /\ (nums[i].n[1] > 0 \/ nums[i].n[2] > 255)
      k == SelectInSeq([i \in 1..n |-> i],
                       LAMBDA i : badNum(i) \/ badDec(i) \/ badRange(i))
  IN  IF Len(parts[n]) = 0 THEN <<"IPv4-empty-part">>
      ELSE IF n > 4 THEN <<"IPv4-too-many-parts">>
      ELSE IF n < 4 THEN <<"undefined">>
      ELSE IF k = 0 THEN <<>>
      ELSE IF badNum(k) THEN <<"IPv4-non-numeric-part">>
      ELSE IF badDec(k) THEN <<"IPv4-non-decimal-part">>
      ELSE <<"IPv4-out-of-range-part">>

\* known = FALSE: outside the specification's IDNA sub-alphabet.
DomainErr(s, env) ==
  LET r == DomainToASCII(s, TRUE, env)
      w == DomainToUnicode(s, TRUE, env)
  IN  [known |-> r.st # "unknown" /\ (r.st \in {"fail", "refuse"} \/ w.known),
       errs |-> IF r.st \in {"fail", "refuse"} THEN <<"domain-to-ASCII">>
                ELSE IF w.bad THEN <<"domain-to-Unicode">> ELSE <<>>]

OpaqueErr(s) ==
  IF Len(s) = 0 THEN <<"undefined">>
  ELSE IF s[1] = cLB /\ s[Len(s)] = cRB THEN
    LET r == IPv6Parse(SubSeq(s, 2, Len(s) - 1)) IN IF r.ok THEN <<>> ELSE r.errs
  ELSE LET k == SelectInSeq(s, LAMBDA c : c \in ForbiddenHost
                                         \/ ~(c = cPCT \/ IsUrlCodePoint(c)))
       IN  IF k # 0 /\ s[k] \in ForbiddenHost THEN <<"host-invalid-code-point">>
           ELSE IF k # 0 THEN <<"invalid-URL-unit">>
           ELSE IF \E i \in 1..Len(s) : BadPercentAt(s, i)
           THEN <<"invalid-URL-unit">> ELSE <<>>

HostErr(s, env) ==
  IF Ch(s, 1) = cLB /\ s[Len(s)] = cRB THEN
    LET r == IPv6Parse(SubSeq(s, 2, Len(s) - 1))
    IN  [known |-> TRUE, errs |-> IF r.ok THEN <<>> ELSE r.errs]
  ELSE IF EndsInNumber(s) THEN [known |-> TRUE, errs |-> IPv4StrictErr(s)]
  ELSE DomainErr(s, env)
=============================================================================
