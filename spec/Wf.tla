--------------------------------- MODULE Wf ---------------------------------
(***************************************************************************)
(* What must hold of every URL record, URL object and heap a program can   *)
(* reach.  These are the invariants TLC checks on the model (MC*.tla).     *)
(***************************************************************************)
EXTENDS World

Printable(s) == \A i \in 1..Len(s) : s[i] >= 32 /\ s[i] <= 126
Avoids(s, set) == \A i \in 1..Len(s) : s[i] <= 126 /\ s[i] \notin set
NoneOf(s, set) == \A i \in 1..Len(s) : s[i] \notin set

SchemeOk(s) == /\ Len(s) > 0 /\ IsLower(s[1])
               /\ \A i \in 1..Len(s) : s[i] \in SchemeChars /\ ~IsUpper(s[i])

HostOk(u) ==
  LET h == u.host IN
  CASE h.k = "none" -> TRUE
    [] h.k = "v4" -> Special(u) /\ Len(h.v) = 2 /\ \A i \in 1..2 : h.v[i] \in 0..65535
    [] h.k = "v6" -> Len(h.v) = 8 /\ \A i \in 1..8 : h.v[i] \in 0..65535
    [] h.k = "str" ->
         IF Special(u)
         THEN /\ Printable(h.v) /\ NoneOf(h.v, ForbiddenDomain)
              /\ \A i \in 1..Len(h.v) : ~IsUpper(h.v[i])
              /\ Len(h.v) > 0 => ~EndsInNumber(h.v)
         ELSE Avoids(h.v, C0Set) /\ NoneOf(h.v, ForbiddenHost)

PathOk(u) ==
  IF u.opq THEN /\ Len(u.path) = 1 /\ Avoids(u.path[1], C0Set)
                /\ NoneOf(u.path[1], {cQ, cHASH})
  ELSE \A i \in 1..Len(u.path) :
         LET g == u.path[i] IN
         /\ Avoids(g, PathSet) /\ NoneOf(g, {cSL})
         /\ Special(u) => NoneOf(g, {cBS})
         /\ ~IsSingleDot(g) /\ ~IsDoubleDot(g)

QueryOk(u) == Len(u.query) = 1 => Avoids(u.query[1], QuerySet)
FragOk(u) == Len(u.frag) = 1 => Avoids(u.frag[1], FragmentSet)

\* A URL record is well formed.
WfUrl(u) ==
  /\ SchemeOk(u.scheme)
  /\ HostOk(u) /\ PathOk(u) /\ QueryOk(u) /\ FragOk(u)
  /\ Avoids(u.user, UserinfoSet) /\ Avoids(u.pass, UserinfoSet)
  /\ Special(u) => /\ ~u.opq /\ u.host.k # "none" /\ Len(u.path) > 0
                   /\ u.scheme # sFile => u.host # EmptyHost
  /\ u.port \in (-1)..65535 /\ u.port # DefaultPort(u.scheme)
  /\ (HasCreds(u) \/ u.port # -1) => ~CannotHaveCreds(u)
  /\ u.opq => u.host.k = "none"

\* Its serialization is printable ASCII and parses back to it.
RoundTrips(u) ==
  \/ RtExempt(u)
  \/ LET m == BasicParse(Href(u), <<>>, "utf-8", <<>>)
     IN  m.fail = "unknown" \/ (m.st = "done" /\ m.url = u)

\* The list of an attached URLSearchParams is the URL's query.
Synced(o) == o.list = ListOfQuery(o.u.query)

WfList(l) == \A i \in 1..Len(l) : \A k \in 1..2 : Norm(l[i][k]) = l[i][k]

WfObj(o) == WfUrl(o.u) /\ Printable(Href(o.u)) /\ Synced(o) /\ WfList(o.list)
=============================================================================
